package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"
)

// Replicas share one process with each other, with the runs before them and with their own former lives, thus also
// whatever the code under test keeps in memory outside of the application object. Fault "fresh" takes that away: a copy
// of a replica's disk is handed to a new operating system process that executes the following blocks (N = 0: a new
// process executes the chain from its genesis).

type freshBlock struct {
	Begin  []byte
	Txs    [][]byte
	RB, RE []byte
	RD     [][]byte
	Hash   []byte
	Height int64
}

type freshJob struct {
	Pruning, MinGas string
	Cache           bool
	NewBin          []string
	Height          int64 // of the disk
	Hash            []byte
	Keys, Vals      [][]byte
	Init, InitRes   []byte // from genesis
	Blocks          []freshBlock
	left            int64
	rep             int
}

// freshAt arms the fault on a replica that has just executed the last block.
func (s *Sim) freshAt(r *Replica, f Fault) {
	if !(s.want == "" || s.want == "none" || s.want == "C01" || s.want == "C02") || r.down || r.height != s.curH || r.early != "" || r.app == nil {
		return
	}
	j := &freshJob{Pruning: r.pruning, MinGas: r.minGas, Cache: r.cache, rep: r.id, left: f.N}
	if f.N == 0 {
		q := s.initReq()
		j.Init, _ = q.Marshal()
		j.InitRes, _ = s.initR.Marshal()
		for _, bl := range s.log {
			if bl.due {
				break
			}
			j.add(bl)
		}
		s.runFresh(j)
		return
	}
	for _, n := range sortedBoolKeys(r.newBin) {
		j.NewBin = append(j.NewBin, n)
	}
	j.Height, j.Hash = s.curH, s.block(s.curH).hash
	it, _ := r.db.mem.Iterator(nil, nil)
	for ; it.Valid(); it.Next() {
		j.Keys, j.Vals = append(j.Keys, it.Key()), append(j.Vals, it.Value())
	}
	it.Close()
	s.fresh = append(s.fresh, j)
}

func (j *freshJob) add(bl *blockLog) {
	b := freshBlock{Txs: bl.txs, Hash: bl.hash, Height: bl.begin.Header.Height}
	b.Begin, _ = bl.begin.Marshal()
	b.RB, _ = bl.rb.Marshal()
	b.RE, _ = bl.re.Marshal()
	for _, r := range bl.rd {
		n := normDeliver(r)
		x, _ := n.Marshal()
		b.RD = append(b.RD, x)
	}
	j.Blocks = append(j.Blocks, b)
}

// freshStep hands the last block to the armed processes; all: it is the last one.
func (s *Sim) freshStep(last bool) {
	var keep []*freshJob
	for _, j := range s.fresh {
		if s.stop {
			return
		}
		run := last
		if n := int64(len(j.Blocks)); !last && j.Height+n < s.curH {
			bl := s.block(j.Height + n + 1)
			if bl.due || bl.plan != "" && has(j.NewBin, bl.plan) {
				run = true
			} else {
				j.add(bl)
				run = int64(len(j.Blocks)) >= j.left
			}
		}
		if run {
			s.runFresh(j)
		} else {
			keep = append(keep, j)
		}
	}
	s.fresh = keep
}

func (s *Sim) runFresh(j *freshJob) {
	if len(j.Blocks) == 0 {
		return
	}
	exe, err := os.Executable()
	if err != nil {
		return
	}
	dir, err := os.MkdirTemp("", "verifsim-f")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "data"), 0755)
	var in, errB bytes.Buffer
	if err := gob.NewEncoder(&in).Encode(j); err != nil {
		panic(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, exe, "fresh")
	c.Dir, c.Stdin, c.Stderr = dir, &in, &errB
	c.Env = append(os.Environ(), "VERIF_JOURNAL=", "GOMAXPROCS=2")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := c.Output()
	key := "fresh process"
	if j.Init != nil {
		key = "fresh process from genesis"
	}
	s.st.Faults[key]++
	s.st.Compared += int64(len(j.Blocks))
	s.call = fmt.Sprintf("blocks %d..%d in a new process", j.Blocks[0].Height, j.Blocks[len(j.Blocks)-1].Height)
	i := strings.LastIndex(string(out), "FRESH ")
	switch {
	case ctx.Err() != nil:
		s.st.Crossings["fresh process timed out"]++
	case i < 0:
		e := errB.String()
		if len(e) > 3000 {
			e = e[:1500] + "\n...\n" + e[len(e)-1500:]
		}
		if strings.Contains(fmt.Sprint(err), "killed") {
			s.st.Crossings["fresh process killed"]++
			return
		}
		s.report([]string{"C02", "C24"}, "fresh-dies", fmt.Sprintf("a new process on the data of replica %d (height %d) dies: %v %s", j.rep, j.Height, err, e))
		s.stop = true
	default:
		if d := string(out)[i+len("FRESH "):]; d != "same" {
			what := strings.SplitN(d, ":", 2)[0]
			s.report([]string{"C01", "C02"}, "fresh:"+strings.Fields(what)[0], fmt.Sprintf("a new process on the data of replica %d (height %d) differs from the process that has been running: %s", j.rep, j.Height, d))
			s.stop = true
		}
	}
}

// freshMain is the new process.
func freshMain() {
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	var j freshJob
	if err := gob.NewDecoder(bytes.NewReader(in)).Decode(&j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	result := os.Stdout
	os.Stdout = os.Stderr
	say := func(f string, a ...interface{}) {
		fmt.Fprintf(result, "FRESH "+f, a...)
		os.Exit(0)
	}
	r := &Replica{db: newSimDB(), pruning: j.Pruning, minGas: j.MinGas, cache: j.Cache, newBin: map[string]bool{}}
	r.db.keepUndo = false
	for i := range j.Keys {
		_ = r.db.mem.Set(j.Keys[i], append([]byte{}, j.Vals[i]...))
	}
	for _, n := range j.NewBin {
		r.newBin[n] = true
	}
	what := "start"
	o := guard(func() {
		if o := r.start(); o.panik != "" || o.crash != "" {
			panic(o.panik + o.crash + "\n" + o.stack)
		}
		if j.Init != nil {
			what = "InitChain"
			var q abci.RequestInitChain
			if err := q.Unmarshal(j.Init); err != nil {
				panic(err)
			}
			var want abci.ResponseInitChain
			_ = want.Unmarshal(j.InitRes)
			res := r.app.InitChain(q)
			b, _ := res.Marshal()
			res = abci.ResponseInitChain{}
			_ = res.Unmarshal(b)
			if d := respDiff(sortedVals(want), sortedVals(res)); d != "" {
				say("InitChain: %s", d)
			}
		} else {
			info := r.app.Info(abci.RequestInfo{})
			if info.LastBlockHeight != j.Height || !bytes.Equal(info.LastBlockAppHash, j.Hash) {
				say("Info: height %d hash %X, it was %d %X", info.LastBlockHeight, info.LastBlockAppHash, j.Height, j.Hash)
			}
		}
		for _, b := range j.Blocks {
			what = fmt.Sprintf("BeginBlock in block %d", b.Height)
			var q abci.RequestBeginBlock
			if err := q.Unmarshal(b.Begin); err != nil {
				panic(err)
			}
			var wb, gb abci.ResponseBeginBlock
			_ = wb.Unmarshal(b.RB)
			x := r.app.BeginBlock(q)
			y, _ := x.Marshal()
			_ = gb.Unmarshal(y)
			if d := respDiff(wb, gb); d != "" {
				say("BeginBlock in block %d: %s", b.Height, d)
			}
			for i, tx := range b.Txs {
				what = fmt.Sprintf("DeliverTx %d in block %d", i, b.Height)
				var w, g abci.ResponseDeliverTx
				_ = w.Unmarshal(b.RD[i])
				x := normDeliver(r.app.DeliverTx(abci.RequestDeliverTx{Tx: tx}))
				y, _ := x.Marshal()
				_ = g.Unmarshal(y)
				if d := respDiff(w, g); d != "" {
					say("DeliverTx %d in block %d: %s", i, b.Height, d)
				}
			}
			what = fmt.Sprintf("EndBlock in block %d", b.Height)
			var we, ge abci.ResponseEndBlock
			_ = we.Unmarshal(b.RE)
			e := r.app.EndBlock(abci.RequestEndBlock{Height: b.Height})
			y, _ = e.Marshal()
			_ = ge.Unmarshal(y)
			if d := respDiff(we, ge); d != "" {
				say("EndBlock in block %d: %s", b.Height, d)
			}
			what = fmt.Sprintf("Commit in block %d", b.Height)
			if x := r.app.Commit().Data; !bytes.Equal(x, b.Hash) {
				say("Commit in block %d: state hash %X instead of %X", b.Height, x, b.Hash)
			}
		}
	})
	if o.panik != "" || o.crash != "" {
		say("%s: the new process panics: %s%s\n%s", what, o.panik, o.crash, o.stack)
	}
	say("same")
}

func sortedBoolKeys(m map[string]bool) []string {
	x := map[string]int{}
	for k, v := range m {
		if v {
			x[k] = 1
		}
	}
	return sortedIntKeys(x)
}
