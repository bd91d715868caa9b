package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// journalFile receives the trace while it is made (see journal).
var journalFile *os.File

// ---------------------------------------------------------------------------------------------------------- properties

// plan says which worlds a property is searched in, and which situations make a run count as non-trivial for it.
type plan struct {
	modes string   // "mode:weight ..."
	keys  []string // prefixes of Ops, Crossings and Faults
}

var plans = map[string]plan{
	"C01": {"mix:4 crash:2 deleg:1 ref:1 status:1 val:2 vote:1 sub:1", []string{"query", "check", "recheck", "sim", "restart"}},
	"C02": {"crash:6 upg:1 mix:1", []string{"crash-", "disk-", "read-error", "power loss", "stop"}},
	"C03": {"mix:3 deleg:2 sub:1 ref:1 crash:1 export:1 vote:1", []string{"accrued", "fees burned", "burn/ok", "revoked"}},
	"C04": {"mix:4 sub:2 deleg:2 vote:2 ref:2 val:1", []string{"tx refused", "msg refused", "out of gas"}},
	"C05": {"mix:4 sub:2 vote:2 ref:2 val:1 deleg:1", []string{"tx refused: foreign signature", "msg refused: restrans: only", "msg refused: propose: not", "msg refused: vote: not", "msg refused: earn", "msg refused: rate", "msg refused: storagecur", "msg refused: vpncur"}},
	"C06": {"mix:3 deleg:2 sub:2 ref:2 vote:2 export:1 crash:1", []string{"task "}},
	"C07": {"deleg:6 mix:2 export:1", []string{"delegate/ok", "revoke/ok", "xrevoke/ok", "revoked coins paid back"}},
	"C08": {"deleg:5 mix:2 val:1 sub:1 export:1", []string{"accrued"}},
	"C09": {"ref:5 mix:2 status:2 export:1", []string{"compression moved", "transition affirmed", "registered", "banished", "comeback"}},
	"C10": {"ref:4 status:2 deleg:2 mix:2 sub:1 export:1", []string{"compression", "transition affirmed", "registered", "banished", "subscribed", "delegated"}},
	"C11": {"status:6 ref:3 export:1 mix:1", []string{"status"}},
	"C12": {"ref:6 mix:2 status:1 deleg:1 export:1", []string{"compression", "banish", "comeback"}},
	"C13": {"ref:7 mix:2 status:1 export:1", []string{"transition"}},
	"C14": {"val:7 mix:2 crash:1 export:1 ref:1", []string{"valset change"}},
	"C15": {"val:7 mix:2 status:1 vote:1 export:1", []string{"valset change"}},
	"C16": {"val:8 mix:2 export:1", []string{"jailed", "first infraction", "unjailed", "banned"}},
	"C17": {"mix:4 deleg:2 sub:2 val:2 vote:1", []string{"fee"}},
	"C18": {"vote:6 upg:1 val:1 mix:1 export:1", []string{"proposal"}},
	"C19": {"vote:6 mix:2 export:1 status:1", []string{"poll"}},
	"C20": {"sub:6 mix:2 ref:1 export:1", []string{"subscribed", "subscription", "auto-pa"}},
	"C21": {"sub:7 mix:2 export:1", []string{"buystorage/ok", "buyvpn/ok", "buyim/ok", "givestorage/ok", "giveim/ok", "messenger", "monthly", "storage", "vpncur/ok"}},
	"C22": {"sub:6 mix:2 ref:1 export:1", []string{"renamed", "registered"}},
	"C23": {"export:1", []string{"exports"}},
	"C24": {"mix:3 val:3 vote:2 deleg:1 ref:1 sub:1 status:1 crash:1 upg:1 export:1", []string{"tx refused", "msg refused", "task", "valset change", "read-error", "crash-"}},
	"C25": {"upg:1", []string{"upgrade"}},
	"C26": {"mix:5 deleg:2 sub:2 val:1 ref:1", []string{"send/ok", "burn/ok"}},
	"C27": {"deleg:5 mix:4 vote:2 export:1", []string{"earn/ok", "earnmulti/ok", "earning"}},
	"C29": {"mix?:3 deleg?:2 ref?:2 status?:1 val?:1 vote?:2 sub?:2 crash?:1 export?:1", []string{"queries compared"}},
	"C28": {"sub:5 ref:4 mix:3", []string{"registered", "free registration"}},
}

func (p plan) order() []string {
	type mw struct {
		m string
		w int
		c int
	}
	var ms []mw
	for _, f := range strings.Fields(p.modes) {
		x := strings.Split(f, ":")
		w, _ := strconv.Atoi(x[1])
		ms = append(ms, mw{x[0], w, 0})
	}
	// smooth weighted round robin
	tot := 0
	for _, m := range ms {
		tot += m.w
	}
	var out []string
	for i := 0; i < tot; i++ {
		k := 0
		for j := range ms {
			ms[j].c += ms[j].w
			if ms[j].c > ms[k].c {
				k = j
			}
		}
		ms[k].c -= tot
		out = append(out, ms[k].m)
	}
	return out
}

// ------------------------------------------------------------------------------------------------------------- workers

// worker is a process that executes simulated runs; it may die of what it executes.
type worker struct {
	cmd  *exec.Cmd
	in   *json.Encoder
	out  *bufio.Reader
	dir  string
	errF string
	jobs int
	pipe interface{ Close() error }
}

func newWorker() (*worker, error) {
	dir, err := os.MkdirTemp("", "verifsim-w")
	if err != nil {
		return nil, err
	}
	os.MkdirAll(filepath.Join(dir, "data"), 0755)
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w := &worker{dir: dir, errF: filepath.Join(dir, "stderr")}
	ef, err := os.Create(w.errF)
	if err != nil {
		return nil, err
	}
	defer ef.Close()
	w.cmd = exec.Command(exe, "worker")
	w.cmd.Dir = dir
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "VERIF_JOURNAL="+filepath.Join(dir, "journal"))
	w.cmd.Stderr = ef
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	si, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	so, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.pipe = si
	w.in, w.out = json.NewEncoder(si), bufio.NewReaderSize(so, 1<<20)
	return w, w.cmd.Start()
}

func (w *worker) close() {
	w.pipe.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	os.RemoveAll(w.dir)
}

// do executes a job. When the process does not survive it, that is the result.
func (w *worker) do(j job, timeout time.Duration) (res runResult, dead bool) {
	w.jobs++
	type rr struct {
		line []byte
		err  error
	}
	ch := make(chan rr, 1)
	t0 := time.Now()
	go func() {
		if err := w.in.Encode(j); err != nil {
			ch <- rr{nil, err}
			return
		}
		for {
			l, err := w.out.ReadBytes('\n')
			if err == nil && !strings.HasPrefix(string(l), "RESULT ") {
				continue // something printed by the code under test
			}
			ch <- rr{l, err}
			return
		}
	}()
	res.Seed, res.Mode = j.Seed, j.Mode
	select {
	case r := <-ch:
		if r.err == nil {
			if err := json.Unmarshal(r.line[len("RESULT "):], &res); err != nil {
				res.Err = "unreadable result: " + err.Error()
			}
			return res, false
		}
		w.cmd.Wait()
		eb, _ := os.ReadFile(w.errF)
		tail := string(eb)
		if len(tail) > 6000 {
			tail = tail[:3000] + "\n...\n" + tail[len(tail)-3000:]
		}
		v := Violation{Props: []string{"C24"}, Sig: "process-exits", Msg: "the process exits: " + tail, Block: -1}
		if strings.Contains(tail, "ailed to load latest version") || strings.Contains(tail, "version does not exist") {
			v.Props, v.Sig = []string{"C02", "C24"}, "cannot-load"
		}
		res.Trace = readJournal(filepath.Join(w.dir, "journal"))
		if strings.Contains(tail, "signal: killed") || w.killed() {
			res.Err = "worker killed: " + tail
			return res, true
		}
		res.Viol = []Violation{v}
	case <-time.After(timeout):
		w.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(2 * time.Second)
		w.cmd.Process.Kill()
		w.cmd.Wait()
		eb, _ := os.ReadFile(w.errF)
		tail := string(eb)
		if len(tail) > 4000 {
			tail = tail[:4000]
		}
		res.Trace = readJournal(filepath.Join(w.dir, "journal"))
		res.Viol = []Violation{{Props: []string{"C24"}, Sig: "hang", Msg: fmt.Sprintf("no progress within %v: %s", timeout, tail), Block: -1}}
	}
	res.Ms = time.Since(t0).Milliseconds()
	return res, true
}

func (w *worker) killed() bool {
	ws, ok := w.cmd.ProcessState.Sys().(syscall.WaitStatus)
	return ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL
}

func readJournal(p string) *Trace {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	t := &Trace{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 2)
		if len(f) < 2 {
			continue
		}
		switch f[0] {
		case "spec":
			t = &Trace{}
			json.Unmarshal([]byte(f[1]), &t.Spec)
		case "block":
			var b Block
			if json.Unmarshal([]byte(f[1]), &b) == nil {
				t.Blocks = append(t.Blocks, b)
			}
		case "tx":
			var x Tx
			if json.Unmarshal([]byte(f[1]), &x) == nil && len(t.Blocks) > 0 {
				k := len(t.Blocks) - 1
				t.Blocks[k].Txs = append(t.Blocks[k].Txs, x)
			}
		}
	}
	return t
}

// pool runs jobs on all processors.
type pool struct {
	n       int
	timeout time.Duration
	free    chan *worker
}

func newPool(n int, timeout time.Duration) *pool {
	p := &pool{n: n, timeout: timeout, free: make(chan *worker, n)}
	for i := 0; i < n; i++ {
		p.free <- nil
	}
	return p
}

func (p *pool) do(j job) runResult {
	w := <-p.free
	if w == nil {
		var err error
		if w, err = newWorker(); err != nil {
			p.free <- nil
			return runResult{Seed: j.Seed, Mode: j.Mode, Err: err.Error()}
		}
	}
	res, dead := w.do(j, p.timeout)
	if dead || w.jobs >= 12 {
		w.close()
		w = nil
	}
	p.free <- w
	return res
}

func (p *pool) close() {
	for i := 0; i < p.n; i++ {
		if w := <-p.free; w != nil {
			w.close()
		}
	}
}

// ---------------------------------------------------------------------------------------------------------- minimising

func hit(r runResult, prop, sig string) *Violation {
	for i := range r.Viol {
		if has(r.Viol[i].Props, prop) && (sig == "" || r.Viol[i].Sig == sig) {
			return &r.Viol[i]
		}
	}
	return nil
}

// An element of a trace that can be left out.
type elem struct{ b, kind, i int } // kind 0 block, 1 transaction, 2 fault, 3 evidence, 4 missed votes, 5 export, 6 swap

func elems(t *Trace) (e []elem) {
	for b := range t.Blocks {
		x := &t.Blocks[b]
		for i := range x.F {
			e = append(e, elem{b, 2, i})
		}
		for i := range x.Ev {
			e = append(e, elem{b, 3, i})
		}
		if len(x.Miss) > 0 {
			e = append(e, elem{b, 4, 0})
		}
		if x.Export {
			e = append(e, elem{b, 5, 0})
		}
		if len(x.Swap) > 0 {
			e = append(e, elem{b, 6, 0})
		}
	}
	for b := range t.Blocks {
		for i := range t.Blocks[b].Txs {
			e = append(e, elem{b, 1, i})
		}
	}
	for b := range t.Blocks {
		e = append(e, elem{b, 0, 0})
	}
	return
}

func reduced(t *Trace, drop map[elem]bool) Trace {
	o := Trace{Spec: t.Spec}
	var dt int64
	for b, x := range t.Blocks {
		y := Block{Dt: x.Dt + dt, Prop: x.Prop, Miss: x.Miss, Export: x.Export, Swap: x.Swap}
		for i, f := range x.F {
			if !drop[elem{b, 2, i}] {
				y.F = append(y.F, f)
			}
		}
		for i, f := range x.Ev {
			if !drop[elem{b, 3, i}] {
				y.Ev = append(y.Ev, f)
			}
		}
		if drop[elem{b, 4, 0}] {
			y.Miss = nil
		}
		if drop[elem{b, 5, 0}] {
			y.Export = false
		}
		if drop[elem{b, 6, 0}] {
			y.Swap = nil
		}
		for i, f := range x.Txs {
			if !drop[elem{b, 1, i}] {
				y.Txs = append(y.Txs, f)
			}
		}
		if drop[elem{b, 0, 0}] && len(y.Txs) == 0 && len(y.F) == 0 && len(y.Ev) == 0 && len(y.Miss) == 0 && !y.Export && len(y.Swap) == 0 {
			dt = y.Dt
			continue
		}
		dt = 0
		o.Blocks = append(o.Blocks, y)
	}
	return o
}

func size(t *Trace) int { return len(elems(t)) }

// minimise leaves out what the violation does not need (delta debugging, candidates tried in parallel).
func minimise(p *pool, t Trace, prop, sig string, budget time.Duration) (Trace, int) {
	end := time.Now().Add(budget)
	tried := 0
	test := func(c []Trace) int { // index of the first candidate that still fails
		ok := make([]bool, len(c))
		var wg sync.WaitGroup
		for i := range c {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r := p.do(job{Kind: "replay", Seed: t.Spec.Seed, Want: prop, Trace: &c[i]})
				ok[i] = hit(r, prop, sig) != nil
			}(i)
		}
		wg.Wait()
		tried += len(c)
		for i := range ok {
			if ok[i] {
				return i
			}
		}
		return -1
	}
	// all faults, exports, ... of a kind at once
	var c []Trace
	for _, kinds := range [][]int{{2, 3, 4, 5, 6}, {2}, {3}, {4}, {5}, {6}, {2, 3, 4}} {
		d := map[elem]bool{}
		for _, e := range elems(&t) {
			for _, k := range kinds {
				if e.kind == k {
					d[e] = true
				}
			}
		}
		if len(d) > 0 {
			c = append(c, reduced(&t, d))
		}
	}
	if len(c) > 0 {
		if i := test(c); i >= 0 {
			t = c[i]
		}
	}
	for chunk := (size(&t) + 1) / 2; chunk >= 1 && time.Now().Before(end); {
		progress := false
		for off := 0; off < size(&t) && time.Now().Before(end); {
			es := elems(&t)
			var c []Trace
			var offs []int
			for o := off; o < len(es) && len(c) < p.n; o += chunk {
				d := map[elem]bool{}
				for _, e := range es[o:minInt(o+chunk, len(es))] {
					d[e] = true
				}
				x := reduced(&t, d)
				if size(&x) < len(es) {
					c, offs = append(c, x), append(offs, o)
				}
				off = o + chunk
			}
			if len(c) == 0 {
				break
			}
			if i := test(c); i >= 0 {
				t, off, progress = c[i], offs[i], true
			}
		}
		if !progress || chunk > 1 {
			if chunk == 1 {
				break
			}
			chunk = (chunk + 1) / 2
		}
	}
	return t, tried
}

// ---------------------------------------------------------------------------------------------------------------- check

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func traceHash(t *Trace) string {
	h := sha256.Sum256([]byte(mustJSON(t.Blocks)))
	return hex.EncodeToString(h[:8])
}

func checkMain(args []string) {
	if len(args) < 1 || plans[args[0]].modes == "" {
		fmt.Fprintln(os.Stderr, "usage: verifsim check C01..C29 [quick|thorough]")
		os.Exit(2)
	}
	prop, tier := args[0], "quick"
	if len(args) > 1 && args[1] != "" {
		tier = args[1]
	}
	t0 := time.Now()
	seed := envInt("VERIF_SEED", 1)
	runs, dispatch := envInt("VERIF_RUNS", 64), 240*time.Second
	if tier == "thorough" {
		runs, dispatch = envInt("VERIF_RUNS", 1<<30), time.Duration(envInt("VERIF_SECONDS", 600))*time.Second
	}
	pl := plans[prop]
	order := pl.order()
	pi, _ := strconv.ParseInt(prop[1:], 10, 64)
	n := runtime.NumCPU()
	pool := newPool(n, 400*time.Second)

	tot := newStats()
	distinct := map[string]bool{}
	nontrivial := map[string]bool{}
	var samples []interface{}
	modes := map[string]int{}
	var first *runResult
	var firstV *Violation
	var errs []string
	var ran int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	deadline := t0.Add(dispatch)
	next := int64(0)
	known := map[string]string{}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				if i >= runs || firstV != nil || time.Now().After(deadline) || len(errs) > 3 {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				s := seed*1000000 + pi*10000 + i
				if i >= 10000 {
					s = seed*1000000000 + pi*10000000 + i
				}
				m := order[i%int64(len(order))]
				res := pool.do(job{Kind: "run", Seed: s, Mode: m, Want: prop, Full: true})
				mu.Lock()
				for sig, what := range res.Known {
					known[sig] = what
				}
				if v := hit(res, prop, ""); v != nil {
					if firstV == nil || s < first.Seed {
						r := res
						first, firstV = &r, v
					}
				} else if res.Err != "" {
					errs = append(errs, fmt.Sprintf("seed %d mode %s: %s", s, m, res.Err))
				}
				if res.Stats != nil {
					ran++
					modes[m]++
					tot.add(res.Stats)
					h := ""
					if res.Trace != nil {
						h = traceHash(res.Trace)
						distinct[h] = true
					}
					if e := res.Stats.exercised(pl.keys); len(e) > 0 {
						nontrivial[h] = true
						if len(samples) < 3 {
							samples = append(samples, map[string]interface{}{"seed": s, "mode": m, "trace": h, "blocks": res.Stats.Blocks, "transactions": res.Stats.Txs,
								"exercised": e, "faults": res.Stats.Faults, "replay": fmt.Sprintf("/verif/sim/run.sh %s %d", m, s)})
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	search := time.Since(t0).Seconds()

	path := ""
	if firstV != nil {
		path = fmt.Sprintf("%s/replay-%s-%d.json", evidenceDir(), prop, first.Seed)
		rf := ReplayFile{Property: prop, Violation: *firstV, Seed: first.Seed}
		if first.Trace != nil {
			rf.Trace = *first.Trace
			budget := 45 * time.Second
			if tier == "thorough" {
				budget = 180 * time.Second
			}
			budget = time.Duration(envInt("VERIF_MINIMISE", int64(budget/time.Second))) * time.Second
			before := size(first.Trace)
			pool.timeout = 60 * time.Second
			if firstV.Sig == "hang" {
				budget = 0
				pool.timeout = 400 * time.Second
			}
			t, tried := *first.Trace, 0
			if budget > 0 {
				t, tried = minimise(pool, *first.Trace, prop, firstV.Sig, budget)
			}
			// the file as written has to fail again
			att := 0
			var v *Violation
			for att < 20 && v == nil {
				att++
				v = hit(pool.do(job{Kind: "replay", Seed: first.Seed, Want: prop, Trace: &t}), prop, firstV.Sig)
				if v == nil && att == 10 {
					t = *first.Trace
				}
				if firstV.Sig == "hang" {
					break
				}
			}
			rf.Trace = t
			rf.Note = fmt.Sprintf("minimised from %d to %d elements (%d candidates tried)", before, size(&t), tried)
			if v != nil {
				rf.Violation = *v
				if att > 1 {
					rf.Note += fmt.Sprintf("; reproduced at attempt %d: the outcome depends on in-process randomness (map order), repeat the replay", att)
				}
			} else {
				rf.Note += fmt.Sprintf("; NOT reproduced in %d attempts: the outcome depends on in-process randomness (map order)", att)
			}
		}
		if err := rf.write(path); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fmt.Printf("seed %d, %s, block %d, %s: %s\n%s\n", first.Seed, rf.Violation.Sig, rf.Violation.Block, rf.Violation.Call, firstLines(rf.Violation.Msg, 12), rf.Note)
	}
	pool.close()

	nv := 0
	if firstV != nil {
		nv = 1
	}
	cov := map[string]interface{}{
		"evaluations":         ran,
		"distinct_nontrivial": len(nontrivial),
		"rule": "One evaluation is one simulated run: a world (accounts, network shape, parameters, replicas with their settings) and a schedule (block times, proposers, missed votes, evidence, transactions, faults), all made from one seed. " +
			"Runs are distinct if their executed traces differ; a run is non-trivial for this property if it exercised one of: " + strings.Join(pl.keys, ", ") + ".",
		"samples":                samples,
		"runs_per_hour":          int64(float64(ran) / search * 3600),
		"seeds_per_hour":         int64(float64(ran) / search * 3600),
		"distinct_traces":        len(distinct),
		"runs_by_world":          modes,
		"simulated_days":         float64(tot.SimNs) / 86400e9,
		"blocks":                 tot.Blocks,
		"transactions":           tot.Txs,
		"transactions_succeeded": tot.TxOK,
		"messages":               tot.Msgs,
		"faults_injected":        tot.Faults,
		"operations":             tot.Ops,
		"situations_reached":     tot.Crossings,
		"distinct_states":        len(tot.States),
		"distinct_states_rule":   "abstract state after each block: sets of statuses, validator states, open requests, votes and planned task kinds, with counts in powers of two",
		"restarts":               tot.Restarts,
		"blocks_replayed":        tot.Replayed,
		"state_snapshots":        tot.Snapshots,
		"calls_compared":         tot.Compared,
		"exports_and_imports":    tot.Exports,
		"real_components":        []string{"app (ArteryApp, ante handler, all modules)", "cosmos-sdk baseapp, rootmulti and iavl stores, auth, upgrade, params", "Tendermint's validator set and update rules", "signing and verification of transactions", "protobuf codecs, genesis validation, export and import"},
		"stub_components":        []string{"disk (simulated database with fault injection)", "consensus and network (block schedule, votes, evidence, node availability)", "clock (block time)", "users, validators' operators and evidence (seeded generator)"},
		"errors":                 errs,
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nv,
		"assumptions": []string{
			"in-process randomness (map order, select) is not seeded; runs that depend on it are repeated on several replicas instead",
			"the reference model is this framework's reading of the documentation and the code (DESIGN.md)",
			"the network is reduced to what consensus guarantees: every node executes the same blocks, at its own time",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evidenceDir()+"/"+prop+".json", append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, k := range knowns {
		if k.prop == prop {
			seen := "not met in this run"
			if _, ok := known[k.sig]; ok {
				seen = "met in this run"
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.what, seen)
		}
	}
	fmt.Printf("%s %s: %d runs (%d non-trivial), %d blocks, %d transactions, %.0f simulated days, %.0f s\n", prop, tier, ran, len(nontrivial), tot.Blocks, tot.Txs, float64(tot.SimNs)/86400e9, time.Since(t0).Seconds())
	if firstV != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		os.Exit(1)
	}
	if len(errs) > 0 {
		fmt.Fprintln(os.Stderr, "inconclusive:", strings.Join(errs, "\n"))
		if len(errs) > 3 || ran == 0 {
			os.Exit(3)
		}
	}
	os.Exit(0)
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func evidenceDir() string {
	d := os.Getenv("VERIF_EVIDENCE")
	if d == "" {
		d = "/verif/evidence"
	}
	os.MkdirAll(d, 0755)
	return d
}

func (a *Stats) add(b *Stats) {
	a.Blocks += b.Blocks
	a.Txs += b.Txs
	a.TxOK += b.TxOK
	a.Msgs += b.Msgs
	a.SimNs += b.SimNs
	a.Restarts += b.Restarts
	a.Replayed += b.Replayed
	a.Snapshots += b.Snapshots
	a.Compared += b.Compared
	a.Exports += b.Exports
	for k, v := range b.Faults {
		a.Faults[k] += v
	}
	for k, v := range b.Ops {
		a.Ops[k] += v
	}
	for k, v := range b.Crossings {
		a.Crossings[k] += v
	}
	for k := range b.States {
		a.States[k] = true
	}
}

// exercised lists the situations of a run that start with one of the prefixes.
func (a *Stats) exercised(keys []string) (out []string) {
	m := map[string]int64{"exports": a.Exports}
	for _, x := range []map[string]int64{a.Faults, a.Ops, a.Crossings} {
		for k, v := range x {
			m[k] += v
		}
	}
	for k, v := range m {
		for _, p := range keys {
			if v > 0 && strings.HasPrefix(k, p) {
				out = append(out, fmt.Sprintf("%s x%d", k, v))
				break
			}
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = out[:12]
	}
	return
}

// replayMain executes a replay file; exit 1 if it fails as recorded.
func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f ReplayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := newPool(1, 400*time.Second)
	defer p.close()
	n := 1
	if strings.Contains(f.Note, "in-process randomness") {
		n = 20
	}
	for i := 0; i < n; i++ {
		r := p.do(job{Kind: "replay", Seed: f.Seed, Want: f.Property, Trace: &f.Trace})
		if v := hit(r, f.Property, ""); v != nil {
			fmt.Printf("seed %d, %s, block %d, %s: %s\n", f.Seed, v.Sig, v.Block, v.Call, v.Msg)
			if v.Sig != f.Violation.Sig {
				fmt.Printf("(recorded was %s)\n", f.Violation.Sig)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
		if r.Err != "" {
			fmt.Fprintln(os.Stderr, r.Err)
			return 3
		}
	}
	fmt.Println("the recorded schedule does not violate", f.Property)
	return 0
}
func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
