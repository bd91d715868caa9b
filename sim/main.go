package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

type runResult struct {
	Seed  int64             `json:"seed"`
	Mode  string            `json:"mode"`
	Viol  []Violation       `json:"viol,omitempty"`
	Stats *Stats            `json:"stats,omitempty"`
	Err   string            `json:"err,omitempty"`
	Ms    int64             `json:"ms"`
	Known map[string]string `json:"known,omitempty"`
	Trace *Trace            `json:"trace,omitempty"`
}

// runSeed is one simulated run, decided by its seed.
func runSeed(seed int64, mode, want string, prog func(*Sim)) (s *Sim, err error) {
	spec := specFor(seed, mode)
	s, err = newSim(spec, want)
	if err != nil {
		return nil, err
	}
	s.gen = newGen(s, seed*31337+1)
	if prog != nil {
		prog(s)
	}
	n := spec.Blocks
	for i := 0; i < n && !s.stop; i++ {
		s.gen.quiet = i >= n*4/5 // liveness: everything has to recover once faults cease
		s.step(s.gen.nextBlock(i))
		if prog != nil {
			prog(s)
		}
	}
	s.finish()
	return s, nil
}

// replay executes a recorded trace and nothing else.
func replay(t Trace, want string) (*Sim, error) {
	s, err := newSim(t.Spec, want)
	if err != nil {
		return nil, err
	}
	for i := range t.Blocks {
		if s.stop || len(s.vals[s.curH+1].Validators) == 0 {
			break
		}
		s.step(&t.Blocks[i])
	}
	s.finish()
	return s, nil
}

func setup() {
	loadKnown(os.Getenv("VERIF_KNOWN"))
	debug.SetGCPercent(400)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifsim run|replay|worker|check ...")
		os.Exit(2)
	}
	setup()
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	switch os.Args[1] {
	case "run": // one seed, verbosely
		seed := fs.Int64("seed", 1, "")
		n := fs.Int64("n", 1, "")
		mode := fs.String("mode", "mix", "")
		want := fs.String("want", "none", "")
		out := fs.String("out", "", "")
		quiet := fs.Bool("q", false, "")
		prof := fs.String("cpuprofile", "", "")
		fs.Parse(os.Args[2:])
		if *prof != "" {
			f, err := os.Create(*prof)
			if err != nil {
				panic(err)
			}
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		for k := *seed; k < *seed+*n; k++ {
			t0 := time.Now()
			s, err := runSeed(k, *mode, *want, nil)
			if err != nil {
				fmt.Println("seed", k, "error", err)
				continue
			}
			for _, v := range s.viol {
				fmt.Printf("VIOL seed %d %v %s @%s: %s\n", k, v.Props, v.Sig, v.Call, v.Msg)
			}
			if !*quiet {
				fmt.Println(mustJSON(s.st))
			}
			fmt.Printf("seed %d mode %s: %d blocks %d txs %d ok %d viol %.2fs stopped %v\n", k, *mode, s.st.Blocks, s.st.Txs, s.st.TxOK, len(s.viol), time.Since(t0).Seconds(), s.stop)
			if *out != "" {
				f := ReplayFile{Seed: k, Trace: s.tr}
				if len(s.viol) > 0 {
					f.Violation = s.viol[0]
				}
				f.write(*out)
			}
		}
	case "replay":
		fs.Parse(os.Args[2:])
		os.Exit(replayMain(fs.Arg(0)))
	case "worker":
		workerMain()
	case "fresh":
		freshMain()
	case "check":
		checkMain(os.Args[2:])
	}
}

func scratch() func() {
	d, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Join(d, "data"), 0755)
	os.Chdir(d)
	return func() { os.RemoveAll(d) }
}

type job struct {
	Kind  string `json:"kind"` // run | replay
	Seed  int64  `json:"seed"`
	Mode  string `json:"mode"`
	Want  string `json:"want"`
	Trace *Trace `json:"trace,omitempty"`
	Full  bool   `json:"full"` // return the trace in any case
}

func specOf(j job) Spec {
	if j.Kind == "run" {
		return specFor(j.Seed, j.Mode)
	}
	return j.Trace.Spec
}

// workerMain executes jobs from stdin, one after another.
func workerMain() {
	if p := os.Getenv("VERIF_JOURNAL"); p != "" {
		journalFile, _ = os.Create(p)
	}
	result := os.Stdout
	os.Stdout = os.Stderr
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	out := bufio.NewWriter(result)
	enc := json.NewEncoder(out)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		if journalFile != nil {
			journalFile.Truncate(0)
			journalFile.Seek(0, 0)
		}
		res := doJob(j)
		out.WriteString("RESULT ")
		if err := enc.Encode(res); err != nil {
			return
		}
		out.Flush()
	}
}

func doJob(j job) (res runResult) {
	t0 := time.Now()
	res.Seed, res.Mode = j.Seed, j.Mode
	var s *Sim
	var err error
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			res.Err = fmt.Sprintf("simulator panics: %v\n%s", e, st)
			// reading the state through the application's own code has to work
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, "/artr/verifsim") || strings.HasPrefix(l, "main.") {
					break
				}
				if strings.Contains(l, "arterynetwork/artr/x/") || strings.Contains(l, "arterynetwork/artr/app") {
					res.Err = ""
					res.Viol = []Violation{{Props: []string{"C24"}, Sig: "query-panics", Msg: fmt.Sprintf("reading the state panics: %v\n%s", e, st), Block: -1}}
					if journalFile != nil {
						res.Trace = readJournal(journalFile.Name())
					}
					break
				}
			}
		}
		res.Ms = time.Since(t0).Milliseconds()
		if len(knownSeen) > 0 {
			res.Known = map[string]string{}
			for k := range knownSeen {
				res.Known[k] = k
			}
		}
	}()
	if j.Kind == "run" {
		s, err = runSeed(j.Seed, j.Mode, j.Want, nil)
	} else {
		s, err = replay(*j.Trace, j.Want)
	}
	if err != nil {
		if strings.HasPrefix(err.Error(), "InitChain panics") {
			// a generated genesis is valid, see world.go
			res.Viol = []Violation{{Props: []string{"C23", "C24"}, Sig: "initchain-panics", Msg: err.Error(), Block: -1}}
			res.Trace = &Trace{Spec: specOf(j)}
			return
		}
		res.Err = err.Error()
		return
	}
	res.Viol, res.Stats = s.viol, s.st
	if j.Full || len(s.viol) > 0 {
		res.Trace = &s.tr
	}
	return
}
