package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	abci "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/arterynetwork/artr/app"
)

// witnessUpgrade is what operators do when their node halts for an agreed upgrade: they install the new binary.
func (s *Sim) witnessUpgrade(name string, req abci.RequestBeginBlock, bl *blockLog) bool {
	w := s.reps[0]
	s.kill(w, 0)
	w.newBin[name] = true
	s.upSet[name] = true
	o := w.start()
	if o.crash != "" || o.panik != "" {
		s.report([]string{"C25", "C24"}, "no-start-upgraded", "the new binary does not start: "+o.panik+o.crash+"\n"+o.stack)
		s.stop = true
		return false
	}
	if w.height != req.Header.Height-1 {
		s.report([]string{"C25", "C02"}, "halt-height", fmt.Sprintf("halted for an upgrade in block %d but restarts at height %d", req.Header.Height, w.height))
		s.stop = true
		return false
	}
	o = guard(func() { bl.rb = w.app.BeginBlock(req) })
	if o.panik != "" {
		s.report([]string{"C25", "C24"}, "new-binary", "the new binary does not go on after the halt: "+o.panik+"\n"+o.stack)
		s.stop = true
		return false
	}
	return true
}

// upgradeHalt: a replica stopped in BeginBlock for an upgrade.
func (s *Sim) upgradeHalt(r *Replica, bl *blockLog, msg string) {
	if bl.plan == "" || !bl.due || !strings.Contains(msg, "\""+bl.plan+"\"") {
		s.report([]string{"C25", "C24", "C01"}, "early-halt", fmt.Sprintf("replica %d halts at height %d for an upgrade that is not due: %s", r.id, bl.begin.Header.Height, msg))
		s.stop = true
		return
	}
	r.newBin[bl.plan] = true
	r.upgraded = true
	s.st.Crossings["replica halted and upgraded"]++
	s.reboot(r, "upgrade", 0)
}

// swapBinary installs the new binary on a replica that has not reached the upgrade yet.
func (s *Sim) swapBinary(r *Replica) {
	bl := s.block(s.curH)
	if r.down || r.lagFor > 0 || r.height != s.curH-1 || bl.plan == "" || r.newBin[bl.plan] || r.height <= s.base {
		return
	}
	r.newBin[bl.plan] = true
	r.early = bl.plan
	s.st.Faults["early binary"]++
	s.reboot(r, "new binary", 0)
}

// nobodyLeft tells that the updates leave no validator, and that nobody could be one: the end of the chain, by its own decisions.
func (s *Sim) nobodyLeft(set *tmtypes.ValidatorSet, us []*tmtypes.Validator) bool {
	left := map[string]bool{}
	for _, v := range set.Validators {
		left[v.Address.String()] = true
	}
	for _, u := range us {
		if u.VotingPower == 0 {
			delete(left, u.Address.String())
		} else {
			left[u.Address.String()] = true
		}
	}
	if len(left) > 0 {
		return false
	}
	for _, x := range s.cur.A {
		if x.Node.active() {
			return false
		}
	}
	return true
}

// finish lets everybody who is behind catch up: after the last fault, all nodes agree.
func (s *Sim) finish() {
	if s.stop || s.cur == nil {
		return
	}
	if s.freshStep(true); s.stop {
		return
	}
	for _, r := range s.reps[1:] {
		r.lagFor, r.downFor = 0, 0
		if r.down && !s.boot(r) {
			return
		}
		s.catchUp(r, nil)
		if s.stop {
			return
		}
		if r.height != s.curH {
			s.report([]string{"C02", "C24"}, "left-behind", fmt.Sprintf("replica %d is at height %d, not at %d, after everything was repaired", r.id, r.height, s.curH))
			return
		}
		if st := snapshot(r.app, r.app.NewContext(true, s.hdr), s.uni); true {
			st.G = s.cur.G
			for _, d := range diffStates(s, s.cur, st) {
				s.diverged(r, "the final state", d.msg)
			}
		}
	}
}

// exportImport exports the state and lets everybody start a new chain from it.
func (s *Sim) exportImport() {
	w := s.reps[0]
	s.call = fmt.Sprintf("export at %d", s.curH)
	var state json.RawMessage
	var height int64
	var err error
	o := guard(func() {
		e, e2 := w.app.ExportAppStateAndValidators(false, nil)
		state, height, err = e.AppState, e.Height, e2
	})
	if o.panik != "" || err != nil {
		s.report([]string{"C23"}, "export", fmt.Sprintf("export fails: %v %s\n%s", err, o.panik, o.stack))
		return
	}
	if s.cur.Plan != "" && os.Getenv("VERIF_PLAN_EXPORT") == "" {
		s.st.Crossings["export with an upgrade pending"]++
	}
	if height != s.curH+1 {
		s.report([]string{"C23"}, "export-height", fmt.Sprintf("the export of height %d says that the new chain starts at %d", s.curH, height))
	}
	if c, e := w.app.ExportAppStateAndValidators(false, nil); e != nil || !bytes.Equal(c.AppState, state) {
		s.report([]string{"C23", "C01"}, "export-twice", "two exports of the same state differ")
	}
	s.call = fmt.Sprintf("validation of the export of %d", s.curH)
	var gs app.GenesisState
	if err := json.Unmarshal(state, &gs); err != nil {
		s.report([]string{"C23"}, "export-json", err.Error())
		return
	}
	o = guard(func() { err = app.ModuleBasics.ValidateGenesis(encCfg.Marshaler, encCfg.TxConfig, gs) })
	if o.panik != "" || err != nil {
		s.report([]string{"C23"}, "invalid-export:"+logSig(fmt.Sprint(err, o.panik)), fmt.Sprintf("the export is not valid: %v %s\n%s", err, o.panik, o.stack))
		return
	}
	s.st.Exports++
	old := s.cur
	// the new chain
	s.call = fmt.Sprintf("import of %d", s.curH)
	s.gsRaw, s.base, s.t0 = state, s.curH, s.hdr.Time
	s.log, s.com = nil, map[int64]*State{}
	vals := s.vals
	s.vals = map[int64]*tmtypes.ValidatorSet{}
	for _, r := range s.reps {
		r.db = newSimDB()
		bins := r.newBin
		if o := r.start(); o.crash != "" || o.panik != "" {
			s.report([]string{"C23"}, "import-start", o.panik)
			s.stop = true
			return
		}
		r.newBin, r.height, r.lagFor, r.down, r.downFor, r.restarted, r.early = bins, s.base, 0, false, 0, false, ""
		if err := s.initChain(r); err != nil {
			s.report([]string{"C23", "C24"}, "import", "the export cannot be imported: "+err.Error())
			s.stop = true
			return
		}
	}
	_ = vals
	s.hdr = tmproto.Header{ChainID: chainID, Height: s.curH, Time: s.hdr.Time}
	now := s.snap()
	now.G = old.G
	lost := old.clone()
	s.exportLoss(lost, now)
	for _, d := range diffStates(s, lost, now) {
		s.report([]string{"C23"}, "import:"+d.sig, "after export and import: "+d.msg)
	}
	s.cur = now
	s.m.init(s, now)
	// cosmos-sdk does not export which upgrades were applied: their names must not be used again (DESIGN.md)
	for n := range old.G.Done {
		delete(s.upSet, n)
	}
	now.G.Done = map[string]bool{}
	s.checkState(now)
	s.checkIndexes(now)
}

// exportLoss removes what an export is not meant to carry over.
func (s *Sim) exportLoss(old, now *State) {
	old.Plan, old.PlanTime = now.Plan, now.PlanTime // cosmos-sdk does not export a pending upgrade
	// The import chooses validators from scratch, with the exported scores and queue.
	pre := now.clone()
	pre.Lottery = old.Lottery
	for a, x := range pre.A {
		if y := old.A[a]; x.Node != nil && y.Node != nil {
			x.Node.LastPower, x.Node.LastPubKey, x.Node.LotteryNo = 0, "", y.Node.LotteryNo
		}
	}
	s.also = []string{"C23"}
	s.checkSelection(pre, now)
	s.also = nil
	old.Lottery = now.Lottery
	for a, x := range old.A {
		if y := now.A[a]; x.Node != nil && y.Node != nil {
			x.Node.LastPower, x.Node.LastPubKey, x.Node.LotteryNo = y.Node.LastPower, y.Node.LastPubKey, y.Node.LotteryNo
		}
	}
	for a, x := range old.A {
		// The score of a node that is off means nothing, it is calculated anew when the node is switched on.
		if y := now.A[a]; x.Node != nil && y.Node != nil && !x.Node.On && !y.Node.On {
			x.Node.Score = y.Node.Score
		}
	}
}

var knownSeen = map[string]int{}

type known struct{ prop, sig, what string }

var knowns []known

// loadKnown reads the list of recorded findings.
func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "sig=") {
			knowns = append(knowns, known{f[0], strings.ReplaceAll(strings.TrimPrefix(f[1], "sig="), "_", " "), f[2]})
		}
	}
}

func isKnown(props []string, sig string) bool {
	for _, k := range knowns {
		if strings.ReplaceAll(sig, "_", " ") == k.sig && has(props, k.prop) {
			return true
		}
	}
	return false
}
