package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
	abci "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/arterynetwork/artr/app"
)

type blockLog struct {
	begin abci.RequestBeginBlock
	txs   [][]byte
	rb    abci.ResponseBeginBlock
	rd    []abci.ResponseDeliverTx
	re    abci.ResponseEndBlock
	hash  []byte
	plan  string // upgrade plan before the block
	due   bool   // it is due in this block
}

type Stats struct {
	Blocks, Txs, TxOK, Msgs int64
	SimNs                   int64
	Faults                  map[string]int64
	Ops                     map[string]int64 // executed operations "op/ok", "op/fail", "task/..."
	Crossings               map[string]int64 // situations reached
	States                  map[string]bool  // distinct abstract states
	Restarts, Replayed      int64
	Snapshots, Compared     int64
	Exports                 int64
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Ops: map[string]int64{}, Crossings: map[string]int64{}, States: map[string]bool{}}
}

// Sim is one simulated world in execution.
type Sim struct {
	spec  Spec
	tr    Trace
	gen   *Gen // nil when replaying
	reps  []*Replica
	gsRaw []byte
	initR abci.ResponseInitChain
	log   []*blockLog
	vals  map[int64]*tmtypes.ValidatorSet
	uni   []string
	idx   map[string]int
	bytes map[int][]byte // transaction bytes by id
	cur   *State
	curH  int64
	curT  int64
	hdr   tmproto.Header
	viol  []Violation
	seen  map[string]bool
	want  string // the property whose violations end the run ("" = any)
	stop  bool
	st    *Stats
	m     *Ghost
	upSet map[string]bool // upgrades the new binary knows
	nicks map[string]bool // nicknames ever used
	base  int64           // the height before the first block of the present chain
	t0    time.Time       // genesis time of the present chain
	call  string
	fresh []*freshJob
	com   map[int64]*State // the last committed states
	also  []string         // properties that whatever is found now concerns as well
}

func (s *Sim) acct(i int) string {
	switch {
	case i < 0:
		return ""
	case i >= 900:
		return moduleAddr(moduleNames[(i-900)%len(moduleNames)])
	}
	return addrOf(i)
}

func (s *Sim) name(addr string) string {
	if i, ok := s.idx[addr]; ok {
		if i >= 900 {
			return moduleNames[i-900]
		}
		return fmt.Sprintf("#%d", i)
	}
	return addr
}

func (s *Sim) report(props []string, sig, msg string) {
	props = append(append([]string{}, props...), s.also...)
	sort.Strings(props)
	var u []string
	for i, p := range props {
		if i == 0 || props[i-1] != p {
			u = append(u, p)
		}
	}
	key := strings.Join(u, ",") + "|" + sig
	if s.seen[key] {
		return
	}
	s.seen[key] = true
	for a, i := range s.idx {
		if strings.Contains(msg, a) {
			msg = strings.ReplaceAll(msg, a, s.name(a))
		}
		_ = i
	}
	if isKnown(u, sig) {
		knownSeen[sig]++
		return
	}
	s.viol = append(s.viol, Violation{Props: u, Sig: sig, Msg: msg, Block: len(s.tr.Blocks) - 1, Call: s.call})
	if s.want == "" || has(u, s.want) {
		s.stop = true
	}
}

func newSim(spec Spec, want string) (*Sim, error) {
	s := &Sim{spec: spec, tr: Trace{Spec: spec}, vals: map[int64]*tmtypes.ValidatorSet{}, idx: map[string]int{}, bytes: map[int][]byte{},
		seen: map[string]bool{}, want: want, st: newStats(), upSet: map[string]bool{}, nicks: map[string]bool{}, t0: genTime, com: map[int64]*State{}}
	for i := 0; i < spec.N+spec.Fresh; i++ {
		s.uni = append(s.uni, addrOf(i))
		s.idx[addrOf(i)] = i
	}
	for i, n := range moduleNames {
		s.uni = append(s.uni, moduleAddr(n))
		s.idx[moduleAddr(n)] = 900 + i
	}
	s.journal("spec", spec)
	raw, err := buildGenesis(spec)
	if err != nil {
		return nil, err
	}
	s.gsRaw = raw
	s.curT = genTime.UnixNano()
	for i, rs := range spec.Reps {
		r := &Replica{id: i, db: newSimDB(), pruning: rs.Pruning, minGas: rs.MinGas, cache: rs.Cache, newBin: map[string]bool{}}
		s.reps = append(s.reps, r)
		if o := r.start(); o.crash != "" || o.panik != "" {
			return nil, fmt.Errorf("replica %d does not start: %v", i, o)
		}
		if err := s.initChain(r); err != nil {
			return nil, err
		}
	}
	s.m = newGhost()
	return s, nil
}

func (s *Sim) initReq() abci.RequestInitChain {
	return abci.RequestInitChain{Time: s.t0, ChainId: chainID, AppStateBytes: s.gsRaw, InitialHeight: s.base + 1,
		ConsensusParams: &abci.ConsensusParams{
			Block:     &abci.BlockParams{MaxBytes: 22020096, MaxGas: -1},
			Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 100000, MaxAgeDuration: 172800000000000, MaxBytes: 1048576},
			Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{tmtypes.ABCIPubKeyTypeEd25519}},
		}}
}

func (s *Sim) initChain(r *Replica) error {
	var res abci.ResponseInitChain
	o := guard(func() { res = r.app.InitChain(s.initReq()) })
	if o.panik != "" {
		return fmt.Errorf("InitChain panics: %s\n%s", o.panik, o.stack)
	}
	if r.id == 0 {
		s.initR = res
		vs, err := tmtypes.PB2TM.ValidatorUpdates(res.Validators)
		if err != nil {
			return err
		}
		set := tmtypes.NewValidatorSet(vs)
		s.vals[s.base+1], s.vals[s.base+2] = set.Copy(), set.Copy()
	} else if a, b := mustJSON(sortedVals(s.initR)), mustJSON(sortedVals(res)); a != b {
		s.call = "InitChain"
		s.report([]string{"C01"}, "initchain", fmt.Sprintf("replica %d answers InitChain with %s, the witness with %s", r.id, b, a))
	}
	return nil
}

// Tendermint sorts the initial validators itself, their order does not matter.
func sortedVals(r abci.ResponseInitChain) abci.ResponseInitChain {
	vs := append([]abci.ValidatorUpdate{}, r.Validators...)
	sort.Slice(vs, func(i, j int) bool { return vs[i].PubKey.String() < vs[j].PubKey.String() })
	r.Validators = vs
	return r
}

func mustJSON(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// block is the log of a block of the present chain.
func (s *Sim) block(h int64) *blockLog { return s.log[h-s.base-1] }

func (s *Sim) header(h int64, t int64, proposer []byte) tmproto.Header {
	var ah []byte
	if h > s.base+1 {
		ah = s.block(h - 1).hash
	}
	return tmproto.Header{ChainID: chainID, Height: h, Time: time.Unix(0, t).UTC(), ProposerAddress: proposer, AppHash: ah,
		NextValidatorsHash: s.vals[h+1].Hash(), ValidatorsHash: s.vals[h].Hash()}
}

func (s *Sim) snap() *State {
	s.st.Snapshots++
	return snapshot(s.reps[0].app, s.reps[0].app.NewContext(false, s.hdr), s.uni)
}

// beginReq makes the consensus part of a block out of a plan.
func (s *Sim) beginReq(b *Block) abci.RequestBeginBlock {
	h := s.curH + 1
	vs := s.vals[h]
	prop := vs.Validators[mod(b.Prop, len(vs.Validators))]
	req := abci.RequestBeginBlock{Hash: []byte(fmt.Sprintf("block%d", h)), Header: s.header(h, s.curT+b.Dt, prop.Address)}
	if h > s.base+1 {
		prev := s.vals[h-1]
		miss := map[int]bool{}
		for _, i := range b.Miss {
			miss[mod(i, len(prev.Validators))] = true
		}
		for i, v := range prev.Validators {
			req.LastCommitInfo.Votes = append(req.LastCommitInfo.Votes, abci.VoteInfo{
				Validator: abci.Validator{Address: v.Address, Power: v.VotingPower}, SignedLastBlock: !miss[i]})
		}
	}
	for _, e := range b.Ev {
		eh := h - 1 - e.Age
		if eh < s.base+1 {
			eh = s.base + 1
		}
		set := s.vals[eh]
		if set == nil || len(set.Validators) == 0 {
			continue
		}
		v := set.Validators[mod(e.Pos, len(set.Validators))]
		et := s.t0
		if eh < h && eh > s.base {
			et = s.block(eh).begin.Header.Time
		}
		req.ByzantineValidators = append(req.ByzantineValidators, abci.Evidence{Type: abci.EvidenceType_DUPLICATE_VOTE, Height: eh, Time: et,
			Validator: abci.Validator{Address: v.Address, Power: v.VotingPower}, TotalVotingPower: set.TotalVotingPower()})
	}
	return req
}

func mod(a, n int) int { return ((a % n) + n) % n }

// txBytesOf makes the bytes of a transaction from its plan, against the state it is about to be executed in.
func (s *Sim) txBytesOf(t *Tx) []byte {
	if t.Raw != nil {
		return t.Raw
	}
	if t.Resend != 0 {
		if b := s.bytes[t.Resend]; b != nil {
			return b
		}
		return []byte("nothing")
	}
	var msgs []sdk.Msg
	var signers []int
	var nums, seqs []uint64
	for _, m := range t.Msgs {
		msgs = append(msgs, m.build(s.acct))
		if a := m.signerOf(); !hasInt(signers, a) {
			signers = append(signers, a)
			x := s.cur.A[s.acct(a)]
			if x == nil {
				x = &Acct{}
			}
			nums = append(nums, x.Num)
			seqs = append(seqs, uint64(int64(x.Seq)+int64(t.SeqOff)))
		}
	}
	b, err := signTx(encCfg.TxConfig, *t, msgs, signers, nums, seqs, chainID)
	if err != nil {
		return []byte("unsignable: " + err.Error())
	}
	return b
}

func hasInt(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (s *Sim) panicked(o outcome) {
	props := []string{"C24"}
	st := o.stack
	// keep the frames below the panic
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	top := ""
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t/repo/") && !strings.Contains(l, "/verifsim/") {
			top = strings.TrimSpace(strings.SplitN(l, " +0x", 2)[0])
			break
		}
	}
	for _, x := range [][2]string{{"/x/noding/", "C14,C15,C16"}, {"/x/schedule/", "C06"}, {"/x/delegating/", "C07,C08"}, {"/x/referral/", "C10,C11,C12"},
		{"/x/profile/", "C20,C21"}, {"/x/voting/", "C18,C19"}, {"x/bank/", "C17"}} {
		if strings.Contains(st, x[0]) {
			props = append(props, strings.Split(x[1], ",")...)
		}
	}
	s.report(props, "panic:"+top, fmt.Sprintf("%s panics: %s\n%s", s.call, o.panik, o.stack))
	s.stop = true
}

// step executes one block of the plan on the witness and then on every other replica.
func (s *Sim) step(b *Block) {
	if len(s.vals[s.curH+1].Validators) == 0 {
		s.stop = true
		return
	}
	w := s.reps[0]
	s.tr.Blocks = append(s.tr.Blocks, Block{Dt: b.Dt, Prop: b.Prop, Miss: b.Miss, Ev: b.Ev, F: b.F, Export: b.Export, Swap: b.Swap})
	rec := &s.tr.Blocks[len(s.tr.Blocks)-1]
	s.journal("block", rec)
	req := s.beginReq(b)
	h := req.Header.Height
	s.hdr = req.Header
	bl := &blockLog{begin: req}
	if s.cur != nil && s.cur.Plan != "" {
		bl.plan = strings.SplitN(s.cur.Plan, "|", 2)[0]
		bl.due = s.curT+b.Dt >= s.cur.PlanTime
	}
	s.log = append(s.log, bl)
	s.st.Blocks++
	s.st.SimNs += b.Dt

	var pre *State
	if s.cur == nil {
		// the state right after genesis; BeginBlock of the first block continues it
		hdr := s.hdr
		s.hdr = tmproto.Header{ChainID: chainID, Height: 0, Time: genTime}
		pre = s.snap()
		s.hdr = hdr
		s.cur = pre
		s.call = "InitChain"
		s.checkState(pre)
		s.m.init(s, pre)
	} else {
		pre = s.cur
	}

	// --- BeginBlock
	s.call = fmt.Sprintf("BeginBlock(%d)", h)
	pred := s.predictBegin(pre, req)
	o := guard(func() { bl.rb = w.app.BeginBlock(req) })
	if o.panik != "" && strings.Contains(o.panik, "UPGRADE \"") && strings.Contains(o.panik, "NEEDED") {
		s.st.Crossings["upgrade halt"]++
		if pred.halt == "" {
			s.report([]string{"C25", "C24"}, "early-halt", "the node halts for an upgrade although no plan is due: "+o.panik)
			s.stop = true
			return
		}
		if !s.witnessUpgrade(pred.halt, req, bl) {
			return
		}
	} else if o.panik != "" {
		s.panicked(o)
		return
	} else if pred.halt != "" {
		s.report([]string{"C25"}, "no-halt", fmt.Sprintf("the plan %q is due but a node that does not know it goes on", pred.halt))
	}
	post := s.snap()
	s.compareBegin(pre, pred, post)
	s.cur = post
	if s.stop {
		return
	}

	// --- transactions
	n := 0
	for {
		var t *Tx
		if s.gen != nil {
			t = s.gen.nextTx(n)
		} else if n < len(b.Txs) {
			t = &b.Txs[n]
		}
		if t == nil {
			break
		}
		n++
		rec.Txs = append(rec.Txs, *t)
		s.journal("tx", t)
		s.execTx(t, bl)
		if s.stop {
			return
		}
	}

	// --- EndBlock
	s.call = fmt.Sprintf("EndBlock(%d)", h)
	pre = s.cur
	o = guard(func() { bl.re = w.app.EndBlock(abci.RequestEndBlock{Height: h}) })
	if o.panik != "" {
		s.panicked(o)
		return
	}
	post = s.snap()
	s.compareEnd(pre, post, bl.re)
	s.checkIndexes(post)
	s.cur = post
	s.applyUpdates(h, bl.re)
	if s.stop {
		return
	}

	// --- Commit
	s.call = fmt.Sprintf("Commit(%d)", h)
	o = guard(func() { bl.hash = w.app.Commit().Data })
	if o.panik != "" {
		s.panicked(o)
		return
	}
	w.height = h
	s.curH = h
	s.curT += b.Dt
	s.com[h] = s.cur
	delete(s.com, h-12)
	// what was committed is what was executed
	com := snapshot(w.app, w.app.NewContext(true, s.hdr), s.uni)
	com.G = s.cur.G
	if d := diffStates(s, s.cur, com); len(d) > 0 {
		s.report([]string{"C02"}, "commit-differs", "the committed state differs from the executed one: "+d[0].msg)
	}
	s.st.States[s.abstractState()] = true

	// --- the other replicas
	s.freshStep(false)
	for _, r := range s.reps[1:] {
		s.follow(r, b)
		if s.stop {
			return
		}
		for _, f := range b.F {
			if f.Kind == "fresh" && f.R == r.id {
				s.freshAt(r, f)
			}
		}
		if s.stop {
			return
		}
	}
	if b.Export {
		s.freshStep(true)
	}
	if s.stop {
		return
	}
	if b.Export {
		s.exportImport()
	}
}

func (s *Sim) execTx(t *Tx, bl *blockLog) {
	w := s.reps[0]
	raw := s.txBytesOf(t)
	if t.ID != 0 && t.Resend == 0 && t.Raw == nil {
		s.bytes[t.ID] = raw
	}
	bl.txs = append(bl.txs, raw)
	s.call = fmt.Sprintf("DeliverTx(%d/%d)", bl.begin.Header.Height, len(bl.txs)-1)
	pre := s.cur
	pred := s.predictTx(pre, t, raw)
	var res abci.ResponseDeliverTx
	o := guard(func() { res = w.app.DeliverTx(abci.RequestDeliverTx{Tx: raw}) })
	if o.panik != "" {
		s.panicked(o)
		return
	}
	bl.rd = append(bl.rd, res)
	s.st.Txs++
	if res.Code == 0 {
		s.st.TxOK++
	}
	for _, m := range t.Msgs {
		s.st.Msgs++
		k := m.Op
		if m.Op == "propose" {
			k = fmt.Sprintf("propose%d", m.D)
		}
		if traceOps != "" && strings.Contains(","+traceOps+",", ","+m.Op+",") {
			fmt.Fprintf(os.Stderr, "op h%d t%d %s code %d\n", s.hdr.Height, s.hdr.Time.UnixNano(), mustJSON(m), res.Code)
		}
		if res.Code == 0 {
			s.st.Ops[k+"/ok"]++
		} else {
			s.st.Ops[k+"/fail"]++
		}
	}
	post := s.snap()
	s.compareTx(pre, t, pred, res, post)
	s.cur = post
}

// traceOps lists the operations to print while running (for development)
var traceOps = os.Getenv("VERIF_TRACE")

// applyUpdates is what Tendermint does with the validator updates of a block.
func (s *Sim) applyUpdates(h int64, re abci.ResponseEndBlock) {
	next := s.vals[h+1].Copy()
	bad := func(sig, msg string) {
		s.report([]string{"C14"}, sig, msg+fmt.Sprintf("; updates %s, current set %s", mustJSON(re.ValidatorUpdates), s.vals[h+1]))
		s.stop = true
	}
	for _, u := range re.ValidatorUpdates {
		if u.Power < 0 {
			bad("negative-power", "negative voting power")
			return
		}
		if u.Power > 0 && u.PubKey.GetEd25519() == nil {
			bad("key-type", "unacceptable key type")
			return
		}
	}
	vs, err := tmtypes.PB2TM.ValidatorUpdates(re.ValidatorUpdates)
	if err != nil {
		bad("bad-key", "undecodable validator update: "+err.Error())
		return
	}
	if len(vs) > 0 {
		if s.nobodyLeft(next, vs) {
			s.st.Crossings["chain out of validators"]++
			s.stop = true
			return
		}
		o := guard(func() { err = next.UpdateWithChangeSet(vs) })
		if o.panik != "" {
			err = fmt.Errorf("panic: %s", o.panik)
		}
		if err != nil {
			bad("rejected-update", "the consensus engine rejects the validator updates: "+err.Error())
			return
		}
		s.st.Crossings["valset change"]++
	}
	next.IncrementProposerPriority(1)
	s.vals[h+2] = next
	delete(s.vals, h-60)
	s.checkValset(next)
}

// --- replicas other than the witness

func respDiff(a, b interface{}) string {
	x, y := mustJSON(a), mustJSON(b)
	if x == y {
		return ""
	}
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	lo := i - 200
	if lo < 0 {
		lo = 0
	}
	cut := func(z string) string {
		hi := i + 200
		if hi > len(z) {
			hi = len(z)
		}
		return z[lo:hi]
	}
	return fmt.Sprintf("witness ...%s... replica ...%s...", cut(x), cut(y))
}

func normDeliver(r abci.ResponseDeliverTx) abci.ResponseDeliverTx {
	if r.Codespace == sdkerrors.ErrPanic.Codespace() && r.Code == sdkerrors.ErrPanic.ABCICode() {
		r.Log = "" // holds a stack trace with addresses; not part of consensus
	}
	r.Info = ""
	return r
}

func (s *Sim) diverged(r *Replica, what, d string) {
	props := []string{"C01"}
	if r.restarted {
		props = append(props, "C02")
	}
	s.report(props, "diverged:"+what, fmt.Sprintf("replica %d (pruning %s, cache %v, restarted %v) differs from the witness in %s at height %d: %s", r.id, r.pruning, r.cache, r.restarted, what, r.height+1, d))
}

// follow lets a replica take part in the block that the witness has just committed.
func (s *Sim) follow(r *Replica, b *Block) {
	var mine []Fault
	for _, f := range b.F {
		if f.R == r.id {
			mine = append(mine, f)
		}
	}
	for _, i := range b.Swap {
		if i == r.id {
			s.swapBinary(r)
		}
	}
	for _, f := range mine {
		switch f.Kind {
		case "lag":
			r.lagFor = int(f.N)
			s.st.Faults["lag"]++
		case "restart":
			if !r.down {
				s.st.Faults["restart"]++
				s.reboot(r, "clean restart", 0)
			}
		}
	}
	if r.lagFor > 0 {
		r.lagFor--
		return
	}
	if r.down {
		if r.downFor > 0 {
			r.downFor--
			return
		}
		if !s.boot(r) {
			return
		}
	}
	s.catchUp(r, mine)
}

func (s *Sim) catchUp(r *Replica, faults []Fault) {
	for tries := 0; !s.stop && r.height < s.curH; tries++ {
		last := r.height+1 == s.curH
		var fs []Fault
		if last {
			fs = faults
		} else {
			s.st.Replayed++
		}
		ok := s.execOn(r, s.block(r.height+1), fs)
		if ok || s.stop {
			continue
		}
		if r.upgraded {
			r.upgraded = false
			continue
		}
		// the process died: the used up fault is gone, the others may still strike
		for i, f := range faults {
			if f.kills() {
				faults = append(append([]Fault{}, faults[:i]...), faults[i+1:]...)
				if f.Down > 0 {
					r.downFor = f.Down - 1
					return
				}
				break
			}
		}
		if !s.boot(r) {
			return
		}
	}
}

// boot starts the process of a replica on its disk and checks what it claims to be.
func (s *Sim) boot(r *Replica) bool {
	before := r.height
	commitMayCount := r.inCommit
	r.inCommit = false
	s.call = fmt.Sprintf("restart of replica %d", r.id)
	o := r.start()
	s.st.Restarts++
	r.restarted = true
	if o.panik != "" || o.crash != "" {
		s.report([]string{"C02", "C24"}, "no-restart", fmt.Sprintf("replica %d does not start after a crash: %s%s\n%s", r.id, o.panik, o.crash, o.stack))
		s.stop = true
		return false
	}
	info := r.app.Info(abci.RequestInfo{})
	max := before
	if commitMayCount {
		max++
	}
	if info.LastBlockHeight > max || info.LastBlockHeight > s.base+int64(len(s.log)) {
		s.report([]string{"C02"}, "future-height", fmt.Sprintf("replica %d reports height %d after a crash at height %d", r.id, info.LastBlockHeight, before))
		s.stop = true
		return false
	}
	if info.LastBlockHeight > 0 && !bytes.Equal(info.LastBlockAppHash, s.block(info.LastBlockHeight).hash) {
		s.report([]string{"C02"}, "restart-hash", fmt.Sprintf("replica %d restarts at height %d with a state hash that was never committed", r.id, info.LastBlockHeight))
		s.stop = true
		return false
	}
	if info.LastBlockHeight < before {
		s.st.Crossings["restart with committed blocks lost to power failure"]++
	}
	r.height = info.LastBlockHeight
	if r.height == 0 {
		// No block of this node was ever committed: the operator starts over with an empty disk, whatever the
		// interrupted first commit left on it.
		r.db = newSimDB()
		if o := r.start(); o.panik != "" || o.crash != "" {
			s.report([]string{"C02", "C24"}, "no-restart", fmt.Sprintf("replica %d does not start: %s%s", r.id, o.panik, o.crash))
			s.stop = true
			return false
		}
		r.height = s.base
		if err := s.initChain(r); err != nil {
			s.report([]string{"C02"}, "reinit", err.Error())
			s.stop = true
			return false
		}
	}
	return true
}

func (s *Sim) reboot(r *Replica, why string, lose int) bool {
	s.kill(r, lose)
	return s.boot(r)
}

func (s *Sim) kill(r *Replica, lose int) {
	r.db.dead = true
	r.app = nil
	r.down = true
	if lose > 0 {
		n := lose
		if n > r.db.Unsynced() {
			n = r.db.Unsynced()
		}
		r.db.PowerLoss(n)
		s.st.Faults["power loss (mutations dropped)"] += int64(n)
	}
}

// execOn executes a logged block on a replica under faults; false means that the process is not running any more.
func (s *Sim) execOn(r *Replica, bl *blockLog, faults []Fault) bool {
	h := bl.begin.Header.Height
	calls := len(bl.txs) + 4
	var death *Fault
	for i := range faults {
		if faults[i].kills() {
			death = &faults[i]
			break
		}
	}
	r.db.full = false
	if death != nil {
		switch death.Kind {
		case "wbefore":
			r.db.killAtW = r.db.wops + death.N
		case "wafter":
			r.db.killAfterW = r.db.wops + death.N
		case "rerr":
			r.db.failAtR = death.N
		case "full":
			r.db.full = true
		}
	}
	die := func(why string) bool {
		s.st.Faults[why]++
		lose := 0
		if death != nil {
			lose = death.Lose
		}
		s.kill(r, lose)
		return false
	}
	for c := 0; c < calls; c++ {
		for _, f := range faults {
			if mod(f.At, calls) != c {
				continue
			}
			switch f.Kind {
			case "check", "recheck", "sim", "query":
				o := guard(func() { s.noise(r, bl, f) })
				s.st.Faults[f.Kind]++
				if o.crash != "" {
					return die(o.crash)
				}
				if r.db.dead {
					return die("rerr")
				}
				if o.panik != "" {
					s.call = "noise " + f.Kind
					s.panicked(o)
					return false
				}
			}
		}
		if death != nil && death.Kind == "stop" && mod(death.At, calls) == c {
			if c == calls-1 {
				r.height = h
			}
			return die("stop")
		}
		if c == calls-1 {
			break
		}
		s.call = fmt.Sprintf("replica %d height %d call %d", r.id, h, c)
		var d, what string
		r.inCommit = c == calls-2
		o := guard(func() {
			switch {
			case c == 0:
				what = "BeginBlock"
				d = respDiff(bl.rb, r.app.BeginBlock(bl.begin))
			case c <= len(bl.txs):
				what = "DeliverTx"
				d = respDiff(normDeliver(bl.rd[c-1]), normDeliver(r.app.DeliverTx(abci.RequestDeliverTx{Tx: bl.txs[c-1]})))
			case c == calls-3:
				what = "EndBlock"
				d = respDiff(bl.re, r.app.EndBlock(abci.RequestEndBlock{Height: h}))
			default:
				what = "Commit"
				if x := r.app.Commit().Data; !bytes.Equal(x, bl.hash) {
					d = fmt.Sprintf("state hash %X instead of %X", x, bl.hash)
				}
			}
		})
		if o.crash != "" {
			return die(o.crash)
		}
		if r.db.dead { // the code took the disk fault for a failure of what it was doing: the operator stops the node
			return die("rerr")
		}
		if o.panik != "" {
			if strings.Contains(o.panik, "UPGRADE \"") && strings.Contains(o.panik, "NEEDED") && c == 0 {
				s.upgradeHalt(r, bl, o.panik)
				return false
			}
			// (also a node that is thrown back behind the upgrade by a power loss has to go on with the old binary first)
			if c == 0 && strings.Contains(o.panik, "BINARY UPDATED BEFORE TRIGGER") && (r.early != "" || bl.plan != "" && !bl.due && r.newBin[bl.plan]) {
				s.st.Crossings["new binary refused before its time"]++
				delete(r.newBin, bl.plan)
				delete(r.newBin, r.early)
				r.early = ""
				r.upgraded = true
				s.reboot(r, "old binary again", 0)
				return false
			}
			s.panicked(o)
			return false
		}
		s.st.Compared++
		if c == 0 && r.early != "" {
			if bl.plan == r.early && !bl.due {
				s.report([]string{"C25"}, "early-binary", fmt.Sprintf("the new binary goes on at height %d although the upgrade %q is not due yet", h, r.early))
			}
			r.early = ""
		}
		if d != "" {
			s.diverged(r, what, d)
			s.stop = s.stop || what == "Commit"
			if s.stop {
				return false
			}
		}
	}
	r.inCommit, r.fresh = false, false
	r.height = h
	// faults armed for this block but not reached are void
	r.db.killAtW, r.db.killAfterW, r.db.failAtR, r.db.full = 0, 0, 0, false
	if len(r.db.undo) > 400 {
		r.db.undo = append([][]undoRec{}, r.db.undo[len(r.db.undo)-400:]...)
	}
	return true
}

// noise is the traffic a node sees besides the blocks.
func (s *Sim) noise(r *Replica, bl *blockLog, f Fault) {
	var tx []byte
	if len(bl.txs) > 0 {
		tx = bl.txs[mod(int(f.N), len(bl.txs))]
	}
	switch f.Kind {
	case "check":
		if tx != nil {
			r.app.CheckTx(abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_New})
		}
	case "recheck":
		if tx != nil {
			r.app.CheckTx(abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_Recheck})
		}
	case "sim":
		if tx != nil {
			r.app.Query(abci.RequestQuery{Path: "/app/simulate", Data: tx})
		}
	case "query":
		if r.height > s.base {
			s.query(r, f.N)
		}
	}
}

// abstractState is the coarse state whose distinct values are counted.
func (s *Sim) abstractState() string {
	hash := sha256.New()
	c := s.cur
	kinds := map[string]int{}
	for _, t := range c.Tasks {
		kinds[t.H]++
	}
	for _, k := range sortedIntKeys(kinds) {
		fmt.Fprintf(hash, "%s%d", k, log2(kinds[k]))
	}
	var st [12]int
	var act, jailed, on, banned, trans, revs, ban int
	for _, a := range c.A {
		if a.Ref != nil {
			st[a.Ref.Status]++
			if a.Ref.Active {
				act++
			}
			if a.Ref.Banished {
				banned++
			}
			if a.Ref.Transition != "" {
				trans++
			}
		}
		if a.Node != nil {
			if a.Node.Jailed {
				jailed++
			}
			if a.Node.On {
				on++
			}
			if a.Node.Banned {
				ban++
			}
		}
		if a.Del != nil {
			revs += len(a.Del.Reqs)
		}
	}
	for _, x := range st {
		fmt.Fprintf(hash, ".%d", log2(x))
	}
	fmt.Fprint(hash, log2(act), jailed, on, banned, trans, log2(revs), ban, len(c.Gov), c.Prop != nil, c.Poll != nil, len(c.Answers), c.Plan != "", len(s.vals[s.curH+1].Validators))
	return hex.EncodeToString(hash.Sum(nil)[:8])
}

func log2(n int) int {
	r := 0
	for n > 0 {
		n >>= 1
		r++
	}
	return r
}

func sortedIntKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = app.NewEncodingConfig

// journal keeps what was decided so far outside this process, in case it does not survive.
func (s *Sim) journal(kind string, x interface{}) {
	if journalFile == nil {
		return
	}
	fmt.Fprintf(journalFile, "%s %s\n", kind, mustJSON(x))
}
