package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/arterynetwork/artr/util"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// Gen makes the decisions of one run. It looks at the present state only to aim well.
type Gen struct {
	s       *Sim
	r       *rand.Rand
	id      int
	offline map[string]int // consensus address -> blocks it will go on missing
	left    int            // transactions left in this block
	quiet   bool           // liveness tail: no faults
	names   int
	sentIDs []int
	months  int
	budget  int64 // accruals left
	weights []opW
	sumW    int
	focus   []int   // accounts that are in the story at the moment
	at      []Task  // what is due in this very block, or was just before, or is right after
	opNow   string  // the operation to be generated next, about
	must    int     // this account
	lefts   []int64 // times of tasks that seem to serve nothing any more
	leftT   []Task
	follow  []follow // what may come next
}

type opW struct {
	op string
	w  int
}

var modeOps = map[string][]opW{
	"mix": {{"send", 6}, {"burn", 1}, {"delegate", 6}, {"revoke", 4}, {"xrevoke", 3}, {"earn", 2}, {"earnmulti", 1}, {"create", 3}, {"profile", 3}, {"storagecur", 1}, {"vpncur", 1}, {"rate", 1},
		{"tariff", 4}, {"buystorage", 2}, {"givestorage", 1}, {"buyvpn", 2}, {"buyim", 2}, {"giveim", 1}, {"prolongim", 1}, {"on", 2}, {"off", 1}, {"unjail", 2}, {"reqtrans", 3}, {"restrans", 4},
		{"propose", 2}, {"vote", 6}, {"poll", 1}, {"answer", 3}},
	"deleg":  {{"delegate", 10}, {"revoke", 7}, {"xrevoke", 5}, {"send", 4}, {"earn", 3}, {"earnmulti", 1}, {"tariff", 3}, {"profile", 2}, {"propose", 1}, {"vote", 3}, {"create", 1}, {"on", 1}, {"off", 1}},
	"ref":    {{"create", 5}, {"reqtrans", 6}, {"restrans", 7}, {"tariff", 4}, {"delegate", 4}, {"revoke", 3}, {"xrevoke", 2}, {"send", 4}, {"profile", 1}, {"burn", 1}, {"propose", 1}, {"vote", 2}, {"on", 1}, {"off", 1}},
	"status": {{"delegate", 8}, {"revoke", 6}, {"xrevoke", 4}, {"tariff", 4}, {"reqtrans", 2}, {"restrans", 3}, {"create", 1}, {"send", 4}, {"profile", 1}, {"on", 2}, {"off", 1}, {"unjail", 1}, {"poll", 1}, {"answer", 3}},
	"val":    {{"on", 8}, {"off", 4}, {"unjail", 7}, {"delegate", 4}, {"revoke", 3}, {"xrevoke", 2}, {"send", 3}, {"propose", 3}, {"vote", 8}, {"tariff", 1}, {"reqtrans", 1}, {"restrans", 1}, {"burn", 1}},
	"vote":   {{"propose", 6}, {"vote", 16}, {"poll", 3}, {"answer", 8}, {"send", 2}, {"delegate", 1}, {"tariff", 1}, {"rate", 1}, {"earn", 1}, {"on", 1}, {"create", 1}, {"storagecur", 1}, {"vpncur", 1}},
	"sub":    {{"tariff", 8}, {"buystorage", 4}, {"givestorage", 3}, {"buyvpn", 4}, {"buyim", 5}, {"giveim", 3}, {"prolongim", 3}, {"profile", 5}, {"storagecur", 3}, {"vpncur", 3}, {"rate", 2}, {"send", 3}, {"create", 4}, {"propose", 1}, {"vote", 3}},
	"upg":    {{"propose", 6}, {"vote", 16}, {"send", 3}, {"delegate", 2}, {"tariff", 1}, {"on", 1}},
}

// atOps: what may meet a task in the block in which it is due
var atOps = map[string][]string{
	hAccrue: {"delegate", "revoke", "xrevoke"}, hRevoke: {"revoke", "delegate", "send"}, hRefresh: {"tariff", "tariff", "buystorage", "buyvpn", "givestorage"},
	hRefreshI: {"buyim", "prolongim", "giveim"}, hComp: {"tariff", "delegate", "reqtrans", "create"}, hDown: {"delegate", "send", "tariff"},
	hBanish: {"tariff", "delegate"}, hTimeout: {"restrans", "reqtrans"}, hVote: {"propose", "vote"}, hPoll: {"poll", "answer"},
}

type follow struct {
	op     string
	a, pct int
}

func newGen(s *Sim, seed int64) *Gen {
	g := &Gen{s: s, r: rand.New(rand.NewSource(seed)), offline: map[string]int{}}
	g.weights = modeOps[s.spec.Mode]
	if g.weights == nil {
		g.weights = modeOps["mix"]
	}
	for _, w := range g.weights {
		g.sumW += w.w
	}
	return g
}

func (g *Gen) p(pct int) bool { return g.r.Intn(100) < pct }

// specFor makes the world of a seed.
func specFor(seed int64, mode string) Spec {
	r := rand.New(rand.NewSource(seed*104729 + 5))
	ask := strings.HasSuffix(mode, "?")
	mode = strings.TrimSuffix(mode, "?")
	s := Spec{Seed: seed, Mode: mode, Ask: ask, N: 6 + r.Intn(20), Fresh: 4, Blocks: 30 + r.Intn(40), Rich: r.Intn(4)}
	if uint64(seed)*2654435761%10 < 4 {
		s.Out = 1
	}
	s.Shape = pickStr(r, "rand", "rand", "chain", "star", "legs", "bin")
	s.DayNs = pickI(r, int64(24*time.Hour), int64(24*time.Hour), int64(time.Hour), int64(time.Minute)+7)
	switch mode {
	case "status":
		s.N, s.Rich = 40+r.Intn(50), 2+r.Intn(2)
		s.Shape = pickStr(r, "legs", "bin", "legs", "rand", "chain", "teams", "teams")
		s.Blocks = 25 + r.Intn(20)
		if s.Shape == "teams" {
			s.N = 32 + r.Intn(5)
			if r.Intn(3) == 0 {
				s.N, s.Rich, s.Blocks = 151+r.Intn(5), 1+r.Intn(2), 12+r.Intn(12)
			}
		}
	case "ref":
		s.N = 12 + r.Intn(25)
		s.Shape = pickStr(r, "rand", "chain", "chain", "star", "bin")
	case "val", "vote", "upg":
		s.N = 6 + r.Intn(8)
		s.Blocks = 50 + r.Intn(50)
		s.Rich = 1 + r.Intn(3)
	case "crash":
		s.Blocks = 30 + r.Intn(30)
	}
	if mode == "deleg" && r.Intn(3) == 0 {
		s.Shape, s.N = "chain", 16+r.Intn(14)
	} else if mode == "deleg" && r.Intn(3) == 0 {
		s.Shape, s.N, s.Rich, s.Blocks = "comb", 46+r.Intn(20), 3, 20+r.Intn(20)
	}
	n := 2
	switch mode {
	case "crash":
		n = 4
	case "upg", "mix":
		n = 3
	}
	for i := 0; i < n; i++ {
		rs := RepSpec{Pruning: "nothing"}
		if i > 0 {
			rs.Pruning = pickStr(r, "default", "nothing", "3,0,1", "2,5,3", "10,7,2", "0,0,10")
			rs.Cache = r.Intn(2) == 0
			if r.Intn(3) == 0 {
				rs.MinGas = "0.1uartr"
			}
		}
		s.Reps = append(s.Reps, rs)
	}
	return s
}

func (g *Gen) nextBlock(i int) *Block {
	s, r := g.s, g.r
	b := &Block{}
	day := s.spec.DayNs
	var due []int64
	if s.cur != nil {
		for _, t := range s.cur.Tasks {
			if t.T > s.curT && (len(due) == 0 || due[len(due)-1] != t.T) {
				due = append(due, t.T)
			}
		}
		if s.cur.Plan != "" && s.cur.PlanTime > s.curT {
			due = append(due, s.cur.PlanTime)
		}
		g.lefts, g.leftT = nil, nil
		g.refocus()
		switch r.Intn(6) {
		case 0, 1:
			due = g.moments(due)
		case 2:
			if len(g.lefts) > 0 {
				due = g.lefts
			}
		}
	}
	long := 12
	if s.spec.Mode == "val" || s.spec.Mode == "vote" || s.spec.Mode == "crash" {
		long = 5
	}
	switch x := r.Intn(100); {
	case x < 40:
		b.Dt = 1e9 + r.Int63n(10e9)
	case x < 45:
		b.Dt = 1 + r.Int63n(3)
	case x < 50:
		b.Dt = 3600e9*r.Int63n(30) + 1
	case x < 82 && len(due) > 0: // exactly, or a moment around, something due
		k := 0
		if r.Intn(4) == 0 {
			k = r.Intn(len(due))
		} else if r.Intn(2) == 0 {
			k = r.Intn((len(due) + 5) / 6)
		}
		if s.spec.Mode == "upg" && s.cur.Plan != "" && r.Intn(3) == 0 {
			k = len(due) - 1
		}
		b.Dt = due[k] - s.curT + pickI(r, 0, 0, 0, -1, 1, 0)
	case x < 82+long:
		b.Dt = r.Int63n(3 * day)
	case x < 83+long && g.months < 4:
		b.Dt = day * (10 + r.Int63n(60))
		g.months++
	default:
		b.Dt = 5e9
	}
	if b.Dt < 1 {
		b.Dt = 1
	}
	if b.Dt > 400*day {
		b.Dt = 400 * day
	}
	// Everybody's delegation accrues daily: bound the work of a run.
	dels := int64(1)
	if s.cur != nil {
		for _, a := range s.cur.A {
			if a.Del != nil {
				dels++
			}
		}
	} else {
		dels = int64(s.spec.N)
	}
	if g.budget == 0 {
		g.budget = 800
		switch s.spec.Mode {
		case "deleg":
			g.budget = 2000
		case "status", "ref":
			g.budget = 1200
		}
	}
	if max := (g.budget/3 + 20) * day / dels; b.Dt > max && b.Dt > 60e9 {
		b.Dt = max
	}
	g.budget -= b.Dt * dels / day
	if g.budget < 1 {
		g.budget = 1
	}
	g.at = nil
	if s.cur != nil {
		now := s.curT + b.Dt
		for _, t := range s.cur.Tasks {
			if d := t.T - now; d >= -1 && d <= 1 && len(g.at) < 8 {
				g.at = append(g.at, t)
			}
		}
	}
	h := s.curH + 1
	vs := s.vals[h]
	b.Prop = r.Intn(len(vs.Validators))
	// who misses the commit of the previous block
	if prev := s.vals[h-1]; prev != nil && h > s.base+1 {
		var total, miss int64
		for _, v := range prev.Validators {
			total += v.VotingPower
		}
		rate := 6
		switch s.spec.Mode {
		case "val":
			rate = 20
		case "deleg":
			rate = 12
		}
		for i, v := range prev.Validators {
			k := hex.EncodeToString(v.Address)
			if g.offline[k] == 0 && g.p(rate) {
				g.offline[k] = 1 + r.Intn(4)
			}
			if g.offline[k] > 0 {
				g.offline[k]--
				if 3*(miss+v.VotingPower) < total {
					miss += v.VotingPower
					b.Miss = append(b.Miss, i)
				}
			}
		}
		if ev := map[bool]int{true: 5, false: 1}[s.spec.Mode == "val"]; g.p(ev) && len(vs.Validators) > 1 {
			e := Evid{Pos: r.Intn(20), Age: int64(r.Intn(12))}
			b.Ev = append(b.Ev, e)
			if g.p(20) {
				b.Ev = append(b.Ev, Evid{Pos: r.Intn(20), Age: int64(r.Intn(3))})
			}
		}
	}
	g.left = r.Intn(6)
	if r.Intn(6) == 0 {
		g.left = 0
	}
	if r.Intn(12) == 0 {
		g.left = 12
	}
	if !g.quiet {
		g.faults(b)
	}
	ex := 1
	if s.spec.Mode == "export" {
		ex = 8
	}
	if !g.quiet && s.curH > 2 && g.p(ex) && s.spec.Mode != "crash" && s.spec.Mode != "upg" {
		b.Export = true
		if p := s.cur.Prop; p != nil && p.GetSoftwareUpgrade() != nil && s.cur.G.Done[p.GetSoftwareUpgrade().Name] {
			b.Export = false // see importing: the name must not be used again
		}
	}
	if s.spec.Mode == "upg" && !g.quiet && s.cur != nil && s.cur.Plan != "" && g.p(20) {
		b.Swap = append(b.Swap, 1+r.Intn(len(s.reps)-1))
	}
	return b
}

// moments: besides what is planned, things also expire silently
func (g *Gen) moments(due []int64) []int64 {
	s, day := g.s, g.s.spec.DayNs
	var l []int64
	add := func(t int64) {
		if t > s.curT && t < s.curT+3*day {
			l = append(l, t)
		}
	}
	for i := 0; i < s.spec.N; i++ {
		a := s.cur.A[s.acct(i)]
		if a == nil {
			continue
		}
		if a.Ref != nil && a.Ref.Transition != "" {
			if b := s.cur.A[a.Ref.Transition]; b != nil && b.Ref != nil && b.Ref.CompressionAt != 0 {
				add(b.Ref.CompressionAt - 30*day)
			}
		}
		if a.Earn != nil {
			add(a.Earn.Vpn + 2*day)
			add(a.Earn.Storage + 2*day)
		}
	}
	if len(l) == 0 {
		return due
	}
	return l
}

// refocus chooses whom the next transactions will rather be about: accounts with a moment coming soon, or a leftover one,
// validators in jail, and then anybody.
func (g *Gen) refocus() {
	s, r := g.s, g.r
	if s.cur == nil {
		return
	}
	var soon, left, jail []int
	for _, t := range s.cur.Tasks {
		i, ok := s.idx[taskAcc(t)]
		switch {
		case t.T > s.curT && !live(t, s.cur):
			g.lefts, g.leftT = append(g.lefts, t.T), append(g.leftT, t)
			if ok && i < 900 {
				left = append(left, i)
			}
		case !ok || i >= 900:
		case t.H != hAccrue && len(soon) < 6:
			soon = append(soon, i)
		}
	}
	if len(left) > 0 && g.p(50) {
		g.focus = []int{left[r.Intn(len(left))]}
		return
	}
	if len(g.focus) > 0 && !g.p(15) {
		return
	}
	g.focus = nil
	for i := 0; i < s.spec.N; i++ {
		if a := s.cur.A[s.acct(i)]; a != nil && a.Node != nil && a.Node.Jailed {
			jail = append(jail, i)
		}
	}
	for _, l := range [][]int{soon, jail} {
		if len(l) > 0 && g.p(60) {
			g.focus = append(g.focus, l[r.Intn(len(l))])
		}
	}
	for len(g.focus) < 2 {
		g.focus = append(g.focus, r.Intn(s.spec.N))
	}
}

func (g *Gen) faults(b *Block) {
	r := g.r
	kill, noise := 4, 25
	if g.s.spec.Mode == "crash" {
		kill, noise = 35, 40
	}
	if g.s.spec.Ask {
		noise = 92
	}
	if g.s.spec.Plain {
		return
	}
	for i := 1; i < len(g.s.reps); i++ {
		if g.p(kill) {
			f := Fault{R: i, Down: r.Intn(4)}
			if g.p(50) {
				f.Down = 0
			}
			switch r.Intn(7) {
			case 0, 1:
				f.Kind, f.At = "stop", r.Intn(40)
			case 2:
				f.Kind, f.N = "wbefore", 1+r.Int63n(int64(pickI(r, 4, 22)))
			case 3:
				f.Kind, f.N = "wafter", 1+r.Int63n(int64(pickI(r, 4, 22)))
			case 4:
				f.Kind, f.N = "rerr", 1+r.Int63n(400)
				if g.p(50) {
					f.N = 1 + r.Int63n(40)
				}
			case 5:
				f.Kind = "full"
			case 6:
				f.Kind = pickStr(r, "restart", "lag")
				f.N = 1 + r.Int63n(6)
			}
			if f.kills() && g.p(40) {
				f.Lose = 1 + r.Intn(4)
				if g.p(20) {
					f.Lose = 1 + r.Intn(60)
				}
			}
			if f.kills() && strings.HasPrefix(g.s.spec.Reps[i].Pruning, "0,") {
				// With nothing kept, cosmos-sdk 0.42 removes the previous version before it announces the new one:
				// such a node must not be stopped while it commits.
				f.Kind, f.Lose = "stop", 0
			}
			b.F = append(b.F, f)
		}
		for g.p(noise) {
			f := Fault{R: i, Kind: pickStr(r, "check", "recheck", "sim", "query", "query", "query"), At: r.Intn(40), N: r.Int63n(1 << 30)}
			if g.s.spec.Ask && g.p(85) {
				f.Kind = "query"
			}
			b.F = append(b.F, f)
		}
	}
	if len(g.s.reps) > 1 && g.p(3) {
		f := Fault{R: 1 + r.Intn(len(g.s.reps)-1), Kind: "fresh", N: 2 + r.Int63n(10)}
		if len(g.s.log) < 30 && g.p(30) {
			f.N = 0
		}
		b.F = append(b.F, f)
	}
}

// --- transactions

func (g *Gen) acc(f func(i int, a *Acct) bool) int {
	s := g.s
	n := s.spec.N + s.spec.Fresh
	off := g.r.Intn(n)
	var all []int
	if i := g.must; g.opNow != "" && i >= 0 {
		if a := s.cur.A[s.acct(i)]; a != nil && a.Exists && (f == nil || f(i, a)) {
			return i
		}
	}
	if len(g.focus) > 0 && g.p(25+20*len(g.lefts)) {
		i := g.focus[g.r.Intn(len(g.focus))]
		if a := s.cur.A[s.acct(i)]; a != nil && a.Exists && (f == nil || f(i, a)) {
			return i
		}
	}
	for k := 0; k < n; k++ {
		i := (off + k) % n
		a := s.cur.A[s.acct(i)]
		if a != nil && a.Exists && (f == nil || f(i, a)) {
			all = append(all, i)
			if g.p(60) {
				return i
			}
		}
	}
	if len(all) == 0 {
		return g.r.Intn(s.spec.N)
	}
	return all[g.r.Intn(len(all))]
}

// any is anybody, also accounts that do not exist and modules.
func (g *Gen) any() int {
	if g.p(4) {
		i := 900 + g.r.Intn(len(moduleNames))
		if a := g.s.cur.A[g.s.acct(i)]; a != nil && a.Exists {
			return i
		}
	}
	return g.r.Intn(g.s.spec.N + g.s.spec.Fresh)
}

func (g *Gen) amt(bal int64) int64 {
	r := g.r
	switch r.Intn(10) {
	case 0:
		return bal
	case 1:
		return bal + 1
	case 2:
		return pickI(r, 0, 1, 2, 3, 7, 333, 999, 1000, 1001, 1_000000)
	case 3:
		return bal / 2
	case 4:
		if bal > 0 {
			return r.Int63n(bal) + 1
		}
	case 5, 6:
		if bal > 100 {
			return bal/100 + r.Int63n(bal/10)
		}
	}
	x := logAmt(r, 2, 10)
	if x > bal && bal > 10 && g.p(85) {
		x = 1 + r.Int63n(bal)
	}
	return x
}

func (g *Gen) member(list []string) int {
	if len(list) > 0 && g.p(88) {
		if i, ok := g.s.idx[list[g.r.Intn(len(list))]]; ok && i < 900 {
			return i
		}
	}
	return g.acc(nil)
}

func (g *Gen) nextTx(n int) *Tx {
	r := g.r
	if g.left <= 0 {
		return nil
	}
	g.left--
	g.id++
	t := &Tx{ID: g.id}
	switch x := r.Intn(100); {
	case x < 1:
		t.Raw = make([]byte, r.Intn(40))
		r.Read(t.Raw)
		return t
	case x < 4 && len(g.sentIDs) > 0:
		t.Resend = g.sentIDs[r.Intn(len(g.sentIDs))]
		return t
	}
	k := 1
	if g.p(12) {
		k = 2 + r.Intn(3)
	}
	g.opNow = ""
	if len(g.at) > 0 && g.p(30) {
		x := g.at[r.Intn(len(g.at))]
		if ops := atOps[x.H]; len(ops) > 0 {
			i, ok := g.s.idx[taskAcc(x)]
			switch {
			case !ok:
				g.opNow, g.must = pickStr(r, ops...), -1
			case i < 900:
				g.opNow, g.must = pickStr(r, ops...), i
			}
		}
	}
	if len(g.leftT) > 0 && g.opNow == "" && g.p(25) {
		x := g.leftT[r.Intn(len(g.leftT))]
		if ops := atOps[x.H]; len(ops) > 0 {
			if i, ok := g.s.idx[taskAcc(x)]; !ok {
				g.opNow, g.must = ops[0], -1
			} else if i < 900 {
				g.opNow, g.must = pickStr(r, ops...), i
			}
		}
	}
	if len(g.follow) > 0 && g.opNow == "" {
		if f := g.follow[0]; g.p(f.pct) {
			g.opNow, g.must = f.op, f.a
		}
		g.follow = g.follow[1:]
	}
	for i := 0; i < k; i++ {
		t.Msgs = append(t.Msgs, g.msg())
		switch m := t.Msgs[len(t.Msgs)-1]; m.Op {
		case "off": // back with another key, perhaps before the next validator set, and off again
			g.follow = append(g.follow[:0:0], follow{"on", m.A, 40}, follow{"off", m.A, 30})
		}
		g.opNow = ""
		if i > 0 && g.p(50) && t.Msgs[i].Op == t.Msgs[0].Op {
			t.Msgs[i].A = t.Msgs[0].A
		}
	}
	for i := range t.Msgs {
		if g.p(4) {
			t.Msgs[i].U = 1 + r.Intn(3)
		}
	}
	for _, m := range t.Msgs {
		if m.A < 0 || m.A >= 900 {
			t.Msgs = t.Msgs[:1]
			t.Msgs[0].A = 0
			break
		}
	}
	if g.p(50) {
		t.Fee = pickI(r, 1, 10, 3000, 1_000000, 3, 77)
		if g.p(3) {
			t.FeeD = 1 + r.Intn(3)
		}
		if g.p(3) {
			t.Fee = g.amt(g.s.cur.A[g.s.acct(t.Msgs[0].A)].C[dM])
		}
	}
	if g.p(4) {
		t.Gas = 20000 + r.Int63n(300000)
	}
	switch x := r.Intn(100); {
	case x < 1:
		t.SeqOff = pick(r, -1, 1, 2)
	case x < 2:
		t.BadKey = true
	case x < 3:
		t.Chain = "other-chain"
	case x < 5:
		t.TimeoutH = g.s.hdr.Height + int64(r.Intn(3)) - 1
	}
	g.sentIDs = append(g.sentIDs, t.ID)
	if len(g.sentIDs) > 30 {
		g.sentIDs = g.sentIDs[1:]
	}
	return t
}

func pick(r *rand.Rand, xs ...int) int { return xs[r.Intn(len(xs))] }

func (g *Gen) op() string {
	for try := 0; try < 4; try++ {
		x := g.r.Intn(g.sumW)
		for _, w := range g.weights {
			if x -= w.w; x < 0 {
				if g.sense(w.op) || g.p(8) {
					return w.op
				}
				break
			}
		}
	}
	return "send"
}

// sense: the operation has a chance now
func (g *Gen) sense(op string) bool {
	st := g.s.cur
	switch op {
	case "vote":
		for _, t := range g.leftT {
			if t.H == hVote && g.p(70) { // another end of voting is still planned: let it find a proposal
				return false
			}
		}
		return st.Prop != nil
	case "propose":
		return st.Prop == nil
	case "answer":
		return st.Poll != nil
	case "poll":
		return st.Poll == nil
	case "unjail":
		for _, a := range st.A {
			if a.Node != nil && a.Node.Jailed {
				return true
			}
		}
		return false
	}
	return true
}

func (g *Gen) nick() string {
	r := g.r
	g.names++
	if g.p(15) {
		return ""
	}
	var n string
	switch r.Intn(4) {
	case 0:
		n = fmt.Sprintf("nick%d", r.Intn(g.s.spec.N))
	case 1:
		n = fmt.Sprintf("Name %d", r.Intn(4))
	case 2:
		n = pickStr(r, "artr-0-1-2", "ARTR-77", "Artr", "aRtR-x", "Ärger", "ärger", "İx", "straße", "STRASSE", "ǆ", "Ǆ", "K", "\u212a", "Größe")
	default:
		n = fmt.Sprintf("n%d", g.names)
	}
	switch r.Intn(8) {
	case 0:
		n = strings.ToUpper(n)
	case 1:
		n = " " + n
	case 2:
		n = n + "\t"
	}
	return n
}

func (g *Gen) msg() Msg {
	s, r := g.s, g.r
	st := s.cur
	A := func(i int) *Acct {
		a := st.A[s.acct(i)]
		if a == nil {
			a = &Acct{}
		}
		return a
	}
	rich := func(i int, a *Acct) bool { return a.C[dM] > 1000000 }
	m := Msg{Op: g.opNow}
	if m.Op == "" {
		m.Op = g.op()
	}
	switch m.Op {
	case "send":
		m.A, m.B = g.acc(rich), g.any()
		m.N = g.amt(A(m.A).C[dM])
		if g.p(4) {
			m.D = r.Intn(nDenom)
			m.N = g.amt(A(m.A).C[m.D])
		}
		if g.p(2) {
			m.M = 1 + r.Int63n(1000)
		}
		if g.p(3) {
			m.B = m.A
		}
		if g.p(2) && s.spec.Fresh > 0 {
			m.B = s.spec.N + r.Intn(s.spec.Fresh)
		}
	case "burn":
		m.A = g.acc(rich)
		m.N = g.amt(A(m.A).C[dM])
	case "delegate":
		m.A = g.acc(rich)
		m.N = g.amt(A(m.A).C[dM])
		if d := st.P.Bank.DustDelegation; g.p(15) && d > 0 {
			m.N = d - A(m.A).C[dD] + pickI(r, 0, 1, 2, -1, d/20, d/2)
		}
		if s.spec.Mode == "status" && g.p(50) {
			m.N = pickI(r, 150_000_000000, 300_000_000000, 1_000_000_000000, A(m.A).C[dM])
		}
	case "revoke", "xrevoke":
		m.A = g.acc(func(i int, a *Acct) bool { return a.C[dD] > 0 })
		d := A(m.A).C[dD]
		m.N = g.amt(d)
		switch x := r.Intn(8); {
		case x < 2:
			m.N = d
		case x == 2:
			m.N = d - st.P.Bank.DustDelegation + pickI(r, -1, 0, 1)
		}
	case "earn":
		m.A = g.member(st.P.Earn.Signers)
		m.B = r.Intn(s.spec.N)
		m.N, m.M = g.mark(), g.mark()
	case "earnmulti":
		m.A = g.member(st.P.Earn.Signers)
		for i := r.Intn(5); i >= 0; i-- {
			m.L = append(m.L, r.Intn(s.spec.N))
			m.T = append(m.T, g.mark(), g.mark())
		}
	case "create":
		m.A = g.member(st.P.Prof.Creators)
		if g.p(40) {
			m.A = g.acc(rich)
		}
		m.B = s.spec.N + r.Intn(s.spec.Fresh)
		if g.p(8) {
			m.B = g.any()
		}
		for k := 0; k < s.spec.Fresh && m.B >= s.spec.N && m.B < 900 && A(m.B).Prof != nil && g.p(95); k++ {
			m.B = s.spec.N + (m.B-s.spec.N+1+s.spec.Fresh)%s.spec.Fresh
		}
		m.C = g.acc(func(i int, a *Acct) bool { return a.Ref != nil && (g.open(a.Ref) || g.p(20)) })
		if g.p(10) {
			m.C = g.any()
		}
		if m.F = g.p(60); m.F {
			m.S = g.nick()
			if m.F2 = g.p(25); m.F2 {
				m.N = st.T + r.Int63n(100)*s.spec.DayNs
				m.M = st.T + r.Int63n(100)*s.spec.DayNs
			}
		}
	case "profile":
		m.A = g.acc(func(i int, a *Acct) bool { return a.Prof != nil })
		fs := []string{"autopay", "noding", "storage", "validator", "vpn", "imautopay", "nick"}
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		m.X = fs[:1+r.Intn(3)]
		for range m.X {
			m.L = append(m.L, r.Intn(2))
		}
		if has(m.X, "nick") {
			m.S = g.nick()
			if p := A(m.A).Prof; p != nil && p.Nick != "" && g.p(25) { // its own name, written in another way
				m.S = pickStr(r, strings.ToUpper(p.Nick), strings.ToLower(p.Nick), strings.Title(strings.ToLower(p.Nick)), p.Nick)
			}
		}
	case "storagecur", "vpncur":
		l := st.P.Prof.StorageSigners
		if m.Op == "vpncur" {
			l = st.P.Prof.VpnSigners
		}
		m.A = g.member(l)
		m.B = g.acc(func(i int, a *Acct) bool { return a.Prof != nil })
		m.N = r.Int63n(12 * gb)
		if p := A(m.B).Prof; p != nil && g.p(40) {
			m.N = int64(p.StorageLimit)
			if m.Op == "vpncur" {
				m.N = int64(p.VpnLimit) + pickI(r, 0, gb, 7, -7)
			}
		}
		if m.N < 0 || m.N > 1<<50 {
			m.N = gb
		}
	case "rate":
		m.A = g.member(st.P.Prof.TokenRateSigners)
		m.S = pickStr(r, "100000", "1", "1/3", "999/7", "12345/67", "200000", "1/1000000", "777777/10")
	case "tariff":
		m.A = g.acc(func(i int, a *Acct) bool { return a.Prof != nil && rich(i, a) })
		if g.p(30) { // somebody comes back, preferably where the former referrer takes nobody
			for k, n := 0, r.Intn(s.spec.N); k < s.spec.N; k++ {
				i := (n + k) % s.spec.N
				if a := A(i); a.Ref != nil && a.Ref.Banished && a.Prof != nil && rich(i, a) {
					m.A = i
					if b := st.A[a.Ref.Referrer]; b == nil || b.Ref == nil || !g.open(b.Ref) {
						break
					}
				}
			}
		}
		if g.p(50) {
			m.N = int64(st.P.Prof.BaseStorageGb) + pickI(r, 0, 0, 1, 2, 7, -1)
		}
		if g.p(1) {
			m.N = 1 + r.Int63n(1_000_000_000)
		}
		if m.N < 0 {
			m.N = 0
		}
	case "buystorage", "buyvpn", "buyim":
		m.A = g.acc(func(i int, a *Acct) bool {
			return a.Prof != nil && rich(i, a) && (m.Op == "buyim" || a.Prof.active(st.T))
		})
		m.N = pickI(r, 1, 1, 2, 5, 100, 0)
		if g.p(1) {
			m.N = r.Int63n(1 << 32)
		}
	case "givestorage":
		m.A = g.acc(func(i int, a *Acct) bool { return a.Prof != nil && a.Prof.StorageLimit > 0 })
		if p := A(m.A).Prof; p != nil {
			m.N = int64(p.StorageLimit)/gb + pickI(r, -1, -2, 0, -1)
		}
		if m.N < 0 || m.N > 1<<31 {
			m.N = 1
		}
	case "giveim":
		m.A = g.acc(func(i int, a *Acct) bool { return a.Prof != nil && a.Prof.ImExtra > 0 })
		if p := A(m.A).Prof; p != nil && p.ImExtra > 0 && p.ImExtra < 1<<31 {
			m.N = r.Int63n(int64(p.ImExtra)+1) * int64(r.Intn(3))
		}
	case "prolongim":
		m.A = g.acc(func(i int, a *Acct) bool { return a.Prof != nil && a.Prof.ImExtra > 0 })
	case "on":
		m.A = g.acc(func(i int, a *Acct) bool {
			return (a.Node == nil || !a.Node.On) && (a.Ref != nil && a.Ref.Status >= 1 && a.C[dD] > 0 || a.Node != nil && a.Node.Staff)
		})
		m.N = int64(m.A)
		switch x := r.Intn(10); {
		case x < 4:
			m.N = r.Int63n(6) // possibly a key in use, or somebody's former key
		case x == 4 && g.p(30):
			m.N = 1000 + r.Int63n(5)
		}
	case "off":
		m.A = g.acc(func(i int, a *Acct) bool { return a.Node != nil && a.Node.On })
		n := 0
		for _, a := range st.A {
			if a.Node.active() {
				n++
			}
		}
		if n <= 1 && A(m.A).Node.active() {
			m.A = g.acc(func(i int, a *Acct) bool { return a.Node == nil })
		}
	case "unjail":
		m.A = g.acc(func(i int, a *Acct) bool { return a.Node != nil && a.Node.Jailed })
	case "reqtrans":
		m.A = g.acc(func(i int, a *Acct) bool { return a.Ref != nil && a.Ref.Referrer != "" && !a.Ref.Banished })
		m.B = g.acc(func(i int, a *Acct) bool {
			return i != m.A && g.open(a.Ref) && a.Ref.Referrer != s.acct(m.A) && A(m.A).Ref != nil && A(m.A).Ref.Referrer != s.acct(i)
		})
		switch x := r.Intn(20); {
		case x >= 17: // to the referrer's referrer, where the subject will be anyway if their referrer is compressed
			if a := A(m.A); a.Ref != nil && st.A[a.Ref.Referrer] != nil && st.A[a.Ref.Referrer].Ref != nil {
				if i, ok := s.idx[st.A[a.Ref.Referrer].Ref.Referrer]; ok && i < 900 {
					m.B = i
				}
			}
		case x < 3:
			m.B = g.acc(func(i int, a *Acct) bool { return a.Ref != nil && i != m.A })
		case x < 4:
			m.B = g.any()
		case x < 9: // to somebody whose registration closes soon
			t := s.hdr.Time.UnixNano()
			for i := 0; i < s.spec.N; i++ {
				if a := A(i); i != m.A && g.open(a.Ref) && !a.Ref.Active && a.Ref.CompressionAt-30*s.spec.DayNs < t+s.spec.DayNs && a.Ref.Referrer != "" && A(m.A).Ref != nil && A(m.A).Ref.Referrer != s.acct(i) {
					m.B = i
				}
			}
		}
	case "restrans":
		m.B = g.acc(func(i int, a *Acct) bool { return a.Ref != nil && a.Ref.Transition != "" })
		if (A(m.B).Ref == nil || A(m.B).Ref.Transition == "") && !g.p(10) {
			m.Op = "reqtrans"
			m.A = g.acc(func(i int, a *Acct) bool { return a.Ref != nil && a.Ref.Referrer != "" && !a.Ref.Banished })
			m.B = g.acc(func(i int, a *Acct) bool { return a.Ref != nil && i != m.A })
			break
		}
		m.F = g.p(30)
		if x := A(m.B); x.Ref != nil && x.Ref.Referrer != "" {
			m.A = s.idx[x.Ref.Referrer]
		}
		switch x := r.Intn(100); {
		case x < 4:
			m.A = g.acc(nil)
		case x < 8 && A(m.B).Ref != nil && A(m.B).Ref.Transition != "":
			m.A = s.idx[A(m.B).Ref.Transition]
		case x < 10:
			m.A = m.B
		}
	case "vote":
		m.A = g.member(st.Gov)
		m.F = g.p(80)
		if s.spec.Mode == "upg" {
			m.F = g.p(97)
		}
		if g.p(80) {
			for _, x := range st.Gov {
				if i, ok := s.idx[x]; ok && !has(st.Agreed, x) && !has(st.Disagr, x) && i < 900 {
					m.A = i
					break
				}
			}
		}
	case "poll":
		m.A = g.member(st.Gov)
		m.S = fmt.Sprintf("poll%d", g.id)
		m.X = []string{pickStr(r, "", "1/2", "2/3", "1", "1/7", "50%")}
		m.N = pickI(r, 0, 0, -1, 1, 2, 3)
	case "answer":
		m.A = g.acc(nil)
		m.F = g.p(60)
	case "propose":
		g.proposal(&m)
	}
	switch x := r.Intn(100); {
	case x < 2: // somebody else
		m.A = g.acc(nil)
	case x < 6: // somebody outside of the structure
		most := int64(100)
		for i := s.spec.N; i < s.spec.N+s.spec.Fresh; i++ {
			if a := A(i); a.Exists && a.Ref == nil && a.C[dM] > most {
				m.A, most = i, a.C[dM]
			}
		}
	}
	return m
}

// open: one can register under it and move to it
func (g *Gen) open(r *RefInfo) bool {
	return r != nil && (r.Referrer == "" || !r.Banished && (r.Active || r.CompressionAt != 0 && g.s.hdr.Time.UnixNano() <= r.CompressionAt-30*g.s.spec.DayNs))
}

func (g *Gen) mark() int64 {
	t := g.s.hdr.Time.UnixNano()
	w := 2 * g.s.spec.DayNs
	return pickI(g.r, 0, t, t-1, t-w, t-w+1, t-w-1, t-w+5e9, t-g.s.spec.DayNs, t+w)
}

// kinds of proposals that are not (or hardly ever) accepted
var rareProp = map[int]bool{2: true, 3: true, 29: true, 31: true, 34: true, 35: true, 37: true, 43: true, 44: true, 45: true}

func (g *Gen) proposal(m *Msg) {
	s, r := g.s, g.r
	st := s.cur
	m.A = g.member(st.Gov)
	m.S = fmt.Sprintf("prop%d", g.id)
	var types []int
	for t := range voting.ProposalType_name {
		if t != 0 {
			types = append(types, int(t))
		}
	}
	sort.Ints(types)
	m.D = types[r.Intn(len(types))]
	if rareProp[m.D] && g.p(85) {
		m.D = types[r.Intn(len(types))]
	}
	if s.spec.Mode == "upg" && g.p(70) {
		m.D = int(voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE)
		if st.Plan != "" && g.p(30) {
			m.D = int(voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE)
		}
	}
	if s.spec.Mode == "val" && g.p(60) {
		m.D = pick(r, int(voting.PROPOSAL_TYPE_MAX_VALIDATORS), int(voting.PROPOSAL_TYPE_LUCKY_VALIDATORS), int(voting.PROPOSAL_TYPE_VOTING_POWER), int(voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD),
			int(voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE), int(voting.PROPOSAL_TYPE_JAIL_AFTER), int(voting.PROPOSAL_TYPE_GENERAL_AMNESTY), int(voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA))
	}
	idxOf := func(l []string) int {
		if len(l) == 0 || g.p(10) {
			return g.acc(nil)
		}
		return s.idx[l[r.Intn(len(l))]]
	}
	switch p := voting.ProposalType(m.D); p {
	case voting.PROPOSAL_TYPE_ENTER_PRICE, voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE, voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE, voting.PROPOSAL_TYPE_TRANSITION_PRICE:
		m.N = pickI(r, 1, 2, 100, 1990, 50000, 0)
	case voting.PROPOSAL_TYPE_GOVERNMENT_ADD, voting.PROPOSAL_TYPE_FREE_CREATOR_ADD, voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD,
		voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD:
		m.B = g.acc(nil)
	case voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
		m.B = idxOf(st.Gov)
		if len(st.Gov) < 2 {
			m.D, m.B = int(voting.PROPOSAL_TYPE_GOVERNMENT_ADD), g.acc(nil)
		}
	case voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
		m.B = idxOf(st.P.Prof.Creators)
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE:
		m.B = idxOf(st.P.Earn.Signers)
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE:
		m.B = idxOf(st.P.Prof.TokenRateSigners)
	case voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE:
		m.B = idxOf(st.P.Prof.VpnSigners)
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE:
		m.B = idxOf(st.P.Prof.StorageSigners)
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE:
		m.B = idxOf(st.P.Bank.BlockedSenders)
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD:
		m.B = g.acc(func(i int, a *Acct) bool { return a.Node == nil || !a.Node.Staff })
		if s.spec.Out > 0 && g.p(25) {
			m.B = s.spec.N
		}
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE:
		m.B = g.acc(func(i int, a *Acct) bool { return a.Node != nil && a.Node.Staff })
		n := 0
		for _, a := range st.A {
			if a.Node.active() && a.Node.Staff {
				n++
			}
		}
		if n < 2 {
			m.D = int(voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD)
		}
	case voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE:
		m.X = []string{fmt.Sprintf("%s%d", simUpgradePrefix, g.id)}
		if g.p(20) && len(s.upSet) > 0 {
			var ns []string
			for n := range s.upSet {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			m.X[0] = ns[r.Intn(len(ns))]
		}
		m.N = s.hdr.Time.UnixNano() + pickI(r, 1, 5e9, 60e9, 3600e9, 3*3600e9, 200*3600e9, 0, -5)
	case voting.PROPOSAL_TYPE_MIN_SEND, voting.PROPOSAL_TYPE_MIN_DELEGATE, voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE:
		m.N = pickI(r, 1, 1000, 2_000000, 10_000000, 0)
	case voting.PROPOSAL_TYPE_DUST_DELEGATION:
		m.N = pickI(r, 0, 1, 1000, 2_000000)
	case voting.PROPOSAL_TYPE_MAX_VALIDATORS:
		m.N = pickI(r, 1, 2, 3, 5, 7, 100)
	case voting.PROPOSAL_TYPE_LUCKY_VALIDATORS:
		m.N = pickI(r, 0, 1, 2, 3)
	case voting.PROPOSAL_TYPE_JAIL_AFTER:
		m.N = pickI(r, 1, 2, 3, 10)
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA:
		m.C = pick(r, 1, 1, 2, 3)
		m.N = pickI(r, 0, 1_000000, 100_000000, 10_000_000000)
		m.M = pickI(r, 0, 1_000000, 1_000_000000, 10_000_000000)
	case voting.PROPOSAL_TYPE_VOTING_POWER:
		switch r.Intn(3) {
		case 0:
			m.X, m.T, m.N = []string{"1"}, []int64{10}, 10
		case 1:
			m.X, m.T, m.N = []string{"15%", "85%"}, []int64{15, 10}, 10
		case 2:
			m.X, m.T, m.N = []string{"20%", "20%", "60%"}, []int64{30, 20, 10}, 3
		}
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE:
		m.X = []string{pickStr(r, "3/1000", "0", "1/20", "1/3", "1/7")}
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS:
		m.X = [][]string{{"3/10", "2/10"}, {"0", "0"}, {"1/3", "2/3"}, {"1", "0"}, {"2/3", "2/3"}}[r.Intn(5)]
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE:
		m.T, m.X = genTable(r)
	case voting.PROPOSAL_TYPE_REVOKE, voting.PROPOSAL_TYPE_EXPRESS_REVOKE:
		m.N = pickI(r, 1, 3, 14, 2)
		m.X = []string{pickStr(r, "5%", "0", "1/3", "100%", "1/11")}
	}
}

var _ = util.GBSize
