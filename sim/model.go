package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/arterynetwork/artr/util"
)

// The reference model: what each operation must do to the observable state, written from the stated properties. It works on a
// copy of the real state before the operation, so a deviation is reported at the operation that makes it.

type failure struct{ props, why string }

// M is the model in the middle of an operation.
type M struct {
	s     *Sim
	st    *State
	pre   *State
	now   int64
	h     int64
	dirty bool
	// activity and delegation may have changed for these
	alt        map[string]bool // the score of these nodes may or may not have been refreshed
	loose      map[string]bool // node switch of these may go either way
	notes      []string
	tasksDone  map[string]int // executed tasks by handler
	signers    map[string]bool
	compressed string // just now
	settled    *State // when derived values were last in line
}

func newM(s *Sim, pre *State, now, h int64) *M {
	st := pre.clone()
	st.T, st.H = now, h
	return &M{s: s, st: st, pre: pre, settled: pre, now: now, h: h, alt: map[string]bool{}, loose: map[string]bool{}, tasksDone: map[string]int{}}
}

func (m *M) fail(props, why string) { panic(failure{props, why}) }
func (m *M) note(x string)          { m.notes = append(m.notes, x) }

// try runs f; when it fails, the state is as before.
func (m *M) try(f func()) (fl *failure) {
	save, settled := m.st.clone(), m.settled
	dirty := m.dirty
	defer func() {
		if e := recover(); e != nil {
			x, ok := e.(failure)
			if !ok {
				panic(e)
			}
			m.st, m.settled = save, settled
			m.dirty = dirty
			fl = &x
		}
	}()
	f()
	m.settle()
	return nil
}

// --- numbers

func rat(f util.Fraction) *big.Rat {
	s := f.String()
	if s == "nil" {
		return new(big.Rat)
	}
	n, d := numDen(s)
	return new(big.Rat).SetFrac(n, d)
}

func numDen(s string) (*big.Int, *big.Int) {
	n, d := new(big.Int), big.NewInt(1)
	switch {
	case strings.HasSuffix(s, "%"):
		n.SetString(strings.TrimSuffix(s, "%"), 10)
		d.SetInt64(100)
	case strings.Contains(s, "/"):
		p := strings.SplitN(s, "/", 2)
		n.SetString(p[0], 10)
		d.SetString(p[1], 10)
	default:
		n.SetString(s, 10)
	}
	return n, d
}

func denOf(f util.Fraction) *big.Int {
	_, d := numDen(f.String())
	return d
}

func bigI(x int64) *big.Rat { return new(big.Rat).SetInt64(x) }

func mul(x *big.Rat, ys ...*big.Rat) *big.Rat {
	r := new(big.Rat).Set(x)
	for _, y := range ys {
		r.Mul(r, y)
	}
	return r
}

func trunc(x *big.Rat) *big.Int { return new(big.Int).Quo(x.Num(), x.Denom()) }

func truncI(x *big.Rat) int64 {
	t := trunc(x)
	if !t.IsInt64() {
		return math.MaxInt64
	}
	return t.Int64()
}

func lcmB(x, y *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, x, y)
	r := new(big.Int).Mul(x, y)
	return r.Quo(r, g)
}

// --- balances

func (m *M) a(acc string) *Acct {
	x := m.st.A[acc]
	if x == nil {
		panic(fmt.Sprintf("account %s is not in the universe", acc))
	}
	return x
}

var (
	splittable = moduleAddr(util.SplittableFeeCollectorName)
	feeColl    = moduleAddr(moduleNames[0])
)

func (m *M) add(acc string, d int, amt int64) {
	if amt == 0 {
		return
	}
	x := m.a(acc)
	x.C[d] += amt
	if x.C[d] < 0 {
		panic("model: negative balance")
	}
	m.dirty = true
	if d == dD {
		m.onDeleg(acc)
	}
}

func (m *M) take(acc string, d int, amt int64, props string) {
	if m.a(acc).C[d] < amt {
		m.fail(props, fmt.Sprintf("insufficient %s: has %d, needs %d", denoms[d], m.a(acc).C[d], amt))
	}
	m.add(acc, d, -amt)
}

func (m *M) move(from, to string, d int, amt int64, props string) {
	m.take(from, d, amt, props)
	m.add(to, d, amt)
}

func (m *M) calcFee(amt int64) int64 {
	p := m.st.P.Bank
	fee := trunc(mul(rat(p.TransactionFee), bigI(amt)))
	if p.MaxTransactionFee != 0 && fee.Cmp(big.NewInt(p.MaxTransactionFee)) > 0 {
		fee.SetInt64(p.MaxTransactionFee)
	}
	a, b := p.TransactionFeeSplitRatios.ForProposer, p.TransactionFeeSplitRatios.ForCompany
	l := lcmB(denOf(a), denOf(b))
	fee.Sub(fee, new(big.Int).Mod(fee, l))
	return fee.Int64()
}

func (m *M) payTxFee(acc string, amt int64) int64 {
	fee := m.calcFee(amt)
	if fee != 0 {
		m.note("fee")
		m.move(acc, splittable, dM, fee, "C17")
	}
	return fee
}

func (m *M) mint(acc string, amt int64) {
	m.st.Supply[dM] += amt
	m.add(acc, dM, amt)
}

// --- tasks

func (m *M) task(t int64, h, d string) {
	x := Task{t, h, d}
	i := sort.Search(len(m.st.Tasks), func(i int) bool { return m.st.Tasks[i].T > t })
	ts := make([]Task, 0, len(m.st.Tasks)+1)
	ts = append(ts, m.st.Tasks[:i]...)
	ts = append(ts, x)
	m.st.Tasks = append(ts, m.st.Tasks[i:]...)
}

func (m *M) untask(t int64, h, d string) {
	r := make([]Task, 0, len(m.st.Tasks))
	for _, x := range m.st.Tasks {
		if !(x.T == t && x.H == h && x.D == d) {
			r = append(r, x)
		}
	}
	m.st.Tasks = r
}

func (m *M) day() int64   { return m.st.P.DayNs }
func (m *M) month() int64 { return m.st.P.DayNs * 30 }
func (m *M) dust() int64  { return m.st.P.Bank.DustDelegation }

const (
	hRevoke   = "delegating/revoke"
	hAccrue   = "delegating/accrue"
	hRefresh  = "profile/refresh"
	hRefreshI = "profile/refresh-im"
	hVote     = "voting/complete"
	hPoll     = "voting/poll"
	hDown     = "referral/downgrade"
	hComp     = "referral/compression"
	hTimeout  = "referral/transition-timeout"
	hBanish   = "referral/banish"
)

// --- referral network

func (m *M) closed(acc string) bool {
	r := m.a(acc).Ref
	if r == nil {
		return true
	}
	return r.Referrer != "" && (r.Banished || !r.Active && (r.CompressionAt == 0 || m.now > r.CompressionAt-m.month()))
}

func (m *M) scheduleBanishment(acc string) {
	r := m.a(acc).Ref
	r.BanishmentAt = m.now + m.month()
	m.task(r.BanishmentAt, hBanish, acc)
	m.note("banishment scheduled")
}

func (m *M) cancelBanishment(acc string) {
	r := m.a(acc).Ref
	if r.BanishmentAt != 0 {
		m.untask(r.BanishmentAt, hBanish, acc)
		r.BanishmentAt = 0
		m.note("banishment cancelled")
	}
}

// onDeleg is what a change of the delegation means to an account in the network.
func (m *M) onDeleg(acc string) {
	x := m.a(acc)
	r := x.Ref
	if r == nil || r.Active {
		return
	}
	if x.C[dD] <= m.dust() {
		if r.Referrer != "" && !r.Banished && r.BanishmentAt == 0 && (r.CompressionAt == 0 || m.now > r.CompressionAt) {
			m.scheduleBanishment(acc)
		}
		return
	}
	m.cancelBanishment(acc)
	if r.Banished {
		m.comeback(acc)
	}
}

func (m *M) comeback(acc string) {
	r := m.a(acc).Ref
	p := r.Referrer
	for p != "" && m.closed(p) {
		p = m.a(p).Ref.Referrer
		m.note("comeback to a further ancestor")
	}
	r.Referrer = p
	r.Banished = false
	r.BanishmentAt, r.CompressionAt = 0, 0
	r.Status = 1
	r.DowngradeAt = 0
	m.dirty = true
	m.note("comeback")
}

func (m *M) setActive(acc string, v bool) {
	r := m.a(acc).Ref
	if r == nil {
		m.fail("C20", "account outside of the network")
	}
	if r.Active == v {
		return
	}
	r.Active = v
	m.dirty = true
	if v {
		r.CompressionAt = 0
		m.cancelBanishment(acc)
		return
	}
	r.CompressionAt = m.now + 2*m.month()
	if r.Referrer != "" {
		m.task(r.CompressionAt, hComp, acc)
	}
}

// inTree tells whether an account currently has a place in the network.
func inTree(x *Acct) bool { return x != nil && x.Ref != nil && !x.Ref.Banished }

// totals are recomputed from scratch.
type totals struct {
	coins, deleg, counts [11]int64
	refs, active         []string
	depth11              bool // has descendants eleven levels down
}

func treeTotals(st *State) map[string]*totals {
	res := make(map[string]*totals, len(st.Order))
	kids := map[string][]string{}
	for _, acc := range st.Order {
		x := st.A[acc]
		if x.Ref == nil {
			continue
		}
		t := &totals{}
		t.coins[0], t.deleg[0] = x.C.Network(), x.C[dD]
		if x.Ref.Active {
			t.counts[0] = 1
		}
		res[acc] = t
		if inTree(x) && x.Ref.Referrer != "" {
			kids[x.Ref.Referrer] = append(kids[x.Ref.Referrer], acc)
		}
	}
	for acc, t := range res {
		if ks := kids[acc]; len(ks) > 0 {
			t.refs = sortedCopy(ks)
			for _, k := range t.refs {
				if st.A[k].Ref.Active {
					t.active = append(t.active, k)
				}
			}
		}
	}
	for _, acc := range st.Order {
		x := st.A[acc]
		if !inTree(x) {
			continue
		}
		p := x.Ref.Referrer
		for l := 1; l <= 11 && p != ""; l++ {
			t := res[p]
			if t == nil {
				break
			}
			if l == 11 {
				if x.Ref.Active {
					t.depth11 = true
				}
				break
			}
			t.coins[l] += x.C.Network()
			t.deleg[l] += x.C[dD]
			if x.Ref.Active {
				t.counts[l]++
			}
			p = st.A[p].Ref.Referrer
		}
	}
	return res
}

func sumTo(x [11]int64, n int) (r int64) {
	for i := 0; i <= n && i < 11; i++ {
		r += x[i]
	}
	return
}

var linesOpened = map[int]int{1: 4, 2: 6, 3: 8}

func lines(status int) int {
	if l, ok := linesOpened[status]; ok {
		return l
	}
	return 10
}

type coreReq struct {
	coins, leg int64
	lines      int
}

var statusReq = map[int]coreReq{2: {20_000, 2, 4}, 3: {50_000, 3, 6}, 4: {150_000, 10, 8}, 5: {300_000, 50, 10}, 6: {700_000, 100, 10}, 7: {1_500_000, 300, 10}, 9: {3_000_000, 600, 10}}

// meets tells whether an account meets the requirements of a status.
func meets(status int, acc string, tot map[string]*totals) bool {
	if status <= 1 {
		return true
	}
	q := statusReq[status]
	t := tot[acc]
	if sumTo(t.deleg, q.lines)/1_000_000 < q.coins {
		return false
	}
	if status <= 3 {
		n := int64(0)
		for _, k := range t.active {
			if tot[k].counts[1] >= q.leg {
				n++
			}
		}
		return n >= q.leg
	}
	var legs, xs int
	for _, k := range t.active {
		if sumTo(tot[k].counts, 10) >= q.leg {
			legs++
		}
		if tot[k].counts[1] >= 3 {
			xs++
		}
	}
	return legs >= 3 && xs >= 3
}

// settle brings derived values (totals, statuses, validator switches) in line after balances or structure changed.
func (m *M) settle() {
	if !m.dirty {
		return
	}
	m.dirty = false
	st := m.st
	qual := map[string]bool{}
	var delegWas map[string][11]int64
	for _, acc := range st.Order {
		x := st.A[acc]
		if x.Node != nil && x.Ref != nil {
			if x.Node.On && !x.Node.Jailed && !x.Node.Banned {
				qual[acc] = m.qualified(m.settled, acc)
			}
			if delegWas == nil {
				delegWas = map[string][11]int64{}
			}
			delegWas[acc] = x.Ref.Deleg
		}
	}
	tot := treeTotals(st)
	for _, acc := range st.Order {
		x := st.A[acc]
		if x.Ref == nil {
			continue
		}
		t := tot[acc]
		if x.Ref.Banished {
			x.Ref.Coins[0], x.Ref.Deleg[0] = x.C.Network(), x.C[dD]
			x.Ref.Referrals, x.Ref.ActiveRefs = nil, nil
			continue
		}
		x.Ref.Coins, x.Ref.Deleg, x.Ref.Counts = t.coins, t.deleg, t.counts
		x.Ref.Referrals, x.Ref.ActiveRefs = t.refs, t.active
	}
	for _, acc := range st.Order {
		if inTree(st.A[acc]) {
			m.status(acc, tot)
		}
	}
	for acc, was := range delegWas {
		x := st.A[acc]
		if o := m.settled.A[acc]; x.Ref.Deleg != was || x.Node.On && !x.Node.Jailed && !x.Node.Banned && o != nil && o.Ref != nil && o.Ref.Status != x.Ref.Status && m.qualified(st, acc) {
			x.Node.Score = scoreOf(x)
			delete(m.alt, acc)
		} else {
			m.alt[acc] = true
		}
	}
	for acc := range qual {
		x := st.A[acc]
		if !x.Node.On || x.Node.Jailed || x.Node.Banned || m.qualified(st, acc) {
			continue
		}
		// what the criteria exclude goes off at the next change of its standing
		if was := m.settled.A[acc]; qual[acc] || m.compressed == acc || was != nil && was.Ref != nil && (was.Ref.Status != x.Ref.Status || was.Ref.Deleg != x.Ref.Deleg) {
			m.switchOff(acc)
			m.note("validator switched off: not qualified any more")
		} else {
			m.loose[acc] = true
		}
	}
	m.compressed = ""
	m.settled = st.clone()
}

func (m *M) status(acc string, tot map[string]*totals) {
	r := m.st.A[acc].Ref
	if r.Status == 0 {
		r.Status = 1
	}
	if r.Status == 8 {
		r.Status = 9
	}
	if !meets(r.Status, acc, tot) {
		if r.DowngradeAt == 0 {
			r.DowngradeAt = m.now + 2*m.day()
			m.task(r.DowngradeAt, hDown, acc)
			m.note("downgrade scheduled")
		}
		return
	}
	if r.DowngradeAt != 0 {
		r.DowngradeAt = 0
		m.note("downgrade cancelled")
	}
	for r.Status < 9 {
		n := r.Status + 1
		if n == 8 {
			n = 9
		}
		if !meets(n, acc, tot) {
			break
		}
		r.Status = n
		m.note(fmt.Sprintf("status raised to %d", n))
	}
}

func scoreOf(x *Acct) int64 {
	d := int64(1)
	if x.Ref != nil { // staff may be outside of the structure
		if n := sumTo(x.Ref.Deleg, lines(x.Ref.Status)); n > 1 {
			d = n
		}
	}
	return int64(math.Log(float64(d))) - x.Node.Strokes + x.Node.OkRow/100
}

func (m *M) qualified(st *State, acc string) bool {
	x := st.A[acc]
	if x == nil || x.Ref == nil {
		return x != nil && x.Node != nil && x.Node.Staff
	}
	if x.Node != nil && x.Node.Staff {
		return true
	}
	c := m.st.P.Nod.MinCriteria
	return x.Ref.Status >= int(c.Status) && uint64(x.C[dD]) >= c.SelfStake && uint64(sumTo(x.Ref.Deleg, lines(x.Ref.Status))) >= c.TotalStake
}

func (m *M) compress(acc string) {
	r := m.a(acc).Ref
	if r == nil || r.CompressionAt == 0 || r.CompressionAt > m.now {
		return
	}
	if r.Referrer == "" {
		m.fail("C12", "top level account is never compressed")
	}
	m.note("compression")
	for _, k := range m.st.Order {
		if x := m.st.A[k]; inTree(x) && x.Ref.Referrer == acc {
			x.Ref.Referrer = r.Referrer
			m.note("compression moved referrals")
		}
	}
	r.CompressionAt = 0
	m.compressed = acc
	r.Status = 1
	r.DowngradeAt = 0
	if m.a(acc).C[dD] <= m.dust() {
		m.scheduleBanishment(acc)
	}
	m.dirty = true
}

func (m *M) banish(acc string) {
	x := m.a(acc)
	r := x.Ref
	switch {
	case r == nil, r.Referrer == "", r.Active, x.C[dD] > m.dust(), r.Banished:
		m.fail("C12", "must not banish")
	}
	m.note("banished")
	r.Banished = true
	r.Status = 0
	r.CompressionAt, r.DowngradeAt, r.BanishmentAt = 0, 0, 0
	for l := 1; l < 11; l++ {
		r.Coins[l], r.Deleg[l], r.Counts[l] = 0, 0, 0
	}
	m.dirty = true
	m.settle()
	if d := x.C[dD]; d > 0 {
		m.note("banished with dust delegation")
		m.revoke(acc, d, false)
	}
}

func (m *M) downgrade(acc string) {
	r := m.a(acc).Ref
	if r == nil || r.DowngradeAt == 0 || r.DowngradeAt > m.now {
		return
	}
	r.Status--
	if r.Status == 8 {
		r.Status = 7
	}
	r.DowngradeAt = 0
	m.dirty = true
	m.note(fmt.Sprintf("downgraded to %d", r.Status))
}

func (m *M) validTransition(subj, dest string) {
	if dest == subj {
		m.fail("C13", "subject cannot be their own referral")
	}
	r := m.a(subj).Ref
	p := m.a(dest).Ref
	if r == nil || p == nil {
		m.fail("C13", "not in the network")
	}
	if r.Referrer == dest {
		m.fail("C13", "already there")
	}
	if m.closed(dest) {
		m.fail("C13", "destination closed")
	}
	for x := p.Referrer; x != ""; x = m.a(x).Ref.Referrer {
		if x == subj {
			m.fail("C13,C09", "cycle")
		}
	}
}

func (m *M) requestTransition(subj, dest string) {
	r := m.a(subj).Ref
	if r == nil {
		m.fail("C13", "not in the network")
	}
	if r.Transition != "" {
		m.fail("C13", "already requested")
	}
	m.validTransition(subj, dest)
	m.move(subj, feeColl, dM, int64(m.st.P.Ref.TransitionPrice), "C13")
	r.Transition = dest
	m.task(m.now+m.day(), hTimeout, subj)
	m.note("transition requested")
}

func (m *M) resolveTransition(signer, subj string, decline bool) {
	r := m.a(subj).Ref
	if r == nil || signer != r.Referrer {
		m.fail("C13,C05", "only the referrer decides")
	}
	if r.Transition == "" {
		m.fail("C13", "nothing requested")
	}
	if decline {
		m.endTransition(subj)
		m.note("transition declined")
		return
	}
	m.validTransition(subj, r.Transition)
	if r.Banished {
		m.fail("C13", "banished")
	}
	r.Referrer = r.Transition
	m.endTransition(subj)
	m.dirty = true
	m.note("transition affirmed")
}

func (m *M) endTransition(subj string) {
	m.a(subj).Ref.Transition = ""
	r := m.st.Tasks[:0:0]
	for _, t := range m.st.Tasks {
		if !(t.H == hTimeout && t.D == subj) {
			r = append(r, t)
		}
	}
	m.st.Tasks = r
}

func (m *M) timeout(subj string) {
	r := m.a(subj).Ref
	if r == nil {
		return
	}
	if r.Transition != "" {
		m.note("transition timed out")
	}
	r.Transition = ""
}

// --- delegation

func (m *M) profActive(acc string) bool { return m.a(acc).Prof.active(m.now) }

func (m *M) activeValidator(acc string) bool {
	n := m.a(acc).Node
	return n != nil && n.On && !n.Jailed && !n.Banned && m.h-n.UnjailAt >= 6*int64(m.st.P.Nod.UnjailAfter)
}

func (m *M) earner(acc string) (vpn, storage bool) {
	e := m.a(acc).Earn
	if e == nil {
		return
	}
	w := m.s.markPeriod(m.st)
	return e.Vpn != 0 && e.Vpn+w > m.now, e.Storage != 0 && e.Storage+w > m.now
}

func (s *Sim) markPeriod(st *State) int64 { return 2 * st.P.DayNs }

func (m *M) percent(acc string) *big.Rat {
	d := m.a(acc).C[dD]
	res := new(big.Rat)
	if d <= m.dust() {
		return res
	}
	v, s := m.earner(acc)
	for i, on := range []bool{true, m.activeValidator(acc), m.profActive(acc), v, s} {
		if !on {
			continue
		}
		var b *big.Rat
		for _, row := range m.st.P.Del.AccruePercentageTable {
			if uint64(d) < row.Start {
				break
			}
			b = rat(row.PercentList[i])
		}
		if b != nil {
			res.Add(res, b)
			if i > 0 && b.Sign() != 0 {
				m.note(fmt.Sprintf("accrual with bonus %d", i))
			}
		}
	}
	return res.Quo(res, bigI(30))
}

func (m *M) accrue(acc string, amt int64) {
	if amt == 0 || m.a(acc).Prof == nil {
		return
	}
	fee := m.calcFee(amt)
	m.mint(splittable, fee)
	m.mint(acc, amt-fee)
	m.note("accrued")
}

var valFees = []struct {
	permille int64
	status   int
	maxLevel int
}{{1, 3, 4}, {2, 4, 6}, {3, 5, 10}, {4, 6, 12}, {5, 7, 14}, {6, 9, 20}}

func (m *M) accrueUp(acc string, amt int64) {
	if amt == 0 || m.a(acc).Prof == nil {
		return
	}
	r := m.a(acc).Ref
	if r == nil {
		m.fail("C08", "not in the network")
	}
	best := -1
	type out struct {
		acc string
		amt int64
	}
	var outs []out
	p := r.Referrer
	for i := 0; i < 20 && p != ""; i++ {
		x := m.a(p)
		if x.Ref == nil {
			break
		}
		if m.activeValidator(p) {
			for j := len(valFees) - 1; j >= 0; j-- {
				if x.Ref.Status >= valFees[j].status && i < valFees[j].maxLevel {
					if j > best {
						prev := int64(0)
						if best >= 0 {
							prev = valFees[best].permille
						}
						best = j
						v := truncI(mul(big.NewRat(valFees[j].permille-prev, 30000), bigI(amt)))
						if v != 0 {
							outs = append(outs, out{p, v})
						}
					}
					break
				}
			}
		}
		p = x.Ref.Referrer
	}
	for _, o := range outs {
		m.mint(o.acc, o.amt)
		m.note("validator's share of an accrual")
	}
}

// accruePart pays for the part of the day before a delegation changes.
func (m *M) accruePart(acc string) {
	x := m.a(acc)
	if x.Del == nil {
		x.Del = &DelRec{}
	}
	if x.Del.NextAccrue == 0 {
		return
	}
	part := new(big.Rat).Sub(bigI(1), big.NewRat(x.Del.NextAccrue-m.now, m.day()))
	if x.Del.Missed != "" {
		n, d := numDen(x.Del.Missed)
		part.Sub(part, new(big.Rat).SetFrac(n, d))
		x.Del.Missed = ""
	}
	d := x.C[dD]
	interest := truncI(mul(m.percent(acc), part, bigI(d)))
	up := truncI(mul(part, bigI(d)))
	if interest > 0 {
		m.note("accrued in part")
		m.accrue(acc, interest)
		m.accrueUp(acc, up)
	}
	m.untask(x.Del.NextAccrue, hAccrue, rawAddr(acc))
	x.Del.NextAccrue = 0
}

func (m *M) planAccrual(acc string) {
	x := m.a(acc)
	x.Del.NextAccrue = 0
	if x.C[dD] > m.dust() {
		x.Del.NextAccrue = m.now + m.day()
		m.task(x.Del.NextAccrue, hAccrue, rawAddr(acc))
	}
}

func (m *M) normDel(acc string) {
	x := m.a(acc)
	if x.Del != nil && x.Del.NextAccrue == 0 && len(x.Del.Reqs) == 0 && x.Del.Missed == "" {
		x.Del = nil
	}
}

func (m *M) delegate(acc string, amt int64) {
	if amt < m.st.P.Del.MinDelegate {
		m.fail("C07", "below the minimum")
	}
	amt -= m.payTxFee(acc, amt)
	m.accruePart(acc)
	m.take(acc, dM, amt, "C07")
	m.add(acc, dD, amt)
	m.st.Supply[dM] -= amt
	m.st.Supply[dD] += amt
	m.planAccrual(acc)
	m.normDel(acc)
	m.note("delegated")
}

func (m *M) revoke(acc string, amt int64, express bool) {
	if amt == 0 {
		return
	}
	x := m.a(acc)
	if amt > x.C[dD] {
		m.fail("C07", "more than delegated")
	}
	m.accruePart(acc)
	p := m.st.P.Del.Revoke
	if express {
		p = m.st.P.Del.ExpressRevoke
	}
	rest := amt - truncI(mul(rat(p.Burn), bigI(amt)))
	m.add(acc, dD, -amt)
	m.add(acc, dR, rest)
	m.st.Supply[dD] -= amt
	m.st.Supply[dR] += rest
	m.planAccrual(acc)
	t := m.now + int64(p.Period)*m.day()
	x.Del.Reqs = append(x.Del.Reqs, RevReq{t, rest})
	sortReqs(x.Del)
	m.task(t, hRevoke, rawAddr(acc))
	m.note("revoked")
}

func sortReqs(d *DelRec) {
	sort.SliceStable(d.Reqs, func(i, j int) bool {
		return d.Reqs[i].T < d.Reqs[j].T || d.Reqs[i].T == d.Reqs[j].T && d.Reqs[i].Amt < d.Reqs[j].Amt
	})
}

func (m *M) payRevoked(acc string) {
	x := m.a(acc)
	if x.Del == nil {
		return
	}
	var rest []RevReq
	for _, q := range x.Del.Reqs {
		if q.T > m.now {
			rest = append(rest, q)
			continue
		}
		m.take(acc, dR, q.Amt, "C07")
		m.add(acc, dM, q.Amt)
		m.st.Supply[dR] -= q.Amt
		m.st.Supply[dM] += q.Amt
		m.note("revoked coins paid back")
	}
	x.Del.Reqs = rest
	m.normDel(acc)
}

func (m *M) accrueDaily(acc string, t int64) {
	x := m.a(acc)
	if x.Del == nil || x.Del.NextAccrue != t {
		return
	}
	pc := m.percent(acc)
	if pc.Sign() == 0 {
		x.Del.NextAccrue = 0
		m.normDel(acc)
		m.note("accrual of nothing")
		return
	}
	d := x.C[dD]
	interest, up := truncI(mul(pc, bigI(d))), d
	if x.Del.Missed != "" {
		n, dd := numDen(x.Del.Missed)
		mp := new(big.Rat).SetFrac(n, dd)
		interest -= truncI(mul(mp, bigI(interest)))
		up -= truncI(mul(mp, bigI(up)))
		x.Del.Missed = ""
	}
	m.accrue(acc, interest)
	m.accrueUp(acc, up)
	x.Del.NextAccrue = t + m.day()
	m.task(x.Del.NextAccrue, hAccrue, rawAddr(acc))
	m.note("accrued for a day")
}
