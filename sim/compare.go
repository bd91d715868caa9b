package main

import (
	"fmt"
	"sort"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
	abci "github.com/tendermint/tendermint/abci/types"
	tmtypes "github.com/tendermint/tendermint/types"
)

type diff struct {
	props []string
	sig   string
	msg   string
	acc   string
	loss  bool // somebody has less than expected
}

func split(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p, ",")
}

// normEarn drops marks that expired: reading them removes them.
func (s *Sim) normEarn(e *EarnRec, st *State) EarnRec {
	if e == nil {
		return EarnRec{}
	}
	r := *e
	w := s.markPeriod(st)
	if r.Vpn+w <= st.T {
		r.Vpn = 0
	}
	if r.Storage+w <= st.T {
		r.Storage = 0
	}
	return r
}

// live tells whether a task can still have an effect; leftovers of things that ended otherwise do not matter.
func live(t Task, st *State) bool {
	acc := taskAcc(t)
	x := st.A[acc]
	switch t.H {
	case hVote:
		return st.Prop != nil && ns(st.Prop.EndTime) == t.T
	case hPoll:
		return st.Poll != nil && ns(st.Poll.EndTime) == t.T
	}
	if x == nil {
		return false
	}
	switch t.H {
	case hAccrue:
		return x.Del != nil && x.Del.NextAccrue == t.T
	case hRevoke:
		if x.Del != nil {
			for _, q := range x.Del.Reqs {
				if q.T == t.T {
					return true
				}
			}
		}
		return false
	case hRefreshI:
		return x.Prof != nil && x.Prof.ExtraImUntil == t.T
	case hRefresh:
		return x.Prof != nil
	}
	if x.Ref == nil {
		return false
	}
	switch t.H {
	case hDown:
		return x.Ref.DowngradeAt == t.T
	case hComp:
		return x.Ref.CompressionAt == t.T
	case hBanish:
		return x.Ref.BanishmentAt == t.T
	}
	return true
}

func liveTasks(st *State, skip map[string]bool) []Task {
	var r []Task
	for _, t := range st.Tasks {
		if t.H == hDown && skip[taskAcc(t)] {
			continue
		}
		if live(t, st) {
			r = append(r, t)
		}
	}
	sort.SliceStable(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.T != b.T {
			return a.T < b.T
		}
		if a.H != b.H {
			return a.H < b.H
		}
		return a.D < b.D
	})
	// the same thing due twice at the same moment is the same as once, except for refreshes
	var u []Task
	for i, t := range r {
		if i > 0 && t == r[i-1] && t.H != hRefresh {
			continue
		}
		u = append(u, t)
	}
	return u
}

// diffStates compares what must be (a) with what is (b).
func diffStates(s *Sim, a, b *State) []diff {
	var ds []diff
	add := func(props, sig, acc, f string, x ...interface{}) {
		ds = append(ds, diff{props: split(props), sig: sig, acc: acc, msg: s.name(acc) + ": " + fmt.Sprintf(f, x...)})
	}
	fuzzy := map[string]bool{} // see totals.depth11
	for acc, t := range treeTotals(b) {
		if t.depth11 {
			fuzzy[acc] = true
		}
	}
	for _, acc := range a.Order {
		x, y := a.A[acc], b.A[acc]
		if y == nil {
			continue
		}
		if x.C != y.C {
			less := false
			for d := range x.C {
				if y.C[d] < x.C[d] {
					less = true
				}
			}
			add("", "balance", acc, "balance %v instead of %v", y.C, x.C)
			ds[len(ds)-1].loss = less
		}
		if !isModule(acc) {
			if x.Exists != y.Exists || x.Num != y.Num {
				add("C28", "account", acc, "account exists %v number %d instead of %v %d", y.Exists, y.Num, x.Exists, x.Num)
			}
			if x.Seq != y.Seq {
				add("C04", "sequence", acc, "sequence %d instead of %d", y.Seq, x.Seq)
			}
		}
		if (x.Ref == nil) != (y.Ref == nil) {
			add("C09,C28", "ref-record", acc, "referral record exists: %v instead of %v", y.Ref != nil, x.Ref != nil)
		} else if x.Ref != nil {
			p, q := x.Ref, y.Ref
			if p.Referrer != q.Referrer {
				add("C09", "referrer", acc, "referrer %s instead of %s", s.name(q.Referrer), s.name(p.Referrer))
			}
			if mustJSON(p.Referrals) != mustJSON(q.Referrals) && len(p.Referrals)+len(q.Referrals) > 0 {
				add("C09", "referrals", acc, "referrals %v instead of %v", s.names(q.Referrals), s.names(p.Referrals))
			}
			if mustJSON(p.ActiveRefs) != mustJSON(q.ActiveRefs) && len(p.ActiveRefs)+len(q.ActiveRefs) > 0 {
				add("C09,C10", "active-referrals", acc, "active referrals %v instead of %v", s.names(q.ActiveRefs), s.names(p.ActiveRefs))
			}
			if p.Coins != q.Coins {
				add("C10", "coins-total", acc, "coins in the network %v instead of %v", q.Coins, p.Coins)
			}
			if p.Deleg != q.Deleg {
				add("C10", "delegated-total", acc, "delegated in the network %v instead of %v", q.Deleg, p.Deleg)
			}
			if p.Counts != q.Counts {
				add("C10", "counts", acc, "active counts %v instead of %v", q.Counts, p.Counts)
			}
			if p.Active != q.Active {
				add("C20", "active", acc, "active in the network: %v instead of %v", q.Active, p.Active)
			}
			if !(fuzzy[acc] && (p.Status >= 3 || q.Status >= 3)) {
				if p.Status != q.Status {
					add("C11", "status", acc, "status %d instead of %d (totals %v %v)", q.Status, p.Status, q.Deleg, q.Counts)
				}
				if p.DowngradeAt != q.DowngradeAt {
					add("C11", "downgrade-at", acc, "downgrade at %d instead of %d (now %d)", q.DowngradeAt, p.DowngradeAt, b.T)
				}
			}
			if p.CompressionAt != q.CompressionAt {
				add("C12", "compression-at", acc, "compression at %d instead of %d (now %d)", q.CompressionAt, p.CompressionAt, b.T)
			}
			if p.BanishmentAt != q.BanishmentAt {
				add("C12", "banishment-at", acc, "banishment at %d instead of %d (now %d, dust %d): before %+v, after %+v", q.BanishmentAt, p.BanishmentAt, b.T, a.P.Bank.DustDelegation, p, q)
			}
			if p.Banished != q.Banished {
				add("C12", "banished", acc, "banished %v instead of %v", q.Banished, p.Banished)
			}
			if p.Transition != q.Transition {
				add("C13", "transition", acc, "requested transition %q instead of %q", s.name(q.Transition), s.name(p.Transition))
			}
		}
		var d, e DelRec
		if x.Del != nil {
			d = *x.Del
		}
		if y.Del != nil {
			e = *y.Del
		}
		if d.NextAccrue != e.NextAccrue {
			add("C08", "next-accrue", acc, "next accrual %d instead of %d (now %d)", e.NextAccrue, d.NextAccrue, b.T)
		}
		if d.Missed != e.Missed {
			add("C08", "missed", acc, "missed part %q instead of %q", e.Missed, d.Missed)
		}
		if fmt.Sprint(d.Reqs) != fmt.Sprint(e.Reqs) {
			add("C07", "revoking", acc, "revoke requests %v instead of %v (now %d)", e.Reqs, d.Reqs, b.T)
		}
		if (x.Prof == nil) != (y.Prof == nil) {
			add("C28,C20", "profile-record", acc, "profile exists: %v instead of %v", y.Prof != nil, x.Prof != nil)
		} else if x.Prof != nil {
			p, q := x.Prof, y.Prof
			if p.ActiveUntil != q.ActiveUntil {
				add("C20", "active-until", acc, "active until %d instead of %d (now %d)", q.ActiveUntil, p.ActiveUntil, b.T)
			}
			if p.AutoPay != q.AutoPay {
				add("C20", "autopay", acc, "auto-pay %v instead of %v", q.AutoPay, p.AutoPay)
			}
			if p.Noding != q.Noding || p.Storage != q.Storage || p.Validator != q.Validator || p.Vpn != q.Vpn {
				add("C22", "flags", acc, "profile flags %v %v %v %v instead of %v %v %v %v", q.Noding, q.Storage, q.Validator, q.Vpn, p.Noding, p.Storage, p.Validator, p.Vpn)
			}
			if p.Nick != q.Nick {
				add("C22", "nick", acc, "nickname %q instead of %q", q.Nick, p.Nick)
			}
			if p.Card != q.Card {
				add("C22", "card", acc, "card %d instead of %d", q.Card, p.Card)
			}
			if p.StorageLimit != q.StorageLimit || p.StorageCur != q.StorageCur {
				add("C21", "storage", acc, "storage %d of %d instead of %d of %d", q.StorageCur, q.StorageLimit, p.StorageCur, p.StorageLimit)
			}
			if p.VpnLimit != q.VpnLimit || p.VpnCur != q.VpnCur {
				add("C21", "vpn", acc, "vpn %d of %d instead of %d of %d", q.VpnCur, q.VpnLimit, p.VpnCur, p.VpnLimit)
			}
			if p.ImExtra != q.ImExtra || p.ExtraImUntil != q.ExtraImUntil || p.AutoPayIm != q.AutoPayIm {
				add("C21", "im", acc, "messenger storage %d until %d auto %v instead of %d until %d auto %v (now %d)", q.ImExtra, q.ExtraImUntil, q.AutoPayIm, p.ImExtra, p.ExtraImUntil, p.AutoPayIm, b.T)
			}
		}
		if (x.Node == nil) != (y.Node == nil) {
			add("C14,C15", "node-record", acc, "validator record exists: %v instead of %v", y.Node != nil, x.Node != nil)
		} else if x.Node != nil {
			p, q := x.Node, y.Node
			if !(fuzzy[acc] && x.Ref != nil && (x.Ref.Status >= 3 || y.Ref.Status >= 3)) {
				if p.On != q.On {
					add("C15,C14", "on", acc, "validator on %v instead of %v", q.On, p.On)
				}
				if p.Score != q.Score {
					add("C15", "score", acc, "score %d instead of %d (strokes %d, row %d)", q.Score, p.Score, q.Strokes, q.OkRow)
				}
			}
			if p.LastPower != q.LastPower || p.LastPubKey != q.LastPubKey || p.PubKey != q.PubKey {
				add("C14", "node-key", acc, "validator key or power %s %s %d instead of %s %s %d", q.PubKey, q.LastPubKey, q.LastPower, p.PubKey, p.LastPubKey, p.LastPower)
			}
			if p.Strokes != q.Strokes || p.OkRow != q.OkRow || p.MissRow != q.MissRow {
				add("C16,C15", "node-stat", acc, "misses %d ok row %d miss row %d instead of %d %d %d", q.Strokes, q.OkRow, q.MissRow, p.Strokes, p.OkRow, p.MissRow)
			}
			if p.Jailed != q.Jailed || p.UnjailAt != q.UnjailAt || p.JailCount != q.JailCount {
				add("C16", "jail", acc, "jailed %v until %d times %d instead of %v %d %d (height %d)", q.Jailed, q.UnjailAt, q.JailCount, p.Jailed, p.UnjailAt, p.JailCount, b.H)
			}
			if p.Infractions != q.Infractions || p.Banned != q.Banned {
				add("C16", "ban", acc, "infractions %d banned %v instead of %d %v", q.Infractions, q.Banned, p.Infractions, p.Banned)
			}
			if p.Proposed != q.Proposed {
				add("C17", "proposed", acc, "proposed blocks %d instead of %d", q.Proposed, p.Proposed)
			}
			if p.Staff != q.Staff {
				add("C15,C18", "staff", acc, "staff %v instead of %v", q.Staff, p.Staff)
			}
		}
		if p, q := s.normEarn(x.Earn, a), s.normEarn(y.Earn, b); p != q {
			add("C27", "earn", acc, "earning marks %v instead of %v", q, p)
		}
	}
	gl := func(props, sig, f string, x ...interface{}) {
		ds = append(ds, diff{props: split(props), sig: sig, msg: fmt.Sprintf(f, x...)})
	}
	if a.Supply != b.Supply {
		gl("C03", "supply", "supply %v instead of %v", b.Supply, a.Supply)
	}
	if fmt.Sprint(a.Lottery) != fmt.Sprint(b.Lottery) {
		gl("C15", "lottery", "queue %v instead of %v", s.names(b.Lottery), s.names(a.Lottery))
	}
	ta, tb := liveTasks(a, fuzzy), liveTasks(b, fuzzy)
	if t, more := taskDiff(ta, tb); t != nil {
		what := "is missing"
		if more {
			what = "is not expected"
		}
		gl(taskProps[t.H], "task:"+t.H, "task %s of %s at %d %s (now %d)", t.H, s.name(taskAcc(*t)), t.T, what, b.T)
	}
	if fmt.Sprint(sortedCopy(a.Gov)) != fmt.Sprint(sortedCopy(b.Gov)) {
		gl("C18", "gov", "government %v instead of %v", s.names(b.Gov), s.names(a.Gov))
	}
	if (a.Prop == nil) != (b.Prop == nil) || a.Prop != nil && propText(*a.Prop) != propText(*b.Prop) {
		gl("C18", "proposal", "current proposal %v instead of %v", b.Prop, a.Prop)
	} else if a.Prop != nil {
		if fmt.Sprint(sortedCopy(a.Agreed)) != fmt.Sprint(sortedCopy(b.Agreed)) || fmt.Sprint(sortedCopy(a.Disagr)) != fmt.Sprint(sortedCopy(b.Disagr)) {
			gl("C18", "votes", "votes %v/%v instead of %v/%v", s.names(b.Agreed), s.names(b.Disagr), s.names(a.Agreed), s.names(a.Disagr))
		}
		if a.StartBlock != b.StartBlock {
			gl("C18", "start-block", "start block %d instead of %d", b.StartBlock, a.StartBlock)
		}
	}
	if x, y := propHist(a), propHist(b); x != y {
		gl("C18", "proposal-history", "history of proposals %s instead of %s", tail(y), tail(x))
	}
	if (a.Poll == nil) != (b.Poll == nil) || a.Poll != nil && pollText(*a.Poll) != pollText(*b.Poll) {
		gl("C19", "poll", "current poll %v instead of %v", b.Poll, a.Poll)
	} else if a.PollYes != b.PollYes || a.PollNo != b.PollNo || mustJSON(a.Answers) != mustJSON(b.Answers) {
		gl("C19", "answers", "answers %d/%d %v instead of %d/%d %v", b.PollYes, b.PollNo, b.Answers, a.PollYes, a.PollNo, a.Answers)
	}
	if x, y := pollHist(a), pollHist(b); x != y {
		gl("C19", "poll-history", "history of polls %s instead of %s", tail(y), tail(x))
	}
	if a.Plan != b.Plan || a.PlanTime != b.PlanTime {
		gl("C25,C18", "plan", "upgrade plan %q at %d instead of %q at %d", b.Plan, b.PlanTime, a.Plan, a.PlanTime)
	}
	if a.H == b.H && a.LastProposer != b.LastProposer {
		gl("C17", "proposer", "proposer of the last block %s instead of %s", s.name(b.LastProposer), s.name(a.LastProposer))
	}
	pa, pb := paramsText(&a.P), paramsText(&b.P)
	for i := range pa {
		if pa[i] != pb[i] {
			gl("C18"+paramProps[i], "params", "parameters %s instead of %s", pb[i], pa[i])
		}
	}
	return ds
}

var paramProps = []string{"", ",C17,C26", ",C07,C08", ",C13,C25", ",C21", ",C15", ",C27", ",C19"}

func paramsText(p *Params) []string {
	srt := func(x []string) string { return fmt.Sprint(sortedCopy(x)) }
	b, pr, er := p.Bank, p.Prof, p.Earn
	b.BlockedSenders, pr.Creators, pr.StorageSigners, pr.VpnSigners, pr.TokenRateSigners, er.Signers = nil, nil, nil, nil, nil, nil
	return []string{fmt.Sprint(p.DayNs), b.String() + mustJSON(b) + srt(p.Bank.BlockedSenders), mustJSON(p.Del), mustJSON(p.Ref),
		mustJSON(pr) + srt(p.Prof.Creators) + srt(p.Prof.StorageSigners) + srt(p.Prof.VpnSigners) + srt(p.Prof.TokenRateSigners),
		mustJSON(p.Nod), mustJSON(er) + srt(p.Earn.Signers), mustJSON(p.Vot)}
}

func tail(s string) string {
	if len(s) > 400 {
		return "..." + s[len(s)-400:]
	}
	return s
}

func propHist(st *State) string {
	var r []string
	for _, h := range st.PropHist {
		r = append(r, fmt.Sprintf("%d:%d %s gov %v agreed %v against %v", h.Finished, h.Started, h.Body, h.Gov, h.Agreed, h.Disagr))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func pollHist(st *State) string {
	var r []string
	for _, h := range st.PollHist {
		r = append(r, fmt.Sprintf("%s %d/%d %d", h.Body, h.Yes, h.No, h.Decision))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// taskDiff finds the first task that is in one list only.
func taskDiff(a, b []Task) (*Task, bool) {
	cnt := map[Task]int{}
	for _, t := range a {
		cnt[t]++
	}
	for i, t := range b {
		cnt[t]--
		if cnt[t] < 0 {
			return &b[i], true
		}
	}
	for i, t := range a {
		if cnt[t] > 0 {
			return &a[i], false
		}
	}
	return nil, false
}

// relax resolves what the properties leave open in favour of what happened.
func (m *M) relax(post *State) {
	for acc := range m.loose {
		x, y := m.st.A[acc], post.A[acc]
		if x.Node != nil && y.Node != nil && x.Node.On && !y.Node.On {
			m.switchOff(acc)
		}
	}
	for acc := range m.alt {
		x, y := m.st.A[acc], post.A[acc]
		if x.Node != nil && y.Node != nil && x.Ref != nil && x.Node.Score != y.Node.Score && y.Node.Score == scoreOf(x) {
			x.Node.Score = y.Node.Score
		}
	}
	for acc, x := range m.st.A {
		if pre := m.pre.A[acc]; x.Exists && !pre.Exists {
			y := post.A[acc]
			if y.Exists {
				x.Num = y.Num
				if x.Prof != nil {
					x.Prof.Card = x.Num ^ m.st.P.Prof.CardMagic
				}
			}
		}
	}
}

func (s *Sim) notes(m *M) {
	for _, n := range m.notes {
		s.st.Crossings[n]++
	}
	for h, n := range m.tasksDone {
		s.st.Ops["task "+h] += int64(n)
	}
}

func (s *Sim) compareBegin(pre *State, p *beginPred, post *State) {
	m := p.m
	m.relax(post)
	s.notes(m)
	post.G = m.st.G
	labels := map[string]bool{"C17": true}
	for h := range m.tasksDone {
		for _, x := range split(taskProps[h]) {
			labels[x] = true
		}
	}
	var base []string
	for x := range labels {
		base = append(base, x)
	}
	sort.Strings(base)
	for _, d := range diffStates(s, m.st, post) {
		props := d.props
		if len(props) == 0 || d.sig == "supply" {
			props = append(append([]string{}, props...), base...)
		} else if len(m.tasksDone) > 0 {
			// a derived difference may come from a task that did not do its work
			props = append(append([]string{}, props...), base[:]...)
		}
		s.report(props, "begin:"+d.sig, fmt.Sprintf("%s; tasks %v", d.msg, m.tasksDone))
	}
	s.checkState(post)
	if len(post.Tasks) > 0 && post.Tasks[0].T <= post.T {
		t := post.Tasks[0]
		s.report(split(taskProps[t.H]+",C06"), "overdue:"+t.H, fmt.Sprintf("task %s of %s due at %d is still there at %d", t.H, s.name(taskAcc(t)), t.T, post.T))
	}
}

// --- transactions

type txPred struct {
	ante    *State // after the ante handler; nil when the transaction is refused there
	why     string
	props   string
	m       *M       // messages
	fl      *failure // why the messages fail
	failed  int      // index of the failing message
	signers map[string]bool
}

func (s *Sim) predictTx(pre *State, t *Tx, raw []byte) *txPred {
	p := &txPred{signers: map[string]bool{}}
	no := func(props, why string) *txPred { p.ante, p.why, p.props = nil, why, props; return p }
	if t.Raw != nil {
		return no("C04", "garbage")
	}
	sent := s.m.sent[t.ID]
	if t.Resend != 0 {
		sent = s.m.sent[t.Resend]
		if sent == nil {
			return no("C04", "nothing to resend")
		}
	} else {
		sent = s.planOf(t)
		if t.ID != 0 {
			s.m.sent[t.ID] = sent
		}
	}
	x := sent.t
	if len(x.Msgs) == 0 {
		return no("C04", "no messages")
	}
	for _, g := range x.Msgs {
		if err := g.build(s.acct).ValidateBasic(); err != nil {
			return no("", "invalid message: "+err.Error())
		}
	}
	h, now := s.hdr.Height, s.hdr.Time.UnixNano()
	if x.TimeoutH > 0 && h > x.TimeoutH {
		return no("C04", "timed out")
	}
	m := newM(s, pre, now, h)
	for _, a := range sent.signers {
		p.signers[a] = true
		if !m.a(a).Exists {
			return no("C04,C05", "signer has no account")
		}
	}
	if x.Fee > 0 {
		if x.FeeD != dM {
			return no("C26,C17", "fee in a coin that cannot be sent")
		}
		if m.a(sent.signers[0]).C[dM] < x.Fee {
			return no("C17", "cannot pay for gas")
		}
	}
	if x.BadKey {
		return no("C05", "foreign signature")
	}
	if x.Chain != "" && x.Chain != chainID {
		return no("C04,C05", "signed for another chain")
	}
	for i, a := range sent.signers {
		if m.a(a).Num != sent.nums[i] || m.a(a).Seq != sent.seqs[i] {
			return no("C04", "sequence or account number do not match")
		}
	}
	if x.Fee > 0 {
		m.move(sent.signers[0], feeColl, dM, x.Fee, "C17")
	}
	for _, a := range sent.signers {
		m.a(a).Seq++
	}
	m.settle()
	p.ante = m.st.clone()
	p.m = m
	p.fl = m.try(func() {
		for i, g := range x.Msgs {
			p.failed = i
			m.msg(g)
			m.settle()
		}
	})
	return p
}

func (s *Sim) planOf(t *Tx) *sentTx {
	r := &sentTx{t: *t}
	for _, g := range t.Msgs {
		a := s.acct(g.signerOf())
		if has(r.signers, a) {
			continue
		}
		x := s.cur.A[a]
		if x == nil {
			x = &Acct{}
		}
		r.signers = append(r.signers, a)
		r.nums = append(r.nums, x.Num)
		r.seqs = append(r.seqs, uint64(int64(x.Seq)+int64(t.SeqOff)))
	}
	return r
}

func (s *Sim) compareTx(pre *State, t *Tx, p *txPred, res abci.ResponseDeliverTx, post *State) {
	post.G = pre.G
	var ops []string
	ol := map[string]bool{}
	msgs := t.Msgs
	if t.Resend != 0 && s.m.sent[t.Resend] != nil {
		msgs = s.m.sent[t.Resend].t.Msgs
	}
	for _, g := range msgs {
		ops = append(ops, g.Op)
		for _, x := range split(opProps[g.Op]) {
			ol[x] = true
		}
	}
	var labels []string
	for x := range ol {
		labels = append(labels, x)
	}
	sort.Strings(labels)
	opn := strings.Join(ops, "+")
	if len(ops) > 1 {
		opn = "multi"
	}
	desc := fmt.Sprintf("%v", mustJSON(msgs))
	rep := func(base []string, sig string, want *State, tag string) int {
		ds := diffStates(s, want, post)
		for _, d := range ds {
			props := append(append([]string{}, base...), d.props...)
			if d.loss && !p.signers[d.acc] && !isModule(d.acc) {
				props = append(props, "C05")
			}
			s.report(props, sig+":"+opn+":"+d.sig, fmt.Sprintf("%s after %s: %s", d.msg, tag, desc))
		}
		return len(ds)
	}
	oog := res.Codespace == sdkerrors.RootCodespace && res.Code == sdkerrors.ErrOutOfGas.ABCICode()
	if oog {
		s.st.Crossings["out of gas"]++
		ds := diffStates(s, pre, post)
		if len(ds) == 0 || p.ante == nil {
			if len(ds) > 0 {
				rep([]string{"C04"}, "oog", pre, "a transaction that ran out of gas")
			}
			return
		}
		rep([]string{"C04"}, "oog", p.ante, "a transaction that ran out of gas")
		post.G = pre.G
		return
	}
	if p.ante == nil {
		if p.why != "" {
			s.st.Crossings["tx refused: "+strings.SplitN(p.why, ":", 2)[0]]++
		}
		if res.Code == 0 {
			props := split(p.props)
			if len(props) == 0 {
				props = labels
			}
			s.report(props, "accepted:"+p.why, fmt.Sprintf("a transaction is accepted that has to be refused (%s): %s", p.why, desc))
			return
		}
		base := []string{"C04"}
		if p.props != "" {
			base = append(base, split(p.props)...)
		}
		rep(base, "refused-effect", pre, "a refused transaction ("+p.why+")")
		return
	}
	if p.fl != nil {
		s.st.Crossings["msg refused: "+opOf(msgs, p.failed)+": "+shortWhy(p.fl.why)]++
		if res.Code == 0 {
			props := append(split(p.fl.props), split(opProps[opOf(msgs, p.failed)])...)
			s.report(props, "accepted:"+opOf(msgs, p.failed)+":"+shortWhy(p.fl.why), fmt.Sprintf("executed although it must be refused (%s): %s", p.fl.why, desc))
			return
		}
		rep(append([]string{"C04"}, labels...), "failed-effect", p.ante, "a failed transaction ("+p.fl.why+")")
		return
	}
	m := p.m
	m.relax(post)
	s.notes(m)
	if res.Code != 0 {
		props := append([]string{}, labels...)
		if len(msgs) > 1 {
			props = append(props, "C04")
		}
		if strings.Contains(res.Log, "panic") || res.Code == 111222 {
			props = append(props, "C24")
		}
		s.report(props, "refused:"+opn+":"+logSig(res.Log), fmt.Sprintf("refused although valid: %s: %s", tailLog(res.Log), desc))
		rep([]string{"C04"}, "failed-effect", p.ante, "a failed transaction")
		return
	}
	post.G = m.st.G
	rep(labels, "tx", m.st, "a transaction")
	nums := map[uint64]string{}
	for acc, x := range post.A {
		if x.Exists {
			if o, dup := nums[x.Num]; dup {
				s.report([]string{"C28"}, "account-number", fmt.Sprintf("%s and %s have the same account number", s.name(o), s.name(acc)))
			}
			nums[x.Num] = acc
		}
	}
}

func logSig(l string) string {
	l = strings.SplitN(l, "\n", 2)[0]
	var b strings.Builder
	for _, c := range l {
		if c >= '0' && c <= '9' {
			continue
		}
		b.WriteRune(c)
	}
	r := b.String()
	if i := strings.Index(r, "artr"); i >= 0 {
		r = r[:i]
	}
	if len(r) > 60 {
		r = r[:60]
	}
	return r
}

func tailLog(l string) string {
	if len(l) > 1500 {
		return l[:1500]
	}
	return l
}

func opOf(ms []Msg, i int) string {
	if i < len(ms) {
		return ms[i].Op
	}
	return "?"
}

func shortWhy(w string) string {
	if i := strings.IndexAny(w, ":"); i >= 0 {
		return w[:i]
	}
	return w
}

// --- invariants over one state

func (s *Sim) checkState(st *State) {
	var sum Coins
	for _, x := range st.A {
		for d := range sum {
			sum[d] += x.C[d]
		}
	}
	if sum != st.Supply {
		s.report([]string{"C03"}, "supply-sum", fmt.Sprintf("supply %v but the balances sum up to %v", st.Supply, sum))
	}
	for _, o := range st.Odd {
		p := strings.SplitN(o, "|", 2)
		s.report([]string{p[0]}, "odd", p[1])
	}
	tot := treeTotals(st)
	tasks := map[Task]bool{}
	for _, t := range st.Tasks {
		tasks[t] = true
	}
	need := func(props string, t int64, h, d, acc string) {
		if t > st.T && !tasks[Task{t, h, d}] {
			s.report(split(props+",C06"), "no-task:"+h, fmt.Sprintf("%s: nothing is scheduled for %s at %d", s.name(acc), h, t))
		}
	}
	keys := map[string]string{}
	for _, acc := range st.Order {
		x := st.A[acc]
		if r := x.Ref; r != nil {
			for p, n := r.Referrer, 0; p != ""; n++ {
				q := st.A[p]
				if q == nil || q.Ref == nil {
					s.report([]string{"C09"}, "orphan", fmt.Sprintf("%s has the referrer %s that is not in the network", s.name(acc), s.name(p)))
					break
				}
				if n > len(st.Order) {
					s.report([]string{"C09"}, "cycle", s.name(acc)+" is its own ancestor")
					break
				}
				p = q.Ref.Referrer
			}
			t := tot[acc]
			if r.Banished {
				if len(r.Referrals) > 0 {
					s.report([]string{"C09", "C12"}, "banished-referrals", s.name(acc)+" is banished but has referrals")
				}
			} else {
				if fmt.Sprint(t.refs) != fmt.Sprint(r.Referrals) {
					s.report([]string{"C09"}, "lists", fmt.Sprintf("%s lists the referrals %v but %v have it as referrer", s.name(acc), s.names(r.Referrals), s.names(t.refs)))
				}
				if fmt.Sprint(t.active) != fmt.Sprint(r.ActiveRefs) {
					s.report([]string{"C10", "C09"}, "active-lists", fmt.Sprintf("%s lists the active referrals %v instead of %v", s.name(acc), s.names(r.ActiveRefs), s.names(t.active)))
				}
				if t.coins != r.Coins || t.deleg != r.Deleg || t.counts != r.Counts {
					s.report([]string{"C10"}, "totals", fmt.Sprintf("%s has totals %v %v %v, recomputed %v %v %v", s.name(acc), r.Coins, r.Deleg, r.Counts, t.coins, t.deleg, t.counts))
				}
			}
			if a := x.Prof.active(st.T); a != r.Active {
				s.report([]string{"C20"}, "activity", fmt.Sprintf("%s: subscription active %v, active in the network %v", s.name(acc), a, r.Active))
			}
			if r.Referrer != "" {
				need("C12", r.CompressionAt, hComp, acc, acc)
			}
			need("C12", r.BanishmentAt, hBanish, acc, acc)
			need("C11", r.DowngradeAt, hDown, acc, acc)
			if r.Transition != "" {
				found := false
				for _, t := range st.Tasks {
					found = found || t.H == hTimeout && t.D == acc
				}
				if !found {
					s.report([]string{"C13", "C06"}, "no-task:"+hTimeout, s.name(acc)+" requested a transition that never times out")
				}
			}
		}
		var due int64
		if x.Del != nil {
			for _, q := range x.Del.Reqs {
				due += q.Amt
				if q.Amt > 0 {
					need("C07", q.T, hRevoke, rawAddr(acc), acc)
				}
			}
			need("C08", x.Del.NextAccrue, hAccrue, rawAddr(acc), acc)
		}
		if due != x.C[dR] {
			s.report([]string{"C07"}, "revoking-sum", fmt.Sprintf("%s has %d coins being revoked but its requests sum up to %d", s.name(acc), x.C[dR], due))
		}
		if x.Prof != nil {
			if x.Prof.active(st.T) {
				need("C20", x.Prof.ActiveUntil, hRefresh, rawAddr(acc), acc)
			}
			if x.Prof.ImExtra != 0 {
				need("C21", x.Prof.ExtraImUntil, hRefreshI, rawAddr(acc), acc)
			}
		}
		if n := x.Node; n.active() {
			if o, dup := keys[n.PubKey]; dup {
				s.report([]string{"C14"}, "same-key", fmt.Sprintf("%s and %s are active validators with the same key", s.name(o), s.name(acc)))
			}
			keys[n.PubKey] = acc
		}
	}
	if st.Prop != nil {
		need("C18", ns(st.Prop.EndTime), hVote, "", "")
	}
	if st.Poll != nil {
		need("C19", ns(st.Poll.EndTime), hPoll, "", "")
		var y, n uint64
		for _, a := range st.Answers {
			if a {
				y++
			} else {
				n++
			}
		}
		if y != st.PollYes || n != st.PollNo {
			s.report([]string{"C19"}, "poll-count", fmt.Sprintf("%d/%d answers are counted as %d/%d", y, n, st.PollYes, st.PollNo))
		}
	}
	for i, g := range st.Gov {
		if has(st.Gov[:i], g) {
			s.report([]string{"C18"}, "gov-duplicate", s.name(g)+" is in the government twice")
		}
	}
	for _, g := range st.Agreed {
		if has(st.Disagr, g) {
			s.report([]string{"C18"}, "both-votes", s.name(g)+" has voted both ways")
		}
	}
}

// checkIndexes looks everybody up by nickname and card number.
func (s *Sim) checkIndexes(st *State) {
	a := s.reps[0].app
	ctx, _ := a.NewContext(false, s.hdr).CacheContext()
	pk := a.GetProfileKeeper()
	owner := map[string]string{}
	for _, acc := range st.Order {
		p := st.A[acc].Prof
		if p == nil {
			continue
		}
		if p.Nick != "" {
			k := strings.ToLower(strings.TrimSpace(p.Nick))
			if o, dup := owner[k]; dup {
				s.report([]string{"C22"}, "same-nick", fmt.Sprintf("%s and %s have the same nickname %q", s.name(o), s.name(acc), p.Nick))
			}
			owner[k] = acc
			s.nicks[p.Nick] = true
		}
		if p.Card != 0 {
			if got := pk.GetProfileAccountByCardNumber(ctx, p.Card); string(got) != rawAddr(acc) {
				s.report([]string{"C22"}, "card-lookup", fmt.Sprintf("the card number of %s leads to %s", s.name(acc), s.name(got.String())))
			}
			if st.A[acc].Exists && p.Card != st.A[acc].Num^st.P.Prof.CardMagic {
				s.report([]string{"C22"}, "card-value", fmt.Sprintf("the card number of %s is %d", s.name(acc), p.Card))
			}
		}
	}
	for n := range s.nicks {
		got := pk.GetProfileAccountByNickname(ctx, n)
		want := owner[strings.ToLower(strings.TrimSpace(n))]
		if want == "" && got != nil || want != "" && string(got) != rawAddr(want) {
			s.report([]string{"C22"}, "nick-lookup", fmt.Sprintf("nickname %q leads to %s instead of %s", n, s.name(sdk.AccAddress(got).String()), s.name(want)))
		}
	}
}

// checkValset compares the records with the validator set of the consensus engine two blocks ahead.
func (s *Sim) checkValset(set *tmtypes.ValidatorSet) {
	have := map[string]int64{}
	for _, v := range set.Validators {
		have[strings.ToLower(v.Address.String())] = v.VotingPower
	}
	rec := map[string]int64{}
	for _, acc := range s.cur.Order {
		n := s.cur.A[acc].Node
		if n == nil || n.LastPower == 0 {
			continue
		}
		if n.LastPubKey == "" {
			s.report([]string{"C14"}, "power-without-key", s.name(acc)+" has voting power but no key")
			continue
		}
		rec[consHexOf(n.LastPubKey)] += n.LastPower
	}
	for k, p := range rec {
		if have[k] != p {
			s.report([]string{"C14"}, "valset", fmt.Sprintf("records say that key %s has power %d, the validator set has %d", k, p, have[k]))
		}
	}
	for k, p := range have {
		if rec[k] != p {
			s.report([]string{"C14"}, "valset", fmt.Sprintf("the validator set has key %s with power %d, records say %d", k, p, rec[k]))
		}
	}
}
