package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/gogo/protobuf/proto"

	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	abci "github.com/tendermint/tendermint/abci/types"

	bank "github.com/arterynetwork/artr/x/bank/types"
	deleg "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// Queries are asked at any moment, also while a block is being executed; the answer has to be what the committed state
// of the asked height says.

type codecMsg interface {
	proto.Message
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
}

type asker struct {
	s      *Sim
	r      *Replica
	st     *State // committed state of the asked height
	h      int64
	latest bool
	timed  bool // the node knows the time of the asked state
	what   string
	exp    string
}

// ask sends a gRPC query; false: it was refused.
func (q *asker) ask(module, method string, req, resp codecMsg) bool {
	b, err := req.Marshal()
	if err != nil {
		panic(err)
	}
	h := q.h
	if q.latest {
		h = 0
	}
	q.what = fmt.Sprintf("%s.%s %v", module, method, req)
	res := q.r.app.Query(abci.RequestQuery{Path: "/artery." + module + ".v1beta1.Query/" + method, Data: b, Height: h})
	if res.Code != 0 {
		q.exp = res.Log
		return false
	}
	if err := resp.Unmarshal(res.Value); err != nil {
		q.bad("undecodable answer: " + err.Error())
	}
	return true
}

// old sends a query to the legacy end points.
func (q *asker) old(path string, req interface{}, resp interface{}) bool {
	var b []byte
	if req != nil {
		b = codec.NewLegacyAmino().MustMarshalJSON(req)
	}
	h := q.h
	if q.latest {
		h = 0
	}
	q.what = fmt.Sprintf("custom/%s %s", path, b)
	res := q.r.app.Query(abci.RequestQuery{Path: "custom/" + path, Data: b, Height: h})
	if res.Code != 0 {
		q.exp = res.Log
		return false
	}
	if x, ok := resp.(*[]byte); ok {
		*x = res.Value
	} else if err := encCfg.Amino.UnmarshalJSON(res.Value, resp); err != nil {
		q.bad("undecodable answer: " + err.Error())
	}
	return true
}

func (q *asker) bad(msg string) {
	if q.r.db.dead {
		return // a disk fault struck while it was answered
	}
	props := []string{"C29"}
	sig := "query:" + strings.Join(strings.Fields(q.what)[:1], "")
	when := "a past height"
	if q.latest {
		when = "the last height"
	}
	q.s.report(props, sig, fmt.Sprintf("replica %d (at height %d, %s %d asked) answers %s wrongly: %s", q.r.id, q.r.app.LastBlockHeight(), when, q.h, q.what, msg))
}

// refused checks that a query was refused exactly if it had to.
func (q *asker) refused(ok, want bool) bool {
	if !q.latest && !ok {
		return true // the state of that height may have been pruned
	}
	if ok != want {
		if ok {
			q.bad("it is answered, although there is nothing to answer")
		} else {
			q.bad("refused: " + q.exp)
		}
		return true
	}
	return !ok
}

func (q *asker) same(got, want interface{}) {
	if !reflect.DeepEqual(got, want) {
		q.bad(fmt.Sprintf("%s, committed is %s", mustJSON(got), mustJSON(want)))
	}
}

func optJSON(x interface{}) string {
	if x == nil || reflect.ValueOf(x).Kind() == reflect.Ptr && reflect.ValueOf(x).IsNil() {
		return "nothing"
	}
	return mustJSON(x)
}

const queryKinds = 30

// query asks one thing, decided by n, of a replica that may be in the middle of a block.
func (s *Sim) query(r *Replica, n int64) {
	at := r.app.LastBlockHeight()
	q := &asker{s: s, r: r, h: at, latest: true, timed: !r.fresh || at > r.height}
	rnd := rand.New(rand.NewSource(n))
	if rnd.Intn(4) == 0 {
		q.h, q.latest, q.timed = at-1-rnd.Int63n(6), false, false
		// cosmos-sdk answers for a pruned height as if nothing were there
		var k, e, i int64
		if _, err := fmt.Sscanf(r.pruning, "%d,%d,%d", &k, &e, &i); err == nil && q.h <= at-k {
			return
		}
	}
	st := s.com[q.h]
	if st == nil || q.h <= s.base {
		return
	}
	q.st = st
	s.st.Crossings["queries compared"]++
	acc := st.Order[rnd.Intn(len(st.Order))]
	for k := 0; k < 2 && (st.A[acc].Ref == nil || st.A[acc].Prof == nil); k++ {
		acc = st.Order[rnd.Intn(len(st.Order))]
	}
	x := st.A[acc]
	m := func() *M { return newM(s, st, st.T, st.H) }
	switch kind := rnd.Intn(queryKinds); kind {
	case 0:
		var p bank.BalanceResponse
		if !q.refused(q.ask("bank", "Balance", &bank.BalanceRequest{AccAddress: acc}, &p), true) {
			var odd []string
			q.same(coinsOf(p.Balance, &odd, acc), x.C)
		}
	case 1:
		var p bank.SupplyResponse
		if !q.refused(q.ask("bank", "Supply", &bank.SupplyRequest{}, &p), true) {
			var odd []string
			q.same(coinsOf(p.Supply.Total, &odd, "supply"), st.Supply)
		}
	case 2, 3:
		light := kind == 3
		var p referral.GetResponse
		ok := q.ask("referral", "Get", &referral.GetRequest{AccAddress: acc, Light: light}, &p)
		if ok && p.Info.IsEmpty() {
			ok = false // that is how "not in the structure" is answered
		}
		if !q.refused(ok, x.Ref != nil) {
			var odd []string
			want := x.Ref.clone()
			if light {
				want.Referrals, want.ActiveRefs = []string{}, []string{}
			}
			q.same(refOf(p.Info, &odd, acc), want)
		}
	case 4, 5:
		depth := rnd.Intn(13)
		var p referral.CoinsResponse
		req := &referral.CoinsRequest{AccAddress: acc, MaxDepth: uint32(depth)}
		ok := false
		if kind == 4 {
			ok = q.ask("referral", "Coins", req, &p)
		} else {
			ok = q.old("referral/coins", req, &p)
		}
		if x.Ref == nil {
			if ok {
				q.same([]string{p.Total.String(), p.Delegated.String()}, []string{"0", "0"})
			}
		} else if !q.refused(ok, true) {
			d := lines(x.Ref.Status)
			if depth != 0 && depth < d {
				d = depth
			}
			q.same([]string{p.Total.String(), p.Delegated.String()}, []string{fmt.Sprint(sumTo(x.Ref.Coins, d)), fmt.Sprint(sumTo(x.Ref.Deleg, d))})
		}
	case 6:
		to := 1 + rnd.Intn(8)
		if to == 8 {
			to = 9
		}
		if x.Ref == nil {
			return
		}
		var p referral.CheckStatusResponse
		if q.refused(q.ask("referral", "CheckStatus", &referral.CheckStatusRequest{AccAddress: acc, Status: referral.Status(to)}, &p), true) {
			return
		}
		tot := map[string]*totals{}
		for a, y := range st.A {
			if y.Ref != nil {
				tot[a] = &totals{coins: y.Ref.Coins, deleg: y.Ref.Deleg, counts: y.Ref.Counts, refs: y.Ref.Referrals, active: y.Ref.ActiveRefs}
			}
		}
		q.same(p.Result.Overall, !x.Ref.Banished && meets(to, acc, tot))
	case 7, 8:
		dest := st.Order[rnd.Intn(len(st.Order))]
		if !q.timed {
			return
		}
		var p referral.ValidateTransitionResponse
		if q.refused(q.ask("referral", "ValidateTransition", &referral.ValidateTransitionRequest{Subject: acc, Target: dest}, &p), true) {
			return
		}
		w := m()
		fl := w.try(func() {
			w.validTransition(acc, dest)
			if x.Ref.Transition != "" {
				w.fail("C13", "already requested")
			}
		})
		if p.Ok != (fl == nil) {
			q.bad(fmt.Sprintf("ok=%v %s; a request would be refused: %v", p.Ok, p.Error, fl))
		}
	case 9:
		to := 5 + rnd.Intn(4)
		if to == 8 {
			to = 9
		}
		var p referral.AllWithStatusResponse
		if q.ask("referral", "AllWithStatus", &referral.AllWithStatusRequest{Status: referral.Status(to)}, &p) {
			want := []string{}
			for _, a := range st.Order {
				if y := st.A[a].Ref; y != nil && y.Status == to {
					want = append(want, a)
				}
			}
			sort.Strings(want)
			q.same(sortedCopy(p.Accounts), want)
		} else if q.latest {
			q.bad("refused: " + q.exp)
		}
	case 10:
		var p deleg.GetResponse
		if !q.refused(q.ask("delegating", "Get", &deleg.GetRequest{AccAddress: acc}, &p), true) {
			var d *DelRec
			if p.Data != nil {
				d = delOf(p.Data)
			}
			q.same(optJSON(d), optJSON(x.Del))
		}
	case 11, 12:
		var p deleg.RevokingResponse
		ok := false
		if kind == 11 {
			ok = q.ask("delegating", "Revoking", &deleg.RevokingRequest{AccAddress: acc}, &p)
		} else {
			ok = q.old("delegating/revoking", deleg.RevokingRequest{AccAddress: acc}, &p)
		}
		if !q.refused(ok, true) {
			d := delOf(&deleg.Record{Requests: p.Revoking})
			var want *DelRec
			if x.Del != nil && len(x.Del.Reqs) > 0 {
				want = &DelRec{Reqs: x.Del.Reqs}
			}
			q.same(optJSON(d), optJSON(want))
		}
	case 13, 14, 15:
		for k := 0; k < 8 && (x.Del == nil || x.Del.NextAccrue == 0); k++ {
			acc = st.Order[rnd.Intn(len(st.Order))]
			x = st.A[acc]
		}
		if rnd.Intn(2) == 0 {
			for _, a := range st.Order { // a day of which a part does not count
				if y := st.A[a]; y.Del != nil && y.Del.NextAccrue != 0 && y.Del.Missed != "" && (x.Del == nil || x.Del.Missed == "" || rnd.Intn(3) == 0) {
					acc, x = a, y
				}
			}
		}
		var p deleg.AccumulationResponse
		ok := q.ask("delegating", "Accumulation", &deleg.AccumulationRequest{AccAddress: acc}, &p)
		if x.Prof == nil {
			return
		}
		if q.refused(ok, x.Del != nil && x.Del.NextAccrue != 0) || !q.timed {
			return
		}
		w := m()
		pc := w.percent(acc)
		day := w.day()
		start := x.Del.NextAccrue - day
		part := big.NewRat(st.T-start, day)
		full := new(big.Rat).Set(bigI(1))
		if x.Del.Missed != "" {
			a, b := numDen(x.Del.Missed)
			part.Sub(part, new(big.Rat).SetFrac(a, b))
			full.Sub(full, new(big.Rat).SetFrac(a, b))
		}
		total, cur := truncI(mul(pc, full, bigI(x.C[dD]))), truncI(mul(pc, part, bigI(x.C[dD])))
		got := rat(p.PercentDaily)
		if got.Cmp(pc) != 0 || p.Start.UnixNano() != start || p.End.UnixNano() != x.Del.NextAccrue || abs(p.TotalUartrs-total) > 1 || abs(p.CurrentUartrs-cur) > 1 ||
			p.Percent != truncI(mul(pc, bigI(3000))) {
			q.bad(fmt.Sprintf("%s; should be: from %d to %d daily %s total %d so far %d", mustJSON(p), start, x.Del.NextAccrue, pc, total, cur))
		}
		if cur > 0 {
			s.st.Crossings["query: accumulation running"]++
		}
	case 16:
		var p profile.GetByAddressResponse
		if !q.refused(q.ask("profile", "GetByAddress", &profile.GetByAddressRequest{Address: acc}, &p), x.Prof != nil) {
			q.same(profOf(&p.Profile), x.Prof)
		}
	case 17, 18:
		nick := ""
		if x.Prof != nil {
			nick = x.Prof.Nick
		}
		if nick == "" || rnd.Intn(4) == 0 {
			ns := []string{}
			for k := range s.nicks {
				ns = append(ns, k)
			}
			sort.Strings(ns)
			if len(ns) == 0 {
				return
			}
			nick = ns[rnd.Intn(len(ns))]
		}
		if rnd.Intn(2) == 0 {
			nick = strings.ToUpper(nick)
		}
		want := ""
		for _, a := range st.Order {
			if y := st.A[a].Prof; y != nil && y.Nick != "" && strings.EqualFold(strings.TrimSpace(y.Nick), strings.TrimSpace(nick)) {
				want = a
			}
		}
		var p profile.GetByNicknameResponse
		ok := false
		if kind == 17 {
			ok = q.ask("profile", "GetByNickname", &profile.GetByNicknameRequest{Nickname: nick}, &p)
		} else {
			ok = q.old("profile/"+profile.QueryProfileByNickname, profile.GetByNicknameRequest{Nickname: nick}, &p)
		}
		if !q.refused(ok, want != "") {
			q.same(p.Address, want)
			if p.Address == want {
				q.same(profOf(&p.Profile), st.A[want].Prof)
			}
		}
	case 19:
		if x.Prof == nil || x.Prof.Card == 0 {
			return
		}
		var p profile.GetByCardNumberResponse
		if !q.refused(q.ask("profile", "GetByCardNumber", &profile.GetByCardNumberRequest{CardNumber: x.Prof.Card}, &p), true) {
			q.same(p.Address, acc)
			q.same(profOf(&p.Profile), x.Prof)
		}
	case 20, 21:
		if x.Node == nil {
			for _, a := range st.Order {
				if st.A[a].Node != nil && (x.Node == nil || rnd.Intn(3) == 0) {
					acc, x = a, st.A[a]
				}
			}
		}
		if rnd.Intn(2) == 0 {
			for _, a := range st.Order {
				if y := st.A[a].Node; y != nil && y.LastPower > 0 && rnd.Intn(3) == 0 {
					acc, x = a, st.A[a]
				}
			}
		}
		if kind == 20 {
			var p noding.GetResponse
			if !q.refused(q.ask("noding", "Get", &noding.GetRequest{Account: acc}, &p), x.Node != nil) {
				want := x.Node
				q.same(nodeOf(p.Info), want)
			}
			return
		}
		var p noding.StateResponse
		if !q.refused(q.ask("noding", "State", &noding.StateRequest{Account: acc}, &p), true) {
			want := noding.VALIDATOR_STATE_OFF
			if y := x.Node; y != nil {
				switch {
				case y.Banned:
					want = noding.VALIDATOR_STATE_BAN
				case y.Jailed:
					want = noding.VALIDATOR_STATE_JAIL
				case !y.On:
				case y.LastPower == 0:
					want = noding.VALIDATOR_STATE_SPARE
				case y.LotteryNo == 0:
					want = noding.VALIDATOR_STATE_TOP
				default:
					want = noding.VALIDATOR_STATE_LUCKY
				}
			}
			q.same(p.State.String(), want.String())
		}
	case 22:
		if x.Ref == nil {
			return
		}
		var p noding.IsAllowedResponse
		if !q.refused(q.ask("noding", "IsAllowed", &noding.IsAllowedRequest{Account: acc}, &p), true) {
			q.same(p.Verdict, m().qualified(st, acc))
			if p.Verdict != (p.Reason == noding.REASON_UNSPECIFIED) {
				q.bad("verdict and reason do not fit: " + mustJSON(p))
			}
		}
	case 23:
		// operators of the active validators' keys
		for _, a := range st.Order {
			y := st.A[a].Node
			if y == nil || !y.active() || rnd.Intn(3) != 0 {
				continue
			}
			hx := consHexOf(y.PubKey)
			req := &noding.OperatorRequest{ConsAddress: strings.ToUpper(hx), Format: noding.OperatorRequest_FORMAT_HEX}
			if rnd.Intn(2) == 0 {
				raw, _ := hex.DecodeString(hx)
				req = &noding.OperatorRequest{ConsAddress: sdk.ConsAddress(raw).String(), Format: noding.OperatorRequest_Format(rnd.Intn(2))}
			}
			var p noding.OperatorResponse
			if !q.refused(q.ask("noding", "Operator", req, &p), true) {
				q.same(p.Account, a)
			}
			return
		}
	case 24:
		var p noding.SwitchedOnResponse
		if !q.refused(q.ask("noding", "SwitchedOn", &noding.SwitchedOnRequest{}, &p), true) {
			want := []string{}
			for _, a := range st.Order {
				if st.A[a].Node.active() {
					want = append(want, a)
				}
			}
			q.same(sortedCopy(p.Accounts), sortedCopy(want))
		}
	case 25:
		if rnd.Intn(2) == 0 {
			var p noding.QueueResponse
			if !q.refused(q.ask("noding", "Queue", &noding.QueueRequest{}, &p), true) {
				got := []string{}
				for _, v := range p.Queue {
					got = append(got, v.Account)
				}
				q.same(got, strs(st.Lottery))
			}
			return
		}
		h := q.h - 1 - rnd.Int63n(5)
		next := s.com[h+1]
		if next == nil || h <= s.base || h < 1 {
			return
		}
		var p noding.ProposerResponse
		if !q.refused(q.ask("noding", "Proposer", &noding.ProposerRequest{Height: h}, &p), next.LastProposer != "") {
			q.same(p.Account, next.LastProposer)
		}
	case 26:
		var p voting.CurrentResponse
		if !q.refused(q.ask("voting", "Current", &voting.CurrentRequest{}, &p), true) {
			if st.Prop == nil {
				q.same(p.Proposal.Author, "")
			} else {
				q.same(propText(p.Proposal), propText(*st.Prop))
				q.same([][]string{sortedCopy(p.Government), sortedCopy(p.Agreed), sortedCopy(p.Disagreed)},
					[][]string{sortedCopy(st.Gov), sortedCopy(st.Agreed), sortedCopy(st.Disagr)})
			}
		}
	case 27:
		switch rnd.Intn(4) {
		case 0:
			var p voting.PollResponse
			if !q.refused(q.ask("voting", "Poll", &voting.PollRequest{}, &p), st.Poll != nil) {
				q.same(pollText(p.Poll), pollText(*st.Poll))
				q.same([]uint64{p.Yes, p.No}, []uint64{st.PollYes, st.PollNo})
			}
		case 1:
			var p voting.GovernmentResponse
			if !q.refused(q.ask("voting", "Government", &voting.GovernmentRequest{}, &p), true) {
				q.same(sortedCopy(p.Members), sortedCopy(st.Gov))
			}
		case 2:
			limit, page := int32(1+rnd.Intn(4)), int32(1+rnd.Intn(3))
			var p voting.HistoryResponse
			if !q.refused(q.ask("voting", "History", &voting.HistoryRequest{Limit: limit, Page: page}, &p), true) {
				got := []PropRec{}
				for _, h := range p.History {
					got = append(got, PropRec{propText(h.Proposal), sortedCopy(h.Government), sortedCopy(h.Agreed), sortedCopy(h.Disagreed), h.Started, h.Finished})
				}
				q.page(len(got), len(st.PropHist), int(limit), int(page))
				for _, g := range got {
					found := false
					for _, w := range st.PropHist {
						found = found || reflect.DeepEqual(g, w)
					}
					if !found {
						q.bad("there is no such record in the history: " + mustJSON(g))
					}
				}
			}
		default:
			limit, page := int32(1+rnd.Intn(4)), int32(1+rnd.Intn(3))
			var p voting.PollHistoryResponse
			if !q.refused(q.ask("voting", "PollHistory", &voting.PollHistoryRequest{Limit: limit, Page: page}, &p), true) {
				q.page(len(p.History), len(st.PollHist), int(limit), int(page))
				for i, h := range p.History {
					if k := int(limit)*int(page-1) + i; k < len(st.PollHist) {
						q.same(PollRec{pollText(h.Poll), h.Yes, h.No, int(h.Decision)}, st.PollHist[k])
					}
				}
			}
		}
	case 28:
		var tasks []schedule.Task
		lo, hi := int64(0), int64(1)<<62
		if rnd.Intn(3) == 0 {
			var p schedule.AllResponse
			if q.refused(q.ask("schedule", "All", &schedule.AllRequest{}, &p), true) {
				return
			}
			tasks = p.Tasks
		} else {
			if len(st.Tasks) == 0 {
				return
			}
			// the bounds are at tasks now and then
			lo, hi = st.T+rnd.Int63n(int64(time.Hour*100)), st.T+rnd.Int63n(int64(time.Hour*2000))
			if rnd.Intn(2) == 0 {
				lo = st.Tasks[rnd.Intn(len(st.Tasks))].T
			}
			if rnd.Intn(2) == 0 {
				hi = st.Tasks[rnd.Intn(len(st.Tasks))].T
			}
			if lo >= hi {
				return
			}
			f := func(t int64) string { return time.Unix(0, t).UTC().Format(time.RFC3339Nano) }
			var p schedule.GetResponse
			if q.refused(q.ask("schedule", "Get", &schedule.GetRequest{Since: f(lo), To: f(hi)}, &p), true) {
				return
			}
			tasks = p.Tasks
		}
		got, want := []string{}, []string{}
		for _, t := range tasks {
			got = append(got, fmt.Sprintf("%d %s %q", t.Time.UnixNano(), t.HandlerName, t.Data))
		}
		for _, t := range st.Tasks {
			if t.T >= lo && t.T < hi {
				want = append(want, fmt.Sprintf("%d %s %q", t.T, t.H, t.D))
			}
		}
		q.same(sortedCopy(got), sortedCopy(want))
	case 29:
		switch rnd.Intn(3) {
		case 0:
			var p earning.GetResponse
			if !q.refused(q.ask("earning", "Get", &earning.GetRequest{Address: acc}, &p), true) {
				want := EarnRec{}
				if x.Earn != nil {
					want = *x.Earn
				}
				q.same(EarnRec{ns(p.Earner.Vpn), ns(p.Earner.Storage)}, want)
				q.same(p.Earner.Account, acc)
			}
		case 1:
			limit, page := int32(1+rnd.Intn(5)), int32(1+rnd.Intn(3))
			var p earning.ListResponse
			if !q.refused(q.ask("earning", "List", &earning.ListRequest{Limit: limit, Page: page}, &p), true) {
				all := []string{}
				for _, a := range s.byRaw(st) {
					if e := st.A[a].Earn; e != nil {
						all = append(all, fmt.Sprintf("%s %d %d", a, e.Vpn, e.Storage))
					}
				}
				lo, hi := minInt(int(limit*(page-1)), len(all)), minInt(int(limit*page), len(all))
				got := []string{}
				for _, e := range p.List {
					got = append(got, fmt.Sprintf("%s %d %d", e.Account, ns(e.Vpn), ns(e.Storage)))
				}
				q.same(got, append([]string{}, all[lo:hi]...))
			}
		default:
			q.params(rnd.Intn(8))
		}
	}
}

func (q *asker) page(got, all, limit, page int) {
	want := all - limit*(page-1)
	if want < 0 {
		want = 0
	}
	if want > limit {
		want = limit
	}
	if got != want {
		q.bad(fmt.Sprintf("%d records on page %d of %d each, there are %d", got, page, limit, all))
	}
}

func (q *asker) params(k int) {
	p := &q.st.P
	var got, want interface{}
	ok := false
	switch k {
	case 0:
		var r bank.ParamsResponse
		ok = q.ask("bank", "Params", &bank.ParamsRequest{}, &r)
		got, want = r.Params, p.Bank
	case 1:
		var r deleg.ParamsResponse
		if ok = q.ask("delegating", "Params", &deleg.ParamsRequest{}, &r); ok {
			got, want = *r.Params, p.Del
		}
	case 2:
		var r referral.ParamsResponse
		ok = q.ask("referral", "Params", &referral.ParamsRequest{}, &r)
		got, want = r.Params, p.Ref
	case 3:
		var r profile.ParamsResponse
		ok = q.ask("profile", "Params", &profile.ParamsRequest{}, &r)
		got, want = r.Params, p.Prof
	case 4:
		var r noding.ParamsResponse
		ok = q.ask("noding", "Params", &noding.ParamsRequest{}, &r)
		got, want = r.Params, p.Nod
	case 5:
		var r earning.ParamsResponse
		ok = q.ask("earning", "Params", &earning.ParamsRequest{}, &r)
		got, want = r.Params, p.Earn
	case 6:
		var r voting.ParamsResponse
		ok = q.ask("voting", "Params", &voting.ParamsRequest{}, &r)
		got, want = r.Params, p.Vot
	default:
		var r schedule.ParamsResponse
		ok = q.ask("schedule", "Params", &schedule.ParamsRequest{}, &r)
		got, want = fmt.Sprint(r.Params.DayNanos), fmt.Sprint(p.DayNs)
	}
	if !q.refused(ok, true) {
		q.same(fmt.Sprintf("%v", got), fmt.Sprintf("%v", want))
	}
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}
