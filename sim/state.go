package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	deleg "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// Denominations as indices into Coins.
const (
	dM = iota // uartr
	dD        // uartrd: delegated
	dR        // uartrr: being revoked
	dF        // "ufoo": some other coin present in a genesis
	nDenom
)

var denoms = [nDenom]string{"uartr", "uartrd", "uartrr", "ufoo"}

type Coins [nDenom]int64

func (c Coins) Network() int64 { return c[dM] + c[dD] + c[dR] }

type RefInfo struct {
	Status                                   int
	Referrer                                 string
	Referrals                                []string // sorted
	Active                                   bool
	Coins, Deleg                             [11]int64
	ActiveRefs                               []string // sorted
	Counts                                   [11]int64
	DowngradeAt, CompressionAt, BanishmentAt int64
	Transition                               string
	Banished                                 bool
}

type RevReq struct{ T, Amt int64 }

type DelRec struct {
	NextAccrue int64
	Reqs       []RevReq
	Missed     string
}

type Prof struct {
	AutoPay                         bool
	ActiveUntil                     int64
	Noding, Storage, Validator, Vpn bool
	Nick                            string
	Card                            uint64
	StorageLimit, StorageCur        uint64
	VpnLimit, VpnCur                uint64
	ImExtra                         uint64
	ExtraImUntil                    int64
	AutoPayIm                       bool
}

type NodeInfo struct {
	On                 bool
	LastPower          int64
	PubKey, LastPubKey string
	Strokes            int64
	OkRow, MissRow     int64
	Jailed             bool
	UnjailAt           int64
	Proposed           int64
	JailCount          int64
	LotteryNo          uint64
	Score              int64
	Infractions        int
	Banned             bool
	Staff              bool
}

type EarnRec struct{ Vpn, Storage int64 }

type Acct struct {
	Exists bool // in x/auth
	Num    uint64
	Seq    uint64
	C      Coins
	Ref    *RefInfo
	Del    *DelRec
	Prof   *Prof
	Node   *NodeInfo
	Earn   *EarnRec
}

type Task struct {
	T int64
	H string
	D string
}

type PropRec struct {
	Body                string // canonical text of the proposal
	Gov, Agreed, Disagr []string
	Started, Finished   int64
}

type PollRec struct {
	Body     string
	Yes, No  uint64
	Decision int
}

type Params struct {
	DayNs int64
	Bank  bank.Params
	Del   deleg.Params
	Ref   referral.Params
	Prof  profile.Params
	Nod   noding.Params
	Earn  earning.Params
	Vot   voting.Params
}

type State struct {
	H      int64
	T      int64
	A      map[string]*Acct
	Order  []string
	Supply Coins
	Tasks  []Task
	P      Params

	Gov, Agreed, Disagr []string
	Prop                *voting.Proposal
	StartBlock          int64
	PropHist            []PropRec

	Poll            *voting.Poll
	PollYes, PollNo uint64
	Answers         map[string]bool
	PollHist        []PollRec

	Plan     string // upgrade plan, "" when none
	PlanTime int64

	Lottery      []string    // lottery queue, in order of the numbers
	LastProposer string      // of the previous block, as recorded
	G            *GhostState // what is not readable from the application
	Odd          []string    // structural oddities met while reading (records of unknown accounts, unknown denominations)
}

func ns(t *time.Time) int64 {
	if t == nil {
		return 0
	}
	return t.UnixNano()
}

func sortedCopy(xs []string) []string {
	r := append([]string{}, xs...)
	sort.Strings(r)
	return r
}

func (p *Prof) active(t int64) bool { return p != nil && p.ActiveUntil != 0 && t < p.ActiveUntil }

func coinsOf(cs sdk.Coins, odd *[]string, who string) (r Coins) {
next:
	for _, c := range cs {
		for i, d := range denoms {
			if c.Denom == d {
				if !c.Amount.IsInt64() {
					*odd = append(*odd, fmt.Sprintf("C03|%s holds a nonsensical amount %s", who, c))
				} else {
					r[i] = c.Amount.Int64()
				}
				continue next
			}
		}
		*odd = append(*odd, fmt.Sprintf("C03|%s holds coins of an unknown denomination %s", who, c))
	}
	return r
}

var moduleNames = []string{authtypes.FeeCollectorName, util.SplittableFeeCollectorName, earning.VpnCollectorName, earning.StorageCollectorName, earning.ModuleName}

func moduleAddr(name string) string { return authtypes.NewModuleAddress(name).String() }

// snapshot reads the whole semantic state of an application through its keepers.
func snapshot(a *app.ArteryApp, ctx sdk.Context, universe []string) *State {
	ctx, _ = ctx.CacheContext() // reading must not leave traces, whatever the code under test does
	s := &State{H: ctx.BlockHeight(), T: ctx.BlockTime().UnixNano(), A: map[string]*Acct{}, Answers: map[string]bool{}}
	keys := a.GetKeys()
	ak, bk, rk, pk, sk := a.GetAccountKeeper(), a.GetBankKeeper(), a.GetReferralKeeper(), a.GetProfileKeeper(), a.GetScheduleKeeper()
	dk, vk, nk, ek, uk := a.GetDelegatingKeeper(), a.GetVotingKeeper(), a.GetNodingKeeper(), a.GetEarningKeeper(), a.GetUpgradeKeeper()

	s.P = Params{DayNs: sk.OneDay(ctx).Nanoseconds(), Bank: bk.GetParams(ctx), Del: dk.GetParams(ctx), Ref: rk.GetParams(ctx), Prof: pk.GetParams(ctx),
		Nod: nk.GetParams(ctx), Earn: ek.GetParams(ctx), Vot: vk.GetParams(ctx)}

	known := map[string]bool{}
	for _, addr := range universe {
		known[addr] = true
		acc, err := sdk.AccAddressFromBech32(addr)
		if err != nil {
			panic(err)
		}
		x := &Acct{}
		if au := ak.GetAccount(ctx, acc); au != nil {
			x.Exists, x.Num, x.Seq = true, au.GetAccountNumber(), au.GetSequence()
		}
		x.C = coinsOf(bk.GetBalance(ctx, acc), &s.Odd, addr)
		if ctx.KVStore(keys[referral.StoreKey]).Has([]byte(addr)) {
			info, err := rk.Get(ctx, addr)
			if err != nil {
				panic(err)
			}
			x.Ref = refOf(info, &s.Odd, addr)
		}
		if r := dk.Get(ctx, acc); r != nil {
			x.Del = delOf(r)
		}
		if p := pk.GetProfile(ctx, acc); p != nil {
			x.Prof = profOf(p)
		}
		if ctx.KVStore(keys[noding.StoreKey]).Has(acc) {
			n, err := nk.Get(ctx, acc)
			if err != nil {
				panic(err)
			}
			x.Node = nodeOf(n)
		}
		s.A[addr] = x
		s.Order = append(s.Order, addr)
	}
	// balances of accounts nobody knows about
	bk.IterateAllBalances(ctx, func(addr sdk.AccAddress, c sdk.Coins) bool {
		if !known[addr.String()] {
			s.Odd = append(s.Odd, fmt.Sprintf("C03|unknown account %s holds %s", addr, c))
		}
		return false
	})
	iterKeys(ctx.KVStore(keys[referral.StoreKey]), func(k, _ []byte) {
		if !known[string(k)] {
			s.Odd = append(s.Odd, fmt.Sprintf("C09|referral record of unknown account %q", k))
		}
	})
	s.Supply = coinsOf(bk.GetSupply(ctx).GetTotal(), &s.Odd, "supply")
	for _, e := range ek.GetEarners(ctx) {
		if x := s.A[e.Account]; x != nil {
			x.Earn = &EarnRec{ns(e.Vpn), ns(e.Storage)}
		} else {
			s.Odd = append(s.Odd, "C27|earning mark of an unknown account "+e.Account)
		}
	}
	for _, t := range sk.GetTasks(ctx, time.Unix(0, 0), time.Unix(9000000000, 0)) {
		s.Tasks = append(s.Tasks, Task{t.Time.UnixNano(), t.HandlerName, string(t.Data)})
	}

	s.Gov = append([]string{}, vk.GetGovernment(ctx).Members...)
	s.Agreed = append([]string{}, vk.GetAgreed(ctx).Members...)
	s.Disagr = append([]string{}, vk.GetDisagreed(ctx).Members...)
	s.Prop = vk.GetCurrentProposal(ctx)
	if s.Prop != nil {
		s.StartBlock = vk.GetStartBlock(ctx)
	}
	for _, h := range vk.GetHistory(ctx, 1000000, 1) {
		s.PropHist = append(s.PropHist, PropRec{propText(h.Proposal), sortedCopy(h.Government), sortedCopy(h.Agreed), sortedCopy(h.Disagreed), h.Started, h.Finished})
	}
	sort.SliceStable(s.PropHist, func(i, j int) bool { return s.PropHist[i].Finished < s.PropHist[j].Finished })
	if p, ok := vk.GetCurrentPoll(ctx); ok {
		s.Poll = &p
		s.PollYes, s.PollNo = vk.GetPollStatus(ctx)
	}
	_ = vk.IterateThroughCurrentPollAnswers(ctx, func(acc string, ans bool) bool { s.Answers[acc] = ans; return false })
	for _, h := range vk.GetPollHistoryAll(ctx) {
		s.PollHist = append(s.PollHist, PollRec{pollText(h.Poll), h.Yes, h.No, int(h.Decision)})
	}
	if plan, ok := uk.GetUpgradePlan(ctx); ok {
		s.Plan = plan.Name + "|" + plan.Info
		s.PlanTime = plan.Time.UnixNano()
	}
	_ = schedule.ModuleName
	for _, acc := range s.Order {
		if n := s.A[acc].Node; n != nil && n.LotteryNo != 0 {
			s.Lottery = append(s.Lottery, acc)
		}
	}
	sort.SliceStable(s.Lottery, func(i, j int) bool { return s.A[s.Lottery[i]].Node.LotteryNo < s.A[s.Lottery[j]].Node.LotteryNo })
	if s.H > 1 {
		if acc, err := nk.GetBlockProposer(ctx, s.H-1); err == nil && acc != nil {
			s.LastProposer = acc.String()
		}
	}
	return s
}

func iterKeys(st sdk.KVStore, f func(k, v []byte)) {
	it := st.Iterator(nil, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		f(it.Key(), it.Value())
	}
}

func refOf(i referral.Info, odd *[]string, addr string) *RefInfo {
	r := &RefInfo{Status: int(i.Status), Referrer: i.Referrer, Referrals: sortedCopy(i.Referrals), Active: i.Active, ActiveRefs: sortedCopy(i.ActiveReferrals),
		DowngradeAt: ns(i.StatusDowngradeAt), CompressionAt: ns(i.CompressionAt), BanishmentAt: ns(i.BanishmentAt), Transition: i.Transition, Banished: i.Banished}
	for k := 0; k < 11; k++ {
		if k < len(i.Coins) && !i.Coins[k].IsNil() {
			if !i.Coins[k].IsInt64() {
				*odd = append(*odd, "C10|nonsensical coins total of "+addr)
			} else {
				r.Coins[k] = i.Coins[k].Int64()
			}
		}
		if k < len(i.Delegated) && !i.Delegated[k].IsNil() {
			if !i.Delegated[k].IsInt64() {
				*odd = append(*odd, "C10|nonsensical delegated total of "+addr)
			} else {
				r.Deleg[k] = i.Delegated[k].Int64()
			}
		}
		if k < len(i.ActiveRefCounts) {
			r.Counts[k] = int64(i.ActiveRefCounts[k])
		}
	}
	return r
}

func delOf(r *deleg.Record) *DelRec {
	d := &DelRec{NextAccrue: ns(r.NextAccrue)}
	for _, q := range r.Requests {
		d.Reqs = append(d.Reqs, RevReq{q.Time.UnixNano(), q.Amount.Int64()})
	}
	sort.SliceStable(d.Reqs, func(i, j int) bool {
		return d.Reqs[i].T < d.Reqs[j].T || d.Reqs[i].T == d.Reqs[j].T && d.Reqs[i].Amt < d.Reqs[j].Amt
	})
	if r.MissedPart != nil && !r.MissedPart.IsZero() {
		d.Missed = r.MissedPart.String()
	}
	if d.NextAccrue == 0 && len(d.Reqs) == 0 && d.Missed == "" {
		return nil // an empty record means the same as no record
	}
	return d
}

func profOf(p *profile.Profile) *Prof {
	return &Prof{AutoPay: p.AutoPay, ActiveUntil: ns(p.ActiveUntil), Noding: p.Noding, Storage: p.Storage, Validator: p.Validator, Vpn: p.Vpn,
		Nick: p.Nickname, Card: p.CardNumber, StorageLimit: p.StorageLimit, StorageCur: p.StorageCurrent, VpnLimit: p.VpnLimit, VpnCur: p.VpnCurrent,
		ImExtra: p.ImLimitExtra, ExtraImUntil: ns(p.ExtraImUntil), AutoPayIm: p.AutoPayImExtra}
}

func nodeOf(n noding.Info) *NodeInfo {
	return &NodeInfo{On: n.Status, LastPower: n.LastPower, PubKey: n.PubKey, LastPubKey: n.LastPubKey, Strokes: n.Strokes, OkRow: n.OkBlocksInRow,
		MissRow: n.MissedBlocksInRow, Jailed: n.Jailed, UnjailAt: n.UnjailAt, Proposed: n.ProposedCount, JailCount: n.JailCount, LotteryNo: n.LotteryNo,
		Score: n.Score, Infractions: len(n.Infractions), Banned: n.BannedForLife, Staff: n.Staff}
}

func (r *RefInfo) clone() *RefInfo {
	if r == nil {
		return nil
	}
	x := *r
	x.Referrals = append([]string{}, r.Referrals...)
	x.ActiveRefs = append([]string{}, r.ActiveRefs...)
	return &x
}

func (d *DelRec) clone() *DelRec {
	if d == nil {
		return nil
	}
	x := *d
	x.Reqs = append([]RevReq{}, d.Reqs...)
	return &x
}

func (a *Acct) clone() *Acct {
	x := *a
	x.Ref = a.Ref.clone()
	x.Del = a.Del.clone()
	if a.Prof != nil {
		p := *a.Prof
		x.Prof = &p
	}
	if a.Node != nil {
		n := *a.Node
		x.Node = &n
	}
	if a.Earn != nil {
		e := *a.Earn
		x.Earn = &e
	}
	return &x
}

func strs(x []string) []string { return append([]string{}, x...) }

func (s *State) clone() *State {
	x := *s
	x.A = make(map[string]*Acct, len(s.A))
	for k, v := range s.A {
		x.A[k] = v.clone()
	}
	x.Tasks = append([]Task{}, s.Tasks...)
	x.Gov, x.Agreed, x.Disagr = strs(s.Gov), strs(s.Agreed), strs(s.Disagr)
	x.PropHist = append([]PropRec{}, s.PropHist...)
	x.PollHist = append([]PollRec{}, s.PollHist...)
	x.Answers = make(map[string]bool, len(s.Answers))
	for k, v := range s.Answers {
		x.Answers[k] = v
	}
	x.Lottery = strs(s.Lottery)
	x.G = s.G.clone()
	if s.Prop != nil {
		p := *s.Prop
		x.Prop = &p
	}
	if s.Poll != nil {
		p := *s.Poll
		x.Poll = &p
	}
	x.P.Bank.BlockedSenders = strs(s.P.Bank.BlockedSenders)
	x.P.Del.AccruePercentageTable = append([]deleg.PercentageListRange{}, s.P.Del.AccruePercentageTable...)
	x.P.Prof.Creators, x.P.Prof.StorageSigners = strs(s.P.Prof.Creators), strs(s.P.Prof.StorageSigners)
	x.P.Prof.VpnSigners, x.P.Prof.TokenRateSigners = strs(s.P.Prof.VpnSigners), strs(s.P.Prof.TokenRateSigners)
	x.P.Earn.Signers = strs(s.P.Earn.Signers)
	x.P.Nod.VotingPower.Slices = append([]noding.Distribution_Slice{}, s.P.Nod.VotingPower.Slices...)
	return &x
}

// GhostState is state that no keeper shows directly; it is carried along by the model.
type GhostState struct {
	Idx  map[string]string // consensus address (hex) -> account that used it last
	Done map[string]bool   // upgrades applied
}

func (g *GhostState) clone() *GhostState {
	if g == nil {
		return nil
	}
	x := &GhostState{Idx: make(map[string]string, len(g.Idx)), Done: map[string]bool{}}
	for k, v := range g.Idx {
		x.Idx[k] = v
	}
	for k, v := range g.Done {
		x.Done[k] = v
	}
	return x
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func without(xs []string, x string) []string {
	r := make([]string, 0, len(xs))
	for _, y := range xs {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

func insSorted(xs []string, x string) []string {
	r := append(append([]string{}, xs...), x)
	sort.Strings(r)
	return r
}

func short(s string) string {
	if strings.HasPrefix(s, "artr1") && len(s) > 12 {
		return s[:5] + s[5:11]
	}
	return s
}

// propText and pollText are what is compared of a proposal and of a poll: an address in upper case is the same account.
func propText(p voting.Proposal) string {
	p.Author = strings.ToLower(p.Author)
	if p.GetAddress() != nil {
		p.Args = &voting.Proposal_Address{Address: &voting.AddressArgs{Address: strings.ToLower(p.GetAddress().Address)}}
	}
	return p.String()
}

func pollText(p voting.Poll) string {
	p.Author = strings.ToLower(p.Author)
	return p.String()
}
