package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"
	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/arterynetwork/artr/util"
	noding "github.com/arterynetwork/artr/x/noding/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

var rawCache = map[string]string{}

// rawAddr is the binary form of an address, as some modules put it into tasks.
func rawAddr(acc string) string {
	r, ok := rawCache[acc]
	if !ok {
		a, err := sdk.AccAddressFromBech32(acc)
		if err != nil {
			panic(err)
		}
		r = string(a)
		rawCache[acc] = r
		rawBack[r] = acc
	}
	return r
}

var rawBack = map[string]string{}

// taskAcc is the account a task is about.
func taskAcc(t Task) string {
	if strings.HasPrefix(t.H, "referral/") {
		return t.D
	}
	if t.D == "" {
		return ""
	}
	return sdk.AccAddress(t.D).String()
}

// --- validators

func (m *M) lotteryOut(acc string) {
	m.st.Lottery = without(m.st.Lottery, acc)
	if n := m.a(acc).Node; n != nil {
		n.LotteryNo = 0
	}
}

func (m *M) lotteryDown(acc string) {
	if has(m.st.Lottery, acc) {
		m.st.Lottery = append(without(m.st.Lottery, acc), acc)
	}
}

func (m *M) switchOff(acc string) {
	m.a(acc).Node.On = false
	m.lotteryOut(acc)
}

func (n *NodeInfo) active() bool { return n != nil && n.On && !n.Jailed && !n.Banned }

func (m *M) stroke(acc string) {
	n := m.a(acc).Node
	if n.Jailed {
		m.note("miss while jailed")
		return
	}
	n.Score -= n.OkRow/100 + 1
	n.Strokes++
	n.OkRow = 0
	n.MissRow++
	if n.MissRow >= int64(m.st.P.Nod.JailAfter) {
		n.Jailed = true
		n.UnjailAt = m.h + int64(m.st.P.Nod.UnjailAfter)
		n.JailCount++
		n.MissRow = 0
		m.lotteryOut(acc)
		m.note("jailed")
		return
	}
	m.lotteryDown(acc)
}

func (m *M) tick(acc string) {
	n := m.a(acc).Node
	n.MissRow = 0
	n.OkRow++
	if n.OkRow%100 == 0 {
		n.Score++
		m.note("hundred blocks in a row")
	}
}

func (m *M) byzantine(acc string) {
	n := m.a(acc).Node
	n.Infractions++
	if n.Infractions > 1 {
		n.Banned = true
		n.On = false
		m.lotteryOut(acc)
		m.note("banned for life")
		return
	}
	m.lotteryDown(acc)
	m.note("first infraction")
}

func (m *M) unjail(acc string) {
	n := m.a(acc).Node
	if n == nil {
		m.fail("C16", "not a validator")
	}
	if !n.Jailed {
		m.fail("C16", "not jailed")
	}
	if m.h < n.UnjailAt {
		m.fail("C16", "the jail period is not over")
	}
	n.Jailed = false
	if m.qualified(m.st, acc) {
		n.Score = scoreOf(m.a(acc))
		delete(m.alt, acc)
		m.note("unjailed")
	} else {
		n.On = false
		m.note("unjailed and switched off")
	}
}

func (m *M) on(acc, key string) {
	x := m.a(acc)
	n := x.Node
	if n != nil && n.Banned {
		m.fail("C16", "banned for life")
	}
	if n != nil && n.On {
		m.fail("C15", "already on")
	}
	for o, y := range m.st.A {
		if o != acc && y.Node != nil && y.Node.On && !y.Node.Banned && y.Node.PubKey == key {
			m.fail("C14", "the key belongs to somebody else")
		}
	}
	if !m.qualified(m.st, acc) {
		m.fail("C15", "not qualified")
	}
	if n == nil {
		x.Node = &NodeInfo{}
		n = x.Node
	}
	n.On = true
	n.PubKey = key
	n.Score = scoreOf(x)
	delete(m.alt, acc)
	m.st.G.Idx[consHexOf(key)] = acc
	m.note("validator on")
}

var consHexCache = map[string]string{}

func consHexOf(bech string) string {
	h, ok := consHexCache[bech]
	if !ok {
		pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, bech)
		if err != nil {
			panic(err)
		}
		h = hex.EncodeToString(pk.Address())
		consHexCache[bech] = h
	}
	return h
}

// --- subscription and purchases

const gb = int64(util.GBSize)

func (m *M) company() string { return m.st.P.Ref.CompanyAccounts.ForSubscription }

func (m *M) rate() *big.Rat { return rat(m.st.P.Prof.TokenRate) }

func (m *M) monthPart(end int64) *big.Rat { return big.NewRat(end-m.now, m.month()) }

func (m *M) needProf(acc string) *Prof {
	p := m.a(acc).Prof
	if p == nil {
		m.fail("C20,C21,C22,C24", "no profile")
	}
	return p
}

func (m *M) resetLimits(p *Prof) {
	base := uint64(m.st.P.Prof.BaseVpnGb) * uint64(gb)
	if p.VpnCur > base {
		over := p.VpnCur - base
		if over > p.VpnLimit {
			p.VpnLimit = 0
			m.note("vpn limit exhausted by consumption")
		} else {
			p.VpnLimit -= over
		}
	}
	p.VpnCur = 0
	if p.VpnLimit < base {
		p.VpnLimit = base
	}
	if p.StorageLimit == 0 {
		p.StorageLimit = uint64(m.st.P.Prof.BaseStorageGb) * uint64(gb)
	}
}

// activity brings the network in line with the profile.
func (m *M) activity(acc string, was bool) {
	if is := m.a(acc).Prof.active(m.now); is != was {
		m.setActive(acc, is)
	}
}

func (m *M) payTariff(acc string, gbs int64, auto bool) {
	p := m.needProf(acc)
	was := p.active(m.now)
	pp := m.st.P.Prof
	base := int64(pp.BaseStorageGb) * gb
	var storage int64
	if gbs == 0 {
		storage = int64(p.StorageLimit)
		if storage == 0 {
			storage = base
		}
	} else {
		storage = gbs * gb
		if gbs < int64(pp.BaseStorageGb) {
			m.fail("C20,C21", "storage below the base amount")
		}
		if storage < int64(p.StorageCur) {
			m.fail("C20,C21", "storage below the current consumption")
		}
	}
	total := trunc(mul(m.rate(), bigI(int64(pp.SubscriptionPrice))))
	if !total.IsInt64() {
		m.fail("C20", "astronomic price")
	}
	fee := m.calcFee(total.Int64())
	if r := m.a(acc).Ref; r == nil {
		m.fail("C20", "not in the network")
	} else if r.Banished {
		m.comeback(acc)
	}
	gp := bigI(int64(pp.StorageGbPrice))
	sf := mul(m.rate(), big.NewRat(storage-base, gb), gp)
	if was && uint64(storage) != p.StorageLimit {
		sf.Add(sf, mul(m.rate(), big.NewRat(storage-int64(p.StorageLimit), gb), gp, m.monthPart(p.ActiveUntil)))
		if sf.Sign() < 0 {
			sf.SetInt64(0)
		}
		p.StorageLimit = uint64(storage)
		m.note("tariff with a change of storage")
	} else if !was && gbs != 0 && uint64(storage) != p.StorageLimit {
		m.note("storage chosen when subscribing")
		p.StorageLimit = uint64(storage)
	}
	total.Add(total, trunc(sf))
	if !total.IsInt64() {
		m.fail("C20,C21", "astronomic price")
	}
	t := total.Int64()
	if t-fee <= 0 {
		m.fail("C20,C21", "nothing to pay")
	}
	m.take(acc, dM, t, "C20,C21")
	m.add(m.company(), dM, t-fee)
	m.add(splittable, dM, fee)
	if !was && !auto {
		p.ActiveUntil = m.now + m.month()
		m.resetLimits(p)
		m.note("subscribed")
	} else {
		if p.ActiveUntil == 0 {
			m.fail("C20", "never active")
		}
		p.ActiveUntil += m.month()
		if auto {
			m.resetLimits(p)
			m.note("auto-paid")
		} else {
			m.note("subscription extended")
		}
	}
	m.task(p.ActiveUntil, hRefresh, rawAddr(acc))
	m.activity(acc, was)
}

func (m *M) refresh(acc string) {
	p := m.a(acc).Prof
	if p == nil {
		m.fail("", "no profile")
	}
	if p.active(m.now) {
		m.resetLimits(p)
		m.note("monthly reset")
		return
	}
	if p.AutoPay {
		if m.try(func() { m.payTariff(acc, 0, true) }) == nil {
			return
		}
		m.note("auto-pay failed")
	}
	m.note("subscription lapsed")
	m.setActive(acc, false)
}

// charge is how an additional purchase is paid for.
func (m *M) charge(acc string, price *big.Rat, free bool) {
	t := trunc(price)
	if !t.IsInt64() {
		m.fail("C21", "astronomic price")
	}
	v := t.Int64()
	if v <= 0 && !(free && v == 0) {
		m.fail("C21", "free purchase")
	}
	fee := m.payTxFee(acc, v)
	m.move(acc, m.company(), dM, v-fee, "C21")
}

func (m *M) prolong(acc string) {
	p := m.needProf(acc)
	if p.ImExtra == 0 || p.ExtraImUntil == 0 {
		m.fail("C21", "nothing to prolong")
	}
	m.charge(acc, mul(m.rate(), bigI(int64(p.ImExtra)), bigI(int64(m.st.P.Prof.StorageGbPrice))), false)
	m.untask(p.ExtraImUntil, hRefreshI, rawAddr(acc))
	p.ExtraImUntil += m.month()
	m.task(p.ExtraImUntil, hRefreshI, rawAddr(acc))
	m.note("messenger storage prolonged")
}

func (m *M) refreshIm(acc string) {
	p := m.a(acc).Prof
	if p == nil {
		m.fail("", "no profile")
	}
	if p.AutoPayIm {
		if f := m.try(func() { m.prolong(acc) }); f == nil {
			return
		} else if f.why == "free purchase" {
			m.fail(f.props, f.why)
		}
		p = m.a(acc).Prof
		m.note("messenger auto-pay failed")
	}
	p.ImExtra, p.ExtraImUntil, p.AutoPayIm = 0, 0, false
	m.note("messenger storage expired")
}

func (m *M) imActive(p *Prof) bool { return p.ImExtra != 0 && p.ExtraImUntil > m.now }

func (m *M) nickOf(acc, nick string) string {
	if len(nick) != 0 && (strings.ContainsAny(nick, " */:'\"=[],.") || len(nick) < 3) {
		m.fail("C22", "unacceptable nickname")
	}
	nick = strings.TrimSpace(nick)
	if nick == "" {
		return ""
	}
	if strings.HasPrefix(strings.ToTitle(nick), "ARTR-") {
		m.fail("C22", "reserved nickname")
	}
	for o, x := range m.st.A {
		if o != acc && x.Prof != nil && strings.EqualFold(x.Prof.Nick, nick) {
			m.fail("C22", "nickname in use")
		}
	}
	return nick
}

func (m *M) updateProfile(acc string, g Msg) {
	p := m.needProf(acc)
	nick := p.Nick
	for i, f := range g.X {
		b := len(g.L) > i && g.L[i] == 1
		switch f {
		case "autopay":
			p.AutoPay = b
		case "noding":
			p.Noding = b
		case "storage":
			p.Storage = b
		case "validator":
			p.Validator = b
		case "vpn":
			p.Vpn = b
		case "imautopay":
			p.AutoPayIm = b
		case "nick":
			nick = m.nickOf(acc, g.S)
		}
	}
	if nick != p.Nick {
		if nick != "" {
			m.move(acc, feeColl, dM, 1_000000, "C22")
			m.note("renamed")
		}
		p.Nick = nick
	}
}

func isModule(acc string) bool {
	for _, n := range moduleNames {
		if moduleAddr(n) == acc {
			return true
		}
	}
	return false
}

func (m *M) create(g Msg) {
	acct := m.s.acct
	addr, ref, creator := acct(g.B), acct(g.C), acct(g.A)
	x := m.a(addr)
	if x.Exists || addr == feeColl || addr == splittable {
		m.fail("C28", "account already exists")
	}
	if p := m.st.P.Prof.RenamePrice; p > 0 && !has(m.st.P.Prof.Creators, creator) {
		m.move(creator, feeColl, dM, p, "C28")
	} else {
		m.note("free registration")
	}
	par := m.st.A[ref]
	if par == nil || par.Ref == nil {
		m.fail("C28,C09", "unknown referrer")
	}
	if m.closed(ref) {
		m.fail("C28,C12", "the referrer is closed")
	}
	if x.Ref != nil {
		m.fail("C28", "already in the network")
	}
	x.Exists = true
	x.Ref = &RefInfo{Status: 1, Referrer: ref, CompressionAt: m.now + 2*m.month()}
	x.Ref.Coins[0], x.Ref.Deleg[0] = x.C.Network(), x.C[dD]
	m.task(x.Ref.CompressionAt, hComp, addr)
	x.Prof = &Prof{}
	if g.F {
		x.Prof.Nick = m.nickOf(addr, g.S)
		if g.F2 {
			x.Prof.AutoPay = true
		}
	}
	m.dirty = true
	m.note("registered")
}

// --- votes

func (m *M) member(acc string) {
	if !has(m.st.Gov, acc) {
		m.fail("C05,C18,C19", "not a member of the government")
	}
}

func (m *M) voteOver() (complete, agreed bool) {
	st := m.st
	if len(st.Gov) == len(st.Agreed)+len(st.Disagr) {
		return true, 3*len(st.Agreed) >= 2*len(st.Gov)
	}
	return
}

func (m *M) propose(g Msg) {
	st := m.st
	if st.Prop != nil {
		m.fail("C18", "another proposal is active")
	}
	p := g.proposal(m.s.acct)
	p.Author = m.s.acct(g.A)
	m.member(p.Author)
	end := m.now + int64(st.P.Vot.VotingPeriod)*3600e9
	p.EndTime = nsTime(end)
	st.Prop = &p
	st.Agreed, st.Disagr = []string{p.Author}, nil
	st.StartBlock = m.h
	m.task(end, hVote, "")
	m.note("proposal")
	if c, a := m.voteOver(); c {
		m.endProposal(a)
	}
}

func (m *M) vote(acc string, agree bool) {
	st := m.st
	if st.Prop == nil {
		m.fail("C18", "no active proposal")
	}
	m.member(acc)
	if has(st.Agreed, acc) || has(st.Disagr, acc) {
		m.fail("C18", "voted already")
	}
	if agree {
		st.Agreed = append(st.Agreed, acc)
	} else {
		st.Disagr = append(st.Disagr, acc)
	}
	if c, a := m.voteOver(); c {
		m.endProposal(a)
	}
}

func pairsErr(ps paramtypes.ParamSet) error {
	for _, p := range ps.ParamSetPairs() {
		if err := p.ValidatorFn(reflect.Indirect(reflect.ValueOf(p.Value)).Interface()); err != nil {
			return err
		}
	}
	return nil
}

func addOnce(xs []string, x string) []string {
	if has(xs, x) {
		return xs
	}
	return append(strs(xs), x)
}

func (m *M) endProposal(agreed bool) {
	st := m.st
	p := st.Prop
	end := ns(p.EndTime)
	var ts []Task
	for _, t := range st.Tasks {
		if !(t.H == hVote && t.T == end) {
			ts = append(ts, t)
		}
	}
	st.Tasks = ts
	st.PropHist = append(st.PropHist, PropRec{propText(*p), sortedCopy(st.Gov), sortedCopy(st.Agreed), sortedCopy(st.Disagr), st.StartBlock, m.h})
	st.Prop, st.Agreed, st.Disagr, st.StartBlock = nil, nil, nil, 0
	if !agreed {
		m.note("proposal rejected")
		return
	}
	m.note(fmt.Sprintf("proposal %d adopted", p.Type))
	addr := func() string { return strings.ToLower(p.GetAddress().Address) }
	must := func(ps paramtypes.ParamSet) {
		if err := pairsErr(ps); err != nil {
			m.fail("C18", "unacceptable value: "+err.Error())
		}
	}
	b, d, n, pr, rf := &st.P.Bank, &st.P.Del, &st.P.Nod, &st.P.Prof, &st.P.Ref
	switch p.Type {
	case voting.PROPOSAL_TYPE_ENTER_PRICE:
		pr.SubscriptionPrice = p.GetPrice().Price
		must(pr)
	case voting.PROPOSAL_TYPE_GOVERNMENT_ADD:
		st.Gov = addOnce(st.Gov, addr())
	case voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
		if len(st.Gov) == 1 && st.Gov[0] == addr() {
			m.note("removal of the last member")
		}
		st.Gov = without(st.Gov, addr())
	case voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE:
		pr.VpnGbPrice = p.GetPrice().Price
		must(pr)
	case voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE:
		pr.StorageGbPrice = p.GetPrice().Price
		must(pr)
	case voting.PROPOSAL_TYPE_FREE_CREATOR_ADD:
		pr.Creators = addOnce(pr.Creators, addr())
		must(pr)
	case voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
		pr.Creators = without(pr.Creators, addr())
		must(pr)
	case voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE:
		u := p.GetSoftwareUpgrade()
		if u.Name == "" || u.Time == nil || ns(u.Time) <= m.now || u.Time.Unix() <= 0 || st.G.Done[u.Name] {
			m.note("upgrade not scheduled")
			return
		}
		st.Plan, st.PlanTime = u.Name+"|"+u.Info, ns(u.Time)
	case voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE:
		st.Plan, st.PlanTime = "", 0
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD:
		x := m.a(addr())
		if x.Node == nil {
			x.Node = &NodeInfo{}
		}
		x.Node.Staff = true
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE:
		x := m.a(addr())
		if x.Node == nil || !x.Node.Staff {
			return
		}
		x.Node.Staff = false
		if x.Node.active() {
			m.alt[addr()] = true
			if !m.qualified(st, addr()) {
				m.switchOff(addr())
				m.note("dismissed and switched off")
			}
		}
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD:
		st.P.Earn.Signers = addOnce(st.P.Earn.Signers, addr())
		must(&st.P.Earn)
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE:
		st.P.Earn.Signers = without(st.P.Earn.Signers, addr())
		must(&st.P.Earn)
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD:
		pr.TokenRateSigners = addOnce(pr.TokenRateSigners, addr())
		must(pr)
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE:
		pr.TokenRateSigners = without(pr.TokenRateSigners, addr())
		must(pr)
	case voting.PROPOSAL_TYPE_VPN_SIGNER_ADD:
		pr.VpnSigners = addOnce(pr.VpnSigners, addr())
		must(pr)
	case voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE:
		pr.VpnSigners = without(pr.VpnSigners, addr())
		must(pr)
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD:
		pr.StorageSigners = addOnce(pr.StorageSigners, addr())
		must(pr)
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE:
		pr.StorageSigners = without(pr.StorageSigners, addr())
		must(pr)
	case voting.PROPOSAL_TYPE_TRANSITION_PRICE:
		rf.TransitionPrice = uint64(p.GetPrice().Price)
		must(rf)
	case voting.PROPOSAL_TYPE_MIN_SEND:
		b.MinSend = p.GetMinAmount().MinAmount
		must(b)
	case voting.PROPOSAL_TYPE_MIN_DELEGATE:
		d.MinDelegate = p.GetMinAmount().MinAmount
		must(d)
	case voting.PROPOSAL_TYPE_MAX_VALIDATORS:
		n.MaxValidators = p.GetCount().Count
		must(n)
	case voting.PROPOSAL_TYPE_LUCKY_VALIDATORS:
		n.LotteryValidators = p.GetCount().Count
		must(n)
	case voting.PROPOSAL_TYPE_GENERAL_AMNESTY:
		for _, x := range st.A {
			if x.Node != nil {
				x.Node.Score += x.Node.Strokes
				x.Node.Strokes, x.Node.JailCount = 0, 0
			}
		}
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA:
		n.MinCriteria = *p.GetMinCriteria().MinCriteria
		must(n)
	case voting.PROPOSAL_TYPE_JAIL_AFTER:
		n.JailAfter = p.GetCount().Count
		must(n)
	case voting.PROPOSAL_TYPE_DUST_DELEGATION:
		b.DustDelegation = p.GetMinAmount().MinAmount
		must(b)
	case voting.PROPOSAL_TYPE_VOTING_POWER:
		n.VotingPower = *p.GetVotingPower()
		n.VotingPower.Slices = append([]noding.Distribution_Slice{}, n.VotingPower.Slices...)
		must(n)
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE:
		old := b.TransactionFee
		b.TransactionFee = p.GetPortion().Fraction
		if b.Validate() != nil {
			b.TransactionFee = old
		}
	case voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE:
		old := b.MaxTransactionFee
		b.MaxTransactionFee = p.GetMinAmount().MinAmount
		if b.Validate() != nil {
			b.MaxTransactionFee = old
		}
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS:
		fs := p.GetPortions().Fractions
		if len(fs) < 2 {
			m.fail("C18", "two portions expected")
		}
		old := b.TransactionFeeSplitRatios
		b.TransactionFeeSplitRatios.ForProposer, b.TransactionFeeSplitRatios.ForCompany = fs[0], fs[1]
		if b.Validate() != nil {
			b.TransactionFeeSplitRatios = old
		}
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE:
		old := d.AccruePercentageTable
		d.AccruePercentageTable = p.GetAccruePercentageTable().AccruePercentageTable
		if d.Validate() != nil {
			d.AccruePercentageTable = old
		}
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD:
		b.BlockedSenders = addOnce(b.BlockedSenders, addr())
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE:
		b.BlockedSenders = without(b.BlockedSenders, addr())
	case voting.PROPOSAL_TYPE_REVOKE:
		d.Revoke = *p.GetRevoke().Revoke
		must(d)
	case voting.PROPOSAL_TYPE_EXPRESS_REVOKE:
		d.ExpressRevoke = *p.GetRevoke().Revoke
		must(d)
	}
}

func (m *M) startPoll(g Msg) {
	st := m.st
	if st.Poll != nil {
		m.fail("C19", "another poll is active")
	}
	p := g.build(m.s.acct).(*voting.MsgStartPoll).Poll
	p.Author = m.s.acct(g.A)
	m.member(p.Author)
	end := m.now + int64(st.P.Vot.PollPeriod)*3600e9
	p.StartTime, p.EndTime = nsTime(m.now), nsTime(end)
	st.Poll = &p
	st.PollYes, st.PollNo = 0, 0
	st.Answers = map[string]bool{}
	m.task(end, hPoll, "")
	m.note("poll")
}

func (m *M) answer(acc string, yes bool) {
	st := m.st
	if st.Poll == nil {
		m.fail("C19", "no poll")
	}
	switch r := st.Poll.Requirements.(type) {
	case *voting.Poll_CanValidate:
		if !m.qualified(st, acc) {
			m.fail("C19", "respondent may not validate")
		}
	case *voting.Poll_MinStatus:
		if x := m.a(acc).Ref; x == nil || x.Status < int(r.MinStatus) {
			m.fail("C19", "respondent's status is too low")
		}
	}
	if _, ok := st.Answers[acc]; ok {
		m.fail("C19", "answered already")
	}
	st.Answers[acc] = yes
	if yes {
		st.PollYes++
	} else {
		st.PollNo++
	}
}

func (m *M) endPoll() {
	st := m.st
	if st.Poll == nil {
		m.fail("", "no poll")
	}
	dec := 0
	if st.Poll.Quorum != nil {
		dec = 2
		if y := int64(st.PollYes); y != 0 && bigI(y).Cmp(mul(rat(*st.Poll.Quorum), bigI(y+int64(st.PollNo)))) >= 0 {
			dec = 1
		}
		m.note(fmt.Sprintf("poll decided %d", dec))
	}
	st.PollHist = append(st.PollHist, PollRec{pollText(*st.Poll), st.PollYes, st.PollNo, dec})
	st.Poll, st.PollYes, st.PollNo = nil, 0, 0
	st.Answers = map[string]bool{}
}

// --- messages

var opProps = map[string]string{"send": "C26,C17", "burn": "C26,C03", "delegate": "C07,C08,C17", "revoke": "C07,C08", "xrevoke": "C07,C08", "earn": "C27", "earnmulti": "C27",
	"create": "C28,C09", "profile": "C22,C20", "storagecur": "C21", "vpncur": "C21", "rate": "C21", "tariff": "C20,C21", "buystorage": "C21", "givestorage": "C21",
	"buyvpn": "C21", "buyim": "C21", "giveim": "C21", "prolongim": "C21", "on": "C14,C15", "off": "C14,C15", "unjail": "C16", "reqtrans": "C13", "restrans": "C13",
	"vote": "C18", "propose": "C18", "poll": "C19", "answer": "C19"}

// pos checks the sign of an amount carried by a message.
func (m *M) pos(x int64) {
	if x <= 0 {
		m.fail("C26,C07,C21", "the amount must be positive")
	}
}

func (m *M) msg(g Msg) {
	acct := m.s.acct
	a := acct(g.A)
	st := m.st
	pp := &st.P.Prof
	switch g.Op {
	case "send":
		to := acct(g.B)
		m.pos(g.N)
		if !m.a(to).Exists {
			m.fail("C26", "recipient does not exist")
		}
		if g.D != dM || g.M != 0 {
			m.fail("C26", "denomination cannot be sent")
		}
		if g.N < st.P.Bank.MinSend {
			m.fail("C26", "below the minimum")
		}
		if has(st.P.Bank.BlockedSenders, a) {
			m.fail("C26,C05", "blocked sender")
		}
		m.payTxFee(a, g.N)
		m.move(a, to, dM, g.N, "C26")
	case "burn":
		m.pos(g.N)
		m.take(a, dM, g.N, "C26")
		st.Supply[dM] -= g.N
	case "delegate":
		m.pos(g.N)
		m.delegate(a, g.N)
	case "revoke", "xrevoke":
		m.pos(g.N)
		m.revoke(a, g.N, g.Op == "xrevoke")
	case "earn":
		m.earnSigner(a)
		m.earnSet(acct(g.B), g.N, g.M)
	case "earnmulti":
		m.earnSigner(a)
		for i, x := range g.L {
			m.earnSet(acct(x), g.T[2*i], g.T[2*i+1])
		}
	case "create":
		m.create(g)
	case "profile":
		m.updateProfile(a, g)
	case "storagecur", "vpncur":
		list := pp.StorageSigners
		if g.Op == "vpncur" {
			list = pp.VpnSigners
		}
		if !has(list, a) {
			m.fail("C05,C21", "not an authorised signer")
		}
		p := m.needProf(acct(g.B))
		if g.Op == "vpncur" {
			p.VpnCur = uint64(g.N)
		} else {
			p.StorageCur = uint64(g.N)
		}
	case "rate":
		if !has(pp.TokenRateSigners, a) {
			m.fail("C05,C21", "not an authorised signer")
		}
		pp.TokenRate = frac(g.S)
		if err := pairsErr(pp); err != nil {
			m.fail("C21", "unacceptable rate")
		}
	case "tariff":
		m.payTariff(a, g.N, false)
	case "buystorage":
		m.pos(g.N)
		p := m.needProf(a)
		if !p.active(m.now) {
			m.fail("C21,C20", "not active")
		}
		if base := uint64(pp.BaseStorageGb) * uint64(gb); p.StorageLimit < base {
			p.StorageLimit = base
		}
		m.charge(a, mul(m.rate(), bigI(g.N), bigI(int64(pp.StorageGbPrice)), m.monthPart(p.ActiveUntil)), false)
		p.StorageLimit += uint64(g.N) * uint64(gb)
	case "givestorage":
		m.pos(g.N)
		p := m.needProf(a)
		n := g.N
		if n < int64(pp.BaseStorageGb) {
			n = int64(pp.BaseStorageGb)
		}
		l := uint64(n) * uint64(gb)
		if l < p.StorageCur {
			m.fail("C21", "below consumption")
		}
		if l >= p.StorageLimit {
			m.fail("C21", "not less than before")
		}
		p.StorageLimit = l
	case "buyvpn":
		m.pos(g.N)
		p := m.needProf(a)
		if !p.active(m.now) {
			m.fail("C21,C20", "not active")
		}
		m.charge(a, mul(m.rate(), bigI(g.N), bigI(int64(pp.VpnGbPrice))), true)
		p.VpnLimit += uint64(g.N) * uint64(gb)
	case "buyim":
		m.pos(g.N)
		p := m.needProf(a)
		part := bigI(1)
		set := m.imActive(p)
		if set {
			part = m.monthPart(p.ExtraImUntil)
		}
		m.charge(a, mul(m.rate(), bigI(g.N), bigI(int64(pp.StorageGbPrice)), part), false)
		if set {
			p.ImExtra += uint64(g.N)
		} else {
			p.ImExtra = uint64(g.N)
			m.untask(p.ExtraImUntil, hRefreshI, rawAddr(a))
			p.ExtraImUntil = m.now + m.month()
			m.task(p.ExtraImUntil, hRefreshI, rawAddr(a))
		}
	case "giveim":
		p := m.needProf(a)
		cur := p.ImExtra
		if !m.imActive(p) {
			cur = 0
		}
		if uint64(g.N) >= cur {
			m.fail("C21", "not less than before")
		}
		p.ImExtra = uint64(g.N)
		if g.N == 0 {
			m.untask(p.ExtraImUntil, hRefreshI, rawAddr(a))
			p.ExtraImUntil = 0
		}
	case "prolongim":
		m.prolong(a)
	case "on":
		if g.N >= 1000 {
			m.fail("C14,C24", "key type not accepted by consensus")
		}
		m.on(a, consBech(int(g.N)))
	case "off":
		if m.a(a).Node == nil {
			m.fail("C15", "not a validator")
		}
		if m.a(a).Node.On {
			m.switchOff(a)
			m.note("validator off")
		}
	case "unjail":
		m.unjail(a)
	case "reqtrans":
		m.requestTransition(a, acct(g.B))
	case "restrans":
		m.resolveTransition(a, acct(g.B), g.F)
	case "vote":
		m.vote(a, g.F)
	case "propose":
		m.propose(g)
	case "poll":
		m.startPoll(g)
	case "answer":
		m.answer(a, g.F)
	default:
		panic("model: unknown op " + g.Op)
	}
}

func (m *M) earnSigner(a string) {
	if !has(m.st.P.Earn.Signers, a) {
		m.fail("C05,C27", "not an authorised signer")
	}
}

func (m *M) earnSet(acc string, vpn, storage int64) {
	x := m.a(acc)
	if vpn == 0 && storage == 0 {
		x.Earn = nil
		return
	}
	x.Earn = &EarnRec{vpn, storage}
}

// --- tasks

var taskProps = map[string]string{hRevoke: "C07,C06", hAccrue: "C08,C06", hRefresh: "C20,C06", hRefreshI: "C21,C06", hVote: "C18,C06", hPoll: "C19,C06", hDown: "C11,C06",
	hComp: "C12,C06", hTimeout: "C13,C06", hBanish: "C12,C06"}

func (m *M) runTask(t Task) {
	acc := taskAcc(t)
	if acc != "" && m.st.A[acc] == nil {
		return
	}
	if !live(t, m.st) && !m.due(t) {
		m.note("leftover task: " + t.H) // serves nothing any more, so it may not do anything
		return
	}
	switch t.H {
	case hRevoke:
		m.payRevoked(acc)
	case hAccrue:
		m.accrueDaily(acc, t.T)
	case hRefresh:
		m.refresh(acc)
	case hRefreshI:
		m.refreshIm(acc)
	case hVote:
		if m.st.Prop != nil {
			c, a := m.voteOver()
			m.note("proposal timed out")
			m.endProposal(c && a)
		}
	case hPoll:
		m.endPoll()
	case hDown:
		m.downgrade(acc)
	case hComp:
		m.compress(acc)
	case hTimeout:
		m.timeout(acc)
	case hBanish:
		m.banish(acc)
	default:
		m.fail("", "unknown task "+t.H)
	}
}

// due tells whether what a leftover task was for is due in this (late) block anyway; it may then happen in its place.
func (m *M) due(t Task) bool {
	x := m.st.A[taskAcc(t)]
	if x == nil || x.Ref == nil {
		return false
	}
	switch t.H {
	case hDown:
		return x.Ref.DowngradeAt != 0 && x.Ref.DowngradeAt <= m.now
	case hComp:
		return x.Ref.CompressionAt != 0 && x.Ref.CompressionAt <= m.now
	}
	return false
}

func (m *M) runTasks() {
	for n := 0; len(m.st.Tasks) > 0 && m.st.Tasks[0].T <= m.now; n++ {
		t := m.st.Tasks[0]
		m.st.Tasks = append([]Task{}, m.st.Tasks[1:]...)
		m.tasksDone[t.H]++
		if t.T < m.now {
			m.note("task performed late")
		}
		if f := m.try(func() { m.runTask(t) }); f != nil {
			m.note("task without effect: " + t.H)
		}
		if n > 100000 {
			panic("model: endless tasks")
		}
	}
}

// --- the beginning of a block

type beginPred struct {
	m    *M
	halt string
}

func (s *Sim) predictBegin(pre *State, req abci.RequestBeginBlock) *beginPred {
	m := newM(s, pre, req.Header.Time.UnixNano(), req.Header.Height)
	p := &beginPred{m: m}
	st := m.st
	// an agreed upgrade
	if st.Plan != "" && m.now >= st.PlanTime {
		name := strings.SplitN(st.Plan, "|", 2)[0]
		if !s.reps[0].newBin[name] {
			p.halt = name
		}
		st.P.Ref.TransitionPrice++
		st.G.Done[name] = true
		st.Plan, st.PlanTime = "", 0
		m.note("upgrade applied")
	}
	// the proposer of this block gets what was collected
	st.LastProposer = ""
	if acc := st.G.Idx[hex.EncodeToString(req.Header.ProposerAddress)]; acc != "" {
		m.reward(acc)
	} else {
		m.note("unknown proposer")
	}
	for _, v := range req.LastCommitInfo.Votes {
		acc := st.G.Idx[hex.EncodeToString(v.Validator.Address)]
		if acc == "" || m.a(acc).Node == nil {
			m.note("vote of an unknown validator")
			continue
		}
		if v.SignedLastBlock {
			m.tick(acc)
		} else {
			m.stroke(acc)
		}
	}
	for _, e := range req.ByzantineValidators {
		acc := st.G.Idx[hex.EncodeToString(e.Validator.Address)]
		if acc == "" || m.a(acc).Node == nil {
			m.note("evidence against an unknown validator")
			continue
		}
		m.byzantine(acc)
	}
	m.settle()
	m.runTasks()
	return p
}

func (m *M) reward(acc string) {
	st := m.st
	x := m.a(acc)
	if m.h > 1 {
		st.LastProposer = acc
	}
	if x.Node == nil {
		return
	}
	x.Node.Proposed++
	m.lotteryDown(acc)
	for d := 0; d < nDenom; d++ {
		if c := m.a(feeColl).C[d]; c > 0 {
			m.move(feeColl, acc, d, c, "C17")
			m.note("gas fees paid out")
		}
	}
	s := m.a(splittable).C[dM]
	if s == 0 {
		return
	}
	r := st.P.Bank.TransactionFeeSplitRatios
	fp, fc := truncI(mul(rat(r.ForProposer), bigI(s))), truncI(mul(rat(r.ForCompany), bigI(s)))
	m.move(splittable, acc, dM, fp, "C17")
	m.move(splittable, st.P.Bank.CompanyAccount, dM, fc, "C17")
	if b := s - fp - fc; b > 0 {
		m.take(splittable, dM, b, "C17")
		st.Supply[dM] -= b
		m.note("fees burned")
	}
	m.note("fees split")
}

// --- the end of a block

// nodePick is what the selection says about one account.
type nodePick struct{ power int64 }

// checkSelection compares the validators chosen at the end of a block with what scores, the queue and the parameters demand.
// Ties between equal scores may be broken in any way.
func (s *Sim) checkSelection(pre, post *State) {
	p := pre.P.Nod
	type cand struct {
		acc string
		n   *NodeInfo
	}
	var act []cand
	for _, acc := range pre.Order {
		a, b := pre.A[acc].Node, post.A[acc].Node
		if a == nil || b == nil {
			if (a == nil) != (b == nil) {
				s.report([]string{"C14", "C15"}, "end-record", "validator record appears or disappears at the end of a block: "+acc)
			}
			continue
		}
		// everything else stays
		x, y := *a, *b
		x.LastPower, y.LastPower, x.LastPubKey, y.LastPubKey, x.LotteryNo, y.LotteryNo = 0, 0, "", "", 0, 0
		if x != y {
			s.report([]string{"C15", "C16", "C14"}, "end-fields", fmt.Sprintf("validator record of %s changes at the end of a block: %+v -> %+v", acc, x, y))
		}
		if a.active() {
			act = append(act, cand{acc, a})
		} else if b.LastPower != 0 || b.LastPubKey != "" && b.LastPower != 0 {
			s.report([]string{"C14", "C15", "C16"}, "end-inactive-power", fmt.Sprintf("%s is not an active validator (on %v, jailed %v, banned %v) but has voting power %d", acc, a.On, a.Jailed, a.Banned, b.LastPower))
		}
	}
	max, lucky := int(p.MaxValidators), int(p.LotteryValidators)
	n1, n2 := len(act), 0
	if n1 > max {
		n1 = max
		n2 = len(act) - n1
		if n2 > lucky {
			n2 = lucky
		}
	}
	less := func(a, b *NodeInfo) bool { // a strictly before b
		if a.Score != b.Score {
			return a.Score > b.Score
		}
		return a.OkRow > b.OkRow
	}
	var tops []cand
	for _, c := range act {
		sure := 0
		maybe := 0
		for _, o := range act {
			if o.acc == c.acc {
				continue
			}
			if less(o.n, c.n) {
				sure++
			} else if !less(c.n, o.n) {
				maybe++
			}
		}
		b := post.A[c.acc].Node
		switch {
		case sure >= n1: // cannot be a top
			c.n = b
		case sure+maybe < n1: // must be a top
			tops = append(tops, c)
		default: // a tie: a top has power and no number in the queue
			if b.LastPower != 0 && !has(post.Lottery, c.acc) {
				tops = append(tops, c)
			}
		}
	}
	if len(tops) != n1 {
		s.report([]string{"C15"}, "end-tops", fmt.Sprintf("%d validators chosen by score instead of %d", len(tops), n1))
		return
	}
	sort.SliceStable(tops, func(i, j int) bool { return less(tops[i].n, tops[j].n) })
	isTop := map[string]bool{}
	// voting power by position
	want := map[string]int64{}
	count, ptr := 0, 0
	var last int64
	acc := new(big.Rat)
	power := func(score int64) int64 {
		count++
		defer func() { last = score }()
		if count > max {
			return p.VotingPower.LuckiesVotingPower
		}
		sl := p.VotingPower.Slices
		if count == 1 {
			acc = rat(sl[0].Part)
			return sl[0].VotingPower
		}
		if big.NewRat(int64(count), int64(max)).Cmp(acc) <= 0 || score == last {
			return sl[ptr].VotingPower
		}
		ptr++
		acc = new(big.Rat).Add(acc, rat(sl[ptr].Part))
		return sl[ptr].VotingPower
	}
	for _, c := range tops {
		isTop[c.acc] = true
		want[c.acc] = power(c.n.Score)
	}
	var queue []string
	for _, a := range pre.Lottery {
		if !isTop[a] {
			queue = append(queue, a)
		}
	}
	nl := 0
	for i, a := range queue {
		n := pre.A[a].Node
		if i < n2 && n.active() {
			want[a] = p.VotingPower.LuckiesVotingPower
			nl++
		}
		_ = i
	}
	if nl > 0 {
		s.st.Crossings["lucky validators chosen"]++
	}
	if len(tops)+nl < len(act) {
		s.st.Crossings["spare validators"]++
	}
	var newcomers []string
	for _, c := range act {
		b := post.A[c.acc].Node
		if b.LastPower != want[c.acc] {
			s.report([]string{"C15", "C14"}, "end-power", fmt.Sprintf("%s (score %d, row %d) has voting power %d at the end of the block, must have %d; tops %d, queue %v", c.acc, b.Score, b.OkRow, b.LastPower, want[c.acc], n1, queue))
		}
		if b.LastPower != 0 && b.LastPubKey != b.PubKey {
			s.report([]string{"C14"}, "end-key", fmt.Sprintf("the key of %s in the validator set is not its current one", c.acc))
		}
		if !isTop[c.acc] && !has(queue, c.acc) {
			newcomers = append(newcomers, c.acc)
		}
	}
	got := append([]string{}, post.Lottery...)
	okQ := len(got) == len(queue)+len(newcomers)
	for i := 0; okQ && i < len(got); i++ {
		if i < len(queue) {
			okQ = got[i] == queue[i]
		} else {
			okQ = has(newcomers, got[i])
		}
	}
	if !okQ {
		s.report([]string{"C15"}, "end-queue", fmt.Sprintf("the queue is %v, must be %v followed by %v", s.names(got), s.names(queue), s.names(newcomers)))
	}
}

func (s *Sim) names(xs []string) (r []string) {
	for _, x := range xs {
		r = append(r, s.name(x))
	}
	return
}

func (s *Sim) compareEnd(pre, post *State, re abci.ResponseEndBlock) {
	exp := pre.clone()
	for acc, x := range exp.A {
		y := post.A[acc]
		if x.Node != nil && y.Node != nil {
			x.Node.LastPower, x.Node.LastPubKey = y.Node.LastPower, y.Node.LastPubKey
		}
	}
	exp.Lottery = post.Lottery
	post.G = pre.G.clone()
	for _, acc := range s.byRaw(post) {
		if n := pre.A[acc].Node; n.active() {
			post.G.Idx[consHexOf(n.PubKey)] = acc
		}
	}
	for _, d := range diffStates(s, exp, post) {
		s.report(append(d.props, "C14"), "end:"+d.sig, "changes at the end of a block: "+d.msg)
	}
	s.checkSelection(pre, post)
	s.checkState(post)
	_ = re
}

// byRaw lists the accounts in the order of their binary addresses.
func (s *Sim) byRaw(st *State) []string {
	r := append([]string{}, st.Order...)
	sort.Slice(r, func(i, j int) bool { return rawAddr(r[i]) < rawAddr(r[j]) })
	return r
}

// Ghost is knowledge of the simulator about the run.
type Ghost struct {
	sent map[int]*sentTx
}

type sentTx struct {
	t       Tx
	signers []string
	nums    []uint64
	seqs    []uint64
}

func newGhost() *Ghost { return &Ghost{sent: map[int]*sentTx{}} }

func (g *Ghost) init(s *Sim, st *State) {
	st.G = &GhostState{Idx: map[string]string{}, Done: map[string]bool{}}
	for _, acc := range s.byRaw(st) {
		if n := st.A[acc].Node; n != nil && n.PubKey != "" {
			h := consHexOf(n.PubKey)
			if _, busy := st.G.Idx[h]; !busy || n.active() {
				st.G.Idx[h] = acc
			}
		}
	}
}
