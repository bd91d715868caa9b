package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"time"

	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/store"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/tendermint/tendermint/libs/log"
	dbm "github.com/tendermint/tm-db"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	deleg "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

const simUpgradePrefix = "sim-"

func newInterBlockCache() sdk.MultiStorePersistentCache { return store.NewCommitKVStoreCacheManager() }

func newApp(db dbm.DB, opts ...func(*baseapp.BaseApp)) *app.ArteryApp {
	return app.NewArteryApp(log.NewNopLogger(), db, nil, true, 0, encCfg, opts...)
}

// RepSpec are the local settings of one node.
type RepSpec struct {
	Pruning string `json:"pruning"`
	MinGas  string `json:"minGas,omitempty"`
	Cache   bool   `json:"cache,omitempty"`
	OldBin  bool   `json:"oldBin,omitempty"` // does not know the upgrades voted for during the run
}

// Spec describes one simulated world; everything else follows from it deterministically.
type Spec struct {
	Seed   int64     `json:"seed"`
	Mode   string    `json:"mode"`
	N      int       `json:"n"`             // accounts in the referral network at genesis
	Fresh  int       `json:"fresh"`         // keys without a profile or a place in the structure at genesis
	Out    int       `json:"out,omitempty"` // how many of them have an account with coins
	Shape  string    `json:"shape"`
	Ask    bool      `json:"ask,omitempty"` // many queries
	Blocks int       `json:"blocks"`
	Reps   []RepSpec `json:"reps"`
	DayNs  int64     `json:"dayNs"`
	Rich   int       `json:"rich"`  // how wealthy accounts are, 0..3
	Plain  bool      `json:"plain"` // no faults
	NoGas  bool      `json:"noGas"`
}

const chainID = "artr-sim"

var genTime = time.Date(2021, 3, 1, 12, 0, 0, 0, time.UTC)

const month = 30

func pickStr(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }
func pickI(r *rand.Rand, xs ...int64) int64     { return xs[r.Intn(len(xs))] }

// amount draws a log-uniform amount up to 10^max uartr.
func logAmt(r *rand.Rand, lo, hi float64) int64 {
	e := lo + r.Float64()*(hi-lo)
	v := 1.0
	for e >= 1 {
		v *= 10
		e--
	}
	return int64(v * (1 + 9*e*r.Float64()))
}

// parents builds the referral forest: parent[i] < i or -1.
func parents(s Spec, r *rand.Rand) []int {
	p := make([]int, s.N)
	p[0] = -1
	tops := 1
	if s.N > 8 && r.Intn(3) == 0 && s.Shape != "teams" && s.Shape != "comb" {
		tops = 2 + r.Intn(2)
	}
	for i := 1; i < s.N; i++ {
		if i < tops {
			p[i] = -1
			continue
		}
		switch s.Shape {
		case "chain": // a long chain with a few side branches
			if i%5 == 4 {
				p[i] = r.Intn(i)
			} else {
				p[i] = i - 1
				if (i-1)%5 == 4 {
					p[i] = i - 2
				}
			}
		case "star":
			if i <= 4 {
				p[i] = 0
			} else {
				p[i] = r.Intn(5)
			}
		case "legs": // complete trees with three children
			p[i] = (i - 1) / 3
		case "bin":
			p[i] = (i - 1) / 2
		case "comb": // a long line of accounts, each with two more referrals that have three each: masters high above others
			switch k := i % 9; {
			case k == 0:
				p[i] = i - 9
			case k < 3:
				p[i] = i - k
			default:
				p[i] = i - k + k/3
			}
		case "teams": // three teams of nearly the same size under one account, each with three triples on top
			switch {
			case i < 4:
				p[i] = 0
			case i < 13:
				p[i] = 1 + (i-4)%3
			case i < 40:
				p[i] = 4 + (i-13)%9
				if s.Seed%2 == 1 && i >= 22 { // deeper teams
					p[i] = i - 9
				}
			default:
				p[i] = 4 + (i-13)%9
				if r.Intn(2) == 0 {
					p[i] = i - 3*(1+r.Intn(8))
				}
			}
		default:
			lo := 0
			if i > 12 && r.Intn(2) == 0 {
				lo = i - 12
			}
			p[i] = lo + r.Intn(i-lo)
		}
	}
	return p
}

func fracS(x string) util.Fraction { return frac(x) }

func genTable(r *rand.Rand) ([]int64, []string) {
	switch r.Intn(4) {
	case 0:
		return []int64{0}, []string{"30%", "6%", "3%", "2%", "1%"}
	case 1:
		return []int64{0, 1_000_000000, 10_000_000000, 100_000_000000},
			[]string{"21%", "1%", "1%", "2%", "3%", "24%", "0%", "1%", "0%", "0%", "27%", "1%", "1%", "1%", "1%", "30%", "2%", "2%", "2%", "2%"}
	case 2: // a zero row: small delegations earn nothing unless they have a bonus
		return []int64{0, 5_000000, 2_000_000000}, []string{"0%", "5%", "0%", "0%", "0%", "10%", "7%", "3%", "1/7", "0%", "25%", "1%", "1%", "1%", "1%"}
	}
	return []int64{0, 333_333333}, []string{"100/7", "1/9", "1/11", "1/13", "1/17", "2/7", "1/9", "0", "1/13", "1/17"}
}

// buildGenesis makes the genesis state of a world.
func buildGenesis(s Spec) (state []byte, err error) {
	r := rand.New(rand.NewSource(s.Seed*7919 + 17))
	cdc := encCfg.Marshaler
	gs := app.NewDefaultGenesisState(cdc)
	par := parents(s, r)
	addr := func(i int) string { return addrOf(i) }
	day := s.DayNs
	mon := day * month
	t0 := genTime.UnixNano()
	var tasks []schedule.Task
	task := func(t int64, h string, d []byte) {
		tasks = append(tasks, schedule.Task{HandlerName: h, Data: d, Time: time.Unix(0, t).UTC()})
	}
	raw := func(i int) []byte { return sdk.AccAddress(privOf(i).PubKey().Address()) }

	// auth
	var accs authtypes.GenesisAccounts
	for i := 0; i < s.N; i++ {
		accs = append(accs, authtypes.NewBaseAccount(raw(i), nil, uint64(i), 0))
	}
	for i := s.N; i < s.N+s.Out; i++ {
		accs = append(accs, authtypes.NewBaseAccount(raw(i), nil, uint64(i), 0))
	}
	ap := authtypes.DefaultParams()
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(ap, accs))

	// bank
	bp := bank.DefaultParams()
	bp.MinSend = pickI(r, 1, 1000, 1000, 5_000000)
	bp.DustDelegation = pickI(r, 0, 1000, 1_000000, 1_000000)
	bp.TransactionFee = fracS(pickStr(r, "3/1000", "3/1000", "0", "1/20", "1/3", "7/1000", "9/10"))
	bp.MaxTransactionFee = pickI(r, 10_000000, 10_000000, 0, 1, 77777)
	sp := [][2]string{{"3/10", "2/10"}, {"0", "0"}, {"1/3", "1/3"}, {"1/2", "1/2"}, {"1", "0"}, {"0", "1"}, {"1/7", "2/5"}}[r.Intn(7)]
	bp.TransactionFeeSplitRatios = bank.TransactionFeeSplitRatios{ForProposer: frac(sp[0]), ForCompany: frac(sp[1])}
	bp.CompanyAccount = addr(0)
	if s.N > 3 && r.Intn(2) == 0 {
		bp.CompanyAccount = addr(1 + r.Intn(s.N-1))
	}
	if r.Intn(3) == 0 {
		for _, i := range r.Perm(s.N)[:pick(r, 1, 1, 2, 3, 4)] {
			bp.BlockedSenders = append(bp.BlockedSenders, addr(i))
		}
	}
	var bals []bank.Balance
	coins := make([]int64, s.N)
	dlg := make([]int64, s.N)
	starts, rows := genTable(r)
	top := []float64{7, 10, 12.2, 12.8}[s.Rich]
	for i := 0; i < s.N; i++ {
		coins[i] = logAmt(r, 5, top)
		if r.Intn(10) == 0 {
			coins[i] = pickI(r, 0, 1, 999, 1_000000, 1_990_00000)
		}
		switch r.Intn(6) {
		case 0:
		case 1:
			dlg[i] = bp.DustDelegation + pickI(r, -1, 0, 1, 2)
			if dlg[i] < 0 {
				dlg[i] = 0
			}
		default:
			dlg[i] = logAmt(r, 6, top)
		}
		if s.Mode == "sub" && r.Intn(3) != 0 {
			dlg[i] = 0 // no accruals, more time
		}
		if s.Mode == "deleg" && r.Intn(6) == 0 {
			dlg[i] = starts[r.Intn(len(starts))] + pickI(r, 0, 0, -1, 1)
			if dlg[i] < 0 {
				dlg[i] = 0
			}
		}
	}
	revs := map[int][]deleg.RevokeRequest{}
	for i := 0; i < s.N; i++ {
		if r.Intn(6) == 0 {
			n := 1 + r.Intn(2)
			for j := 0; j < n; j++ {
				revs[i] = append(revs[i], deleg.RevokeRequest{Time: time.Unix(0, t0+1+r.Int63n(20*day)).UTC(), Amount: sdk.NewInt(logAmt(r, 3, 9))})
			}
		}
		var cs sdk.Coins
		if coins[i] > 0 {
			cs = cs.Add(sdk.NewInt64Coin(util.ConfigMainDenom, coins[i]))
		}
		if dlg[i] > 0 {
			cs = cs.Add(sdk.NewInt64Coin(util.ConfigDelegatedDenom, dlg[i]))
		}
		for _, q := range revs[i] {
			cs = cs.Add(sdk.NewCoin(util.ConfigRevokingDenom, q.Amount))
			task(q.Time.UnixNano(), deleg.RevokeHookName, raw(i))
		}
		if s.Seed%5 == 3 && r.Intn(4) == 0 {
			cs = cs.Add(sdk.NewInt64Coin("ufoo", 1000))
		}
		if len(cs) > 0 {
			bals = append(bals, bank.Balance{Address: addr(i), Coins: cs})
		}
	}
	for i := s.N; i < s.N+s.Out; i++ {
		bals = append(bals, bank.Balance{Address: addr(i), Coins: util.Uartrs(int64(1_000000 * (1 + (uint64(s.Seed)*2654435761+uint64(i))%5000)))})
	}
	gs[bank.ModuleName] = cdc.MustMarshalJSON(bank.NewGenesisState(bp, bals, nil))

	// delegating
	dp := deleg.DefaultParams()
	dp.MinDelegate = pickI(r, 1, 1000, 1000, 2_000000)
	dp.Revoke = deleg.Revoke{Period: uint32(1 + r.Intn(14)), Burn: frac(pickStr(r, "5%", "0", "1/3", "1/7"))}
	dp.ExpressRevoke = deleg.Revoke{Period: uint32(1 + r.Intn(5)), Burn: frac(pickStr(r, "10%", "0", "1/2", "99/100"))}
	dp.AccruePercentageTable = tableOf(starts, rows)
	var dacc []deleg.Account
	for i := 0; i < s.N; i++ {
		x := deleg.Account{Address: addr(i), Requests: revs[i]}
		if dlg[i] > bp.DustDelegation {
			na := time.Unix(0, t0+1+r.Int63n(day)).UTC()
			x.NextAccrue = &na
			task(na.UnixNano(), deleg.AccrueHookName, raw(i))
		}
		if x.NextAccrue != nil || len(x.Requests) > 0 {
			dacc = append(dacc, x)
		}
	}
	gs[deleg.ModuleName] = cdc.MustMarshalJSON(&deleg.GenesisState{Params: *dp, Accounts: dacc})

	// profiles
	pp := profile.DefaultParams()
	pp.RenamePrice = pickI(r, 1_000000, 0, 1, 250_000)
	pp.CardMagic = uint64(r.Int63n(1 << 40))
	if r.Intn(4) == 0 {
		pp.CardMagic = uint64(r.Intn(s.N + 4)) // some account's number: its card number would be zero
		if pp.CardMagic < uint64(s.N) {
			pp.CardMagic += uint64(s.N)
		}
	}
	pp.SubscriptionPrice = uint32(pickI(r, 1990, 100, 1, 10000))
	pp.VpnGbPrice = uint32(pickI(r, 10, 1, 33))
	pp.StorageGbPrice = uint32(pickI(r, 10, 1, 7))
	pp.TokenRate = frac(pickStr(r, "100000", "1000/3", "1/7", "31415/2", "100000"))
	pp.BaseVpnGb = uint32(pickI(r, 7, 1, 3))
	pp.BaseStorageGb = uint32(pickI(r, 5, 1, 2))
	any := func() string { return addr(r.Intn(s.N)) }
	some := func(max int) (l []string) {
		for _, i := range r.Perm(s.N)[:1+r.Intn(max)] {
			l = append(l, addr(i))
		}
		return
	}
	pp.Creators = some(3)
	pp.StorageSigners = some(3)
	pp.VpnSigners = some(3)
	pp.TokenRateSigners = some(3)
	var profs []profile.GenesisProfile
	active := make([]bool, s.N)
	pAct := []float64{0.2, 0.5, 0.8, 0.97}[r.Intn(4)]
	if s.Mode == "status" || s.Shape == "comb" {
		pAct = 0.97
	}
	if s.Shape == "teams" {
		pAct = 1
	}
	for i := 0; i < s.N; i++ {
		if i != 0 && r.Intn(25) == 0 && s.Shape != "teams" {
			continue // an account without a profile
		}
		p := profile.Profile{}
		if r.Float64() < pAct {
			active[i] = true
			u := time.Unix(0, t0+1+r.Int63n(2*mon)).UTC()
			if r.Intn(3) == 0 {
				u = time.Unix(0, t0+1+r.Int63n(3*day)).UTC()
			}
			p.ActiveUntil = &u
			for t := u.UnixNano(); t > t0; t -= mon {
				task(t, profile.RefreshHookName, raw(i))
			}
			p.StorageLimit = (uint64(pp.BaseStorageGb) + uint64(r.Intn(3))) * util.GBSize
			p.VpnLimit = (uint64(pp.BaseVpnGb) + uint64(r.Intn(3))) * util.GBSize
			p.VpnCurrent = uint64(r.Int63n(int64(p.VpnLimit) + 1))
			p.StorageCurrent = uint64(r.Int63n(int64(p.StorageLimit) + 1))
			p.AutoPay = r.Intn(2) == 0
		}
		if r.Intn(4) == 0 {
			p.ImLimitExtra = uint64(1 + r.Intn(5))
			u := time.Unix(0, t0+1+r.Int63n(mon)).UTC()
			p.ExtraImUntil = &u
			p.AutoPayImExtra = r.Intn(2) == 0
			task(u.UnixNano(), profile.RefreshImHookName, raw(i))
		}
		if r.Intn(2) == 0 {
			p.Nickname = fmt.Sprintf("Nick%d", i)
		}
		p.Vpn, p.Storage, p.Noding, p.Validator = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		profs = append(profs, profile.GenesisProfile{Address: addr(i), Profile: p})
	}
	gs[profile.ModuleName] = cdc.MustMarshalJSON(&profile.GenesisState{Params: *pp, Profiles: profs})

	// referral network
	rp := referral.DefaultParams()
	rp.CompanyAccounts = referral.CompanyAccounts{ForSubscription: any()}
	rp.TransitionPrice = uint64(pickI(r, 1_000000, 0, 1, 500))
	rg := referral.GenesisState{Params: rp}
	kids := map[int][]string{}
	depth := make([]int, s.N)
	for i := 0; i < s.N; i++ {
		if par[i] < 0 {
			rg.TopLevelAccounts = append(rg.TopLevelAccounts, addr(i))
		} else {
			kids[par[i]] = append(kids[par[i]], addr(i))
			depth[i] = depth[par[i]] + 1
		}
	}
	for d := 0; d <= s.N; d++ {
		for i := 0; i < s.N; i++ {
			if depth[i] == d && len(kids[i]) > 0 {
				rg.OtherAccounts = append(rg.OtherAccounts, referral.Refs{Referrer: addr(i), Referrals: kids[i]})
			}
		}
	}
	for i := 0; i < s.N; i++ {
		if active[i] {
			continue
		}
		// inactive: before compression, or already compressed (only possible without referrals) and waiting for banishment
		switch {
		case par[i] >= 0 && len(kids[i]) == 0 && dlg[i] <= bp.DustDelegation && r.Intn(3) == 0:
			t := t0 + 1 + r.Int63n(mon)
			rg.Banishment = append(rg.Banishment, referral.Compression{Account: addr(i), Time: time.Unix(0, t).UTC()})
			task(t, "referral/banish", []byte(addr(i)))
		case par[i] >= 0 && len(kids[i]) == 0 && dlg[i] > bp.DustDelegation && r.Intn(3) == 0:
			// compressed earlier, held back from banishment by its delegation
		default:
			t := t0 + 1 + r.Int63n(2*mon)
			rg.Compressions = append(rg.Compressions, referral.Compression{Account: addr(i), Time: time.Unix(0, t).UTC()})
			task(t, "referral/compression", []byte(addr(i)))
		}
	}
	gs[referral.ModuleName] = cdc.MustMarshalJSON(&rg)

	// validators
	np := noding.DefaultParams()
	np.MaxValidators = uint32(pickI(r, 1, 2, 3, 3, 5, 100))
	np.JailAfter = uint32(pickI(r, 1, 2, 2, 3, 5))
	np.UnjailAfter = uint32(pickI(r, 1, 2, 3, 5, 8))
	np.LotteryValidators = uint32(pickI(r, 0, 0, 1, 2, 3))
	np.MinCriteria = noding.MinCriteria{Status: referral.Status(1 + r.Intn(2)), SelfStake: uint64(pickI(r, 0, 1_000000, 100_000000)), TotalStake: uint64(pickI(r, 100_000000, 1_000_000000, 10_000_000000))}
	np.VotingPower = []noding.Distribution{
		{Slices: []noding.Distribution_Slice{{Part: frac("1"), VotingPower: 10}}, LuckiesVotingPower: 10},
		{Slices: []noding.Distribution_Slice{{Part: frac("15%"), VotingPower: 15}, {Part: frac("85%"), VotingPower: 10}}, LuckiesVotingPower: 10},
		{Slices: []noding.Distribution_Slice{{Part: frac("1/3"), VotingPower: 30}, {Part: frac("1/3"), VotingPower: 20}, {Part: frac("1/3"), VotingPower: 10}}, LuckiesVotingPower: 5},
	}[r.Intn(3)]
	ng := noding.GenesisState{Params: np}
	nv := 1 + r.Intn(5)
	if s.Mode == "val" {
		nv = 2 + r.Intn(6)
	}
	perm := r.Perm(s.N)
	if s.Shape == "comb" {
		nv = 2 + r.Intn(4)
		for i, k := range r.Perm((s.N + 8) / 9) {
			for j := range perm {
				if perm[j] == 9*k {
					perm[i], perm[j] = perm[j], perm[i]
				}
			}
		}
	}
	if s.Mode == "deleg" && s.Shape == "chain" {
		// validators far above: whether a delegation pays to them depends on the depth their status opens
		perm = append(r.Perm(s.N/2), perm...)
		seen := map[int]bool{}
		n := 0
		for _, i := range perm {
			if !seen[i] {
				seen[i] = true
				perm[n] = i
				n++
			}
		}
		perm = perm[:n]
	}
	for i := 0; i < nv && i < s.N; i++ {
		ng.Active = append(ng.Active, noding.Validator{Account: addr(perm[i]), PubKey: consBech(i), Staff: true})
	}
	gs[noding.ModuleName] = cdc.MustMarshalJSON(&ng)

	// votes
	vg := voting.GenesisState{Params: voting.Params{VotingPeriod: int32(pickI(r, 1, 2, 24, 100)), PollPeriod: int32(pickI(r, 1, 2, 24))}}
	ngov := 1 + r.Intn(4)
	if s.Mode == "vote" {
		ngov = 2 + r.Intn(4)
	}
	if ngov > s.N {
		ngov = s.N
	}
	for i := 0; i < ngov; i++ {
		vg.Government = append(vg.Government, addr(perm[s.N-1-i]))
	}
	gs[voting.ModuleName] = cdc.MustMarshalJSON(&vg)

	eg := earning.GenesisState{Params: earning.Params{Signers: some(3)}}
	for i := 0; i < s.N; i++ {
		if r.Intn(5) == 0 {
			v := time.Unix(0, t0-r.Int63n(3*day)).UTC()
			w := time.Unix(0, t0-r.Int63n(3*day)).UTC()
			eg.Earners = append(eg.Earners, earning.Earner{Account: addr(i), Vpn: &v, Storage: &w})
		}
	}
	gs[earning.ModuleName] = cdc.MustMarshalJSON(&eg)
	gs[schedule.ModuleName] = cdc.MustMarshalJSON(&schedule.GenesisState{Params: schedule.Params{DayNanos: uint64(day)}, Tasks: tasks})
	return json.Marshal(gs)
}
