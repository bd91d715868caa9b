package main

import (
	"crypto/sha256"
	"fmt"
	"strings"
	"time"

	"github.com/cosmos/cosmos-sdk/client"
	clienttx "github.com/cosmos/cosmos-sdk/client/tx"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	deleg "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// Msg is one message of a transaction plan. Accounts are indices into the universe of the run; -1 means "none".
type Msg struct {
	Op string   `json:"op"`
	A  int      `json:"a"`
	B  int      `json:"b,omitempty"`
	C  int      `json:"c,omitempty"`
	N  int64    `json:"n,omitempty"`
	M  int64    `json:"m,omitempty"`
	D  int      `json:"d,omitempty"` // denomination
	S  string   `json:"s,omitempty"`
	F  bool     `json:"f,omitempty"`
	F2 bool     `json:"f2,omitempty"`
	L  []int    `json:"l,omitempty"`
	T  []int64  `json:"t,omitempty"`
	X  []string `json:"x,omitempty"`
	U  int      `json:"u,omitempty"` // addresses in upper case: 1 the signer's, 2 the others'
}

// Tx is a transaction plan.
type Tx struct {
	ID       int    `json:"id"`
	Msgs     []Msg  `json:"msgs,omitempty"`
	Fee      int64  `json:"fee,omitempty"`
	FeeD     int    `json:"feeD,omitempty"`
	Gas      int64  `json:"gas,omitempty"`
	SeqOff   int    `json:"seqOff,omitempty"`
	BadKey   bool   `json:"badKey,omitempty"` // signed with a stranger's key
	Chain    string `json:"chain,omitempty"`  // signed for another chain
	TimeoutH int64  `json:"timeoutH,omitempty"`
	Raw      []byte `json:"raw,omitempty"`    // garbage bytes instead of a transaction
	Resend   int    `json:"resend,omitempty"` // deliver the very bytes of transaction #Resend again
}

func keyOf(i int) *secp256k1.PrivKey {
	h := sha256.Sum256([]byte(fmt.Sprintf("artr-sim-account-%d", i)))
	return secp256k1.GenPrivKeyFromSecret(h[:])
}

var (
	keyCache  = map[int]*secp256k1.PrivKey{}
	addrCache = map[int]string{}
	consCache = map[int]*ed25519.PubKey{}
)

func privOf(i int) *secp256k1.PrivKey {
	k := keyCache[i]
	if k == nil {
		k = keyOf(i)
		keyCache[i] = k
	}
	return k
}

func addrOf(i int) string {
	a, ok := addrCache[i]
	if !ok {
		a = sdk.AccAddress(privOf(i).PubKey().Address()).String()
		addrCache[i] = a
	}
	return a
}

// consKey is the n-th consensus key of the run.
func consKey(i int) *ed25519.PubKey {
	k := consCache[i]
	if k == nil {
		h := sha256.Sum256([]byte(fmt.Sprintf("artr-sim-cons-%d", i)))
		k = &ed25519.PubKey{Key: ed25519.GenPrivKeyFromSecret(h[:]).PubKey().Bytes()}
		consCache[i] = k
	}
	return k
}

func consBech(i int) string {
	var pk cryptotypes.PubKey = consKey(i)
	if i >= 1000 { // a key of a type that consensus does not accept
		pk = privOf(i).PubKey()
	}
	s, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeConsPub, pk)
	if err != nil {
		panic(err)
	}
	return s
}

func frac(s string) util.Fraction {
	f, err := util.ParseFraction(s)
	if err != nil {
		panic(fmt.Sprintf("bad fraction %q: %v", s, err))
	}
	return f
}

func nsTime(n int64) *time.Time {
	if n == 0 {
		return nil
	}
	t := time.Unix(0, n).UTC()
	return &t
}

// build makes the real message of a plan. acct maps an account index to its address.
func (m Msg) build(lower func(int) string) sdk.Msg {
	// An address may be written in upper case as well, it stays the same account.
	acct := func(i int) string {
		a := lower(i)
		if i == m.A && m.U&1 != 0 || i != m.A && m.U&2 != 0 {
			return strings.ToUpper(a)
		}
		return a
	}
	amt := func() sdk.Int { return sdk.NewInt(m.N) }
	switch m.Op {
	case "send":
		cs := sdk.Coins{sdk.Coin{Denom: denoms[m.D], Amount: amt()}}
		if m.M != 0 { // a second denomination, kept in sorted order
			d2 := (m.D + 1) % nDenom
			c2 := sdk.Coin{Denom: denoms[d2], Amount: sdk.NewInt(m.M)}
			if denoms[d2] < denoms[m.D] {
				cs = sdk.Coins{c2, cs[0]}
			} else {
				cs = append(cs, c2)
			}
		}
		return &bank.MsgSend{FromAddress: acct(m.A), ToAddress: acct(m.B), Amount: cs}
	case "burn":
		return &bank.MsgBurn{Account: acct(m.A), Amount: uint64(m.N)}
	case "delegate":
		return &deleg.MsgDelegate{Address: acct(m.A), MicroCoins: amt()}
	case "revoke":
		return &deleg.MsgRevoke{Address: acct(m.A), MicroCoins: amt()}
	case "xrevoke":
		return &deleg.MsgExpressRevoke{Address: acct(m.A), MicroCoins: amt()}
	case "earn":
		return &earning.MsgSet{Signer: acct(m.A), Earner: earning.Earner{Account: acct(m.B), Vpn: nsTime(m.N), Storage: nsTime(m.M)}}
	case "earnmulti":
		r := &earning.MsgSetMultiple{Signer: acct(m.A)}
		for i, x := range m.L {
			r.Earners = append(r.Earners, earning.Earner{Account: acct(x), Vpn: nsTime(m.T[2*i]), Storage: nsTime(m.T[2*i+1])})
		}
		return r
	case "create":
		r := &profile.MsgCreateAccount{Creator: acct(m.A), Address: acct(m.B), Referrer: acct(m.C)}
		if m.F {
			r.Profile = &profile.Profile{Nickname: m.S}
			if m.F2 { // a greedy profile
				r.Profile.AutoPay = true
				r.Profile.StorageLimit = 1 << 40
				r.Profile.VpnLimit = 1 << 41
				r.Profile.ImLimitExtra = 7
				r.Profile.ActiveUntil = nsTime(m.N)
				r.Profile.ExtraImUntil = nsTime(m.M)
				r.Profile.CardNumber = 12345
			}
		}
		return r
	case "profile":
		r := &profile.MsgUpdateProfile{Address: acct(m.A)}
		for i, x := range m.X {
			u := profile.MsgUpdateProfile_Update{}
			b := len(m.L) > i && m.L[i] == 1
			u.Value = &profile.MsgUpdateProfile_Update_Bool{Bool: b}
			switch x {
			case "autopay":
				u.Field = profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY
			case "noding":
				u.Field = profile.MsgUpdateProfile_Update_FIELD_NODING
			case "storage":
				u.Field = profile.MsgUpdateProfile_Update_FIELD_STORAGE
			case "validator":
				u.Field = profile.MsgUpdateProfile_Update_FIELD_VALIDATOR
			case "vpn":
				u.Field = profile.MsgUpdateProfile_Update_FIELD_VPN
			case "imautopay":
				u.Field = profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY
			case "nick":
				u.Field = profile.MsgUpdateProfile_Update_FIELD_NICKNAME
				u.Value = &profile.MsgUpdateProfile_Update_String_{String_: m.S}
			}
			r.Updates = append(r.Updates, u)
		}
		return r
	case "storagecur":
		return &profile.MsgSetStorageCurrent{Sender: acct(m.A), Address: acct(m.B), Value: uint64(m.N)}
	case "vpncur":
		return &profile.MsgSetVpnCurrent{Sender: acct(m.A), Address: acct(m.B), Value: uint64(m.N)}
	case "rate":
		return &profile.MsgSetRate{Sender: acct(m.A), Value: frac(m.S)}
	case "tariff":
		return &profile.MsgPayTariff{Address: acct(m.A), StorageAmount: uint32(m.N)}
	case "buystorage":
		return &profile.MsgBuyStorage{Address: acct(m.A), ExtraStorage: uint32(m.N)}
	case "givestorage":
		return &profile.MsgGiveStorageUp{Address: acct(m.A), Amount: uint32(m.N)}
	case "buyvpn":
		return &profile.MsgBuyVpn{Address: acct(m.A), ExtraTraffic: uint32(m.N)}
	case "buyim":
		return &profile.MsgBuyImExtraStorage{Address: acct(m.A), ExtraStorage: uint32(m.N)}
	case "giveim":
		return &profile.MsgGiveUpImExtra{Address: acct(m.A), Amount: uint32(m.N)}
	case "prolongim":
		return &profile.MsgProlongImExtra{Address: acct(m.A)}
	case "on":
		return &noding.MsgOn{Account: acct(m.A), PubKey: consBech(int(m.N))}
	case "off":
		return &noding.MsgOff{Account: acct(m.A)}
	case "unjail":
		return &noding.MsgUnjail{Account: acct(m.A)}
	case "reqtrans":
		return &referral.MsgRequestTransition{Subject: acct(m.A), Destination: acct(m.B)}
	case "restrans":
		return &referral.MsgResolveTransition{Signer: acct(m.A), Subject: acct(m.B), Decline: m.F}
	case "vote":
		return &voting.MsgVote{Voter: acct(m.A), Agree: m.F}
	case "poll":
		p := voting.Poll{Name: m.S, Author: acct(m.A), Question: "q?"}
		if len(m.X) > 0 && m.X[0] != "" {
			q := frac(m.X[0])
			p.Quorum = &q
		}
		switch {
		case m.N == -1:
			p.Requirements = &voting.Poll_CanValidate{CanValidate: &voting.Poll_Unit{}}
		case m.N > 0:
			p.Requirements = &voting.Poll_MinStatus{MinStatus: referral.Status(m.N)}
		}
		return &voting.MsgStartPoll{Poll: p}
	case "answer":
		return &voting.MsgAnswerPoll{Respondent: acct(m.A), Yes: m.F}
	case "propose":
		return &voting.MsgPropose{Proposal: m.proposal(acct)}
	}
	panic("unknown op " + m.Op)
}

// proposal: D is the type, N/M/S/X/L/T its arguments.
func (m Msg) proposal(acct func(int) string) voting.Proposal {
	p := voting.Proposal{Name: m.S, Author: acct(m.A), Type: voting.ProposalType(m.D)}
	addr := func() { p.Args = &voting.Proposal_Address{Address: &voting.AddressArgs{Address: acct(m.B)}} }
	switch p.Type {
	case voting.PROPOSAL_TYPE_ENTER_PRICE, voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE, voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE,
		voting.PROPOSAL_TYPE_TRANSITION_PRICE:
		p.Args = &voting.Proposal_Price{Price: &voting.PriceArgs{Price: uint32(m.N)}}
	case voting.PROPOSAL_TYPE_GOVERNMENT_ADD, voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, voting.PROPOSAL_TYPE_FREE_CREATOR_ADD,
		voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE,
		voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE, voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD,
		voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE, voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE,
		voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE, voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD,
		voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE:
		addr()
	case voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE:
		p.Args = &voting.Proposal_SoftwareUpgrade{SoftwareUpgrade: &voting.SoftwareUpgradeArgs{Name: m.X[0], Info: "sim", Time: nsTime(m.N)}}
	case voting.PROPOSAL_TYPE_MIN_SEND, voting.PROPOSAL_TYPE_MIN_DELEGATE, voting.PROPOSAL_TYPE_DUST_DELEGATION, voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE:
		p.Args = &voting.Proposal_MinAmount{MinAmount: &voting.MinAmountArgs{MinAmount: m.N}}
	case voting.PROPOSAL_TYPE_MAX_VALIDATORS, voting.PROPOSAL_TYPE_LUCKY_VALIDATORS, voting.PROPOSAL_TYPE_JAIL_AFTER:
		p.Args = &voting.Proposal_Count{Count: &voting.CountArgs{Count: uint32(m.N)}}
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA:
		p.Args = &voting.Proposal_MinCriteria{MinCriteria: &voting.MinCriteriaArgs{MinCriteria: &noding.MinCriteria{
			Status: referral.Status(m.C), SelfStake: uint64(m.N), TotalStake: uint64(m.M)}}}
	case voting.PROPOSAL_TYPE_VOTING_POWER:
		d := &noding.Distribution{LuckiesVotingPower: m.N}
		for i, x := range m.X {
			d.Slices = append(d.Slices, noding.Distribution_Slice{Part: frac(x), VotingPower: m.T[i]})
		}
		p.Args = &voting.Proposal_VotingPower{VotingPower: d}
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE:
		p.Args = &voting.Proposal_Portion{Portion: &voting.PortionArgs{Fraction: frac(m.X[0])}}
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS:
		a := &voting.PortionsArgs{}
		for _, x := range m.X {
			a.Fractions = append(a.Fractions, frac(x))
		}
		p.Args = &voting.Proposal_Portions{Portions: a}
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE:
		p.Args = &voting.Proposal_AccruePercentageTable{AccruePercentageTable: &voting.AccruePercentageTableArgs{AccruePercentageTable: tableOf(m.T, m.X)}}
	case voting.PROPOSAL_TYPE_REVOKE, voting.PROPOSAL_TYPE_EXPRESS_REVOKE:
		p.Args = &voting.Proposal_Revoke{Revoke: &voting.RevokeArgs{Revoke: &deleg.Revoke{Period: uint32(m.N), Burn: frac(m.X[0])}}}
	}
	return p
}

func tableOf(starts []int64, rows []string) []deleg.PercentageListRange {
	var r []deleg.PercentageListRange
	w := len(rows) / len(starts)
	for i, s := range starts {
		x := deleg.PercentageListRange{Start: uint64(s)}
		for j := 0; j < w; j++ {
			x.PercentList = append(x.PercentList, frac(rows[i*w+j]))
		}
		r = append(r, x)
	}
	return r
}

// signerOf is the index of the account that has to sign a message.
func (m Msg) signerOf() int { return m.A }

func signTx(cfg client.TxConfig, t Tx, msgs []sdk.Msg, signers []int, nums, seqs []uint64, chainID string) ([]byte, error) {
	b := cfg.NewTxBuilder()
	if err := b.SetMsgs(msgs...); err != nil {
		return nil, err
	}
	gas := t.Gas
	if gas == 0 {
		gas = 100_000_000
	}
	b.SetGasLimit(uint64(gas))
	if t.Fee > 0 {
		b.SetFeeAmount(sdk.Coins{sdk.NewInt64Coin(denoms[t.FeeD], t.Fee)})
	}
	if t.TimeoutH > 0 {
		b.SetTimeoutHeight(uint64(t.TimeoutH))
	}
	if t.Chain != "" {
		chainID = t.Chain
	}
	mode := cfg.SignModeHandler().DefaultMode()
	sigs := make([]signing.SignatureV2, len(signers))
	privs := make([]*secp256k1.PrivKey, len(signers))
	for i, s := range signers {
		privs[i] = privOf(s)
		if t.BadKey {
			privs[i] = privOf(s + 100000)
		}
		sigs[i] = signing.SignatureV2{PubKey: privOf(s).PubKey(), Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: seqs[i]}
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	for i := range signers {
		sd := authsigning.SignerData{ChainID: chainID, AccountNumber: nums[i], Sequence: seqs[i]}
		sig, err := clienttx.SignWithPrivKey(mode, sd, b, privs[i], cfg, seqs[i])
		if err != nil {
			return nil, err
		}
		sig.PubKey = privOf(signers[i]).PubKey()
		sigs[i] = sig
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	return cfg.TxEncoder()(b.GetTx())
}
