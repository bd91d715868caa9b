package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	storetypes "github.com/cosmos/cosmos-sdk/store/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"

	sdk "github.com/cosmos/cosmos-sdk/types"
	upgradetypes "github.com/cosmos/cosmos-sdk/x/upgrade/types"

	"github.com/arterynetwork/artr/app"
)

var debugTrace = os.Getenv("VERIF_TRACE") != ""

// Replica is one simulated node: the real application over a simulated disk.
type Replica struct {
	id                  int
	db                  *SimDB
	app                 *app.ArteryApp
	pruning             string
	minGas              string
	cache               bool
	newBin              map[string]bool // upgrades this node's binary knows
	height              int64           // last committed
	down                bool            // process not running
	upgraded            bool            // restarted with another binary in the middle of a block
	early               string          // the upgrade whose binary was installed before its time
	restarted, inCommit bool
	fresh               bool // has not executed a block since it was started
	downFor             int  // blocks until the operator starts it
	lagFor              int  // blocks it will not take part in
}

func pruningOpt(s string) storetypes.PruningOptions {
	switch s {
	case "nothing":
		return storetypes.PruneNothing
	case "default":
		return storetypes.PruneDefault
	}
	var k, e, i uint64
	if _, err := fmt.Sscanf(s, "%d,%d,%d", &k, &e, &i); err != nil {
		panic(err)
	}
	return storetypes.NewPruningOptions(k, e, i)
}

var encCfg = func() app.EncodingConfig {
	// as cmd/artrd does
	ec := app.NewEncodingConfig()
	app.ModuleBasics.RegisterInterfaces(ec.InterfaceRegistry)
	ec.InterfaceRegistry.RegisterInterface("tendermint.crypto.PubKey", (*cryptotypes.PubKey)(nil), &secp256k1.PubKey{})
	ec.InterfaceRegistry.RegisterInterface("cosmos.tx.v1beta1.Tx", (*sdk.Tx)(nil), &txtypes.Tx{})
	return ec
}()

type outcome struct {
	crash string // the simulated process stopped (fault)
	panik string // the code panicked
	stack string
}

func guard(f func()) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			if c, ok := e.(simCrash); ok {
				o.crash = c.why
				return
			}
			o.panik = fmt.Sprint(e)
			o.stack = string(debug.Stack())
			if strings.Contains(o.stack, "simdb.go") && strings.Contains(o.panik, "dead") {
				o.crash = "dead"
			}
		}
	}()
	f()
	return
}

// start boots the process on whatever its disk holds.
func (r *Replica) start() outcome {
	r.db.Revive()
	return guard(func() {
		opts := []func(*baseapp.BaseApp){baseapp.SetPruning(pruningOpt(r.pruning)), baseapp.SetMinGasPrices(r.minGas)}
		if r.cache {
			opts = append(opts, baseapp.SetInterBlockCache(newInterBlockCache()))
		}
		opts = append(opts, baseapp.SetTrace(debugTrace))
		r.app = newApp(r.db, opts...)
		uk := r.app.GetUpgradeKeeper()
		for n := range r.newBin {
			uk.SetUpgradeHandler(n, simUpgrade(r.app))
		}
		info := r.app.Info(abci.RequestInfo{})
		r.height = info.LastBlockHeight
		r.down, r.fresh = false, true
	})
}

// simUpgrade is the migration of an upgrade voted for during a run: it has an effect that shows how often it ran.
func simUpgrade(a *app.ArteryApp) upgradetypes.UpgradeHandler {
	return func(ctx sdk.Context, _ upgradetypes.Plan) {
		k := a.GetReferralKeeper()
		p := k.GetParams(ctx)
		p.TransitionPrice++
		k.SetParams(ctx, p)
	}
}
