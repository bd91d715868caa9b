From 1481dd461324b8256a4c9fcde8b3ee9d71fe8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 01/44] fix: schedule: perform due tasks one by one,
 atomically, including those scheduled meanwhile

---
 x/schedule/keeper/keeper.go | 61 +++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/x/schedule/keeper/keeper.go b/x/schedule/keeper/keeper.go
index 44d514e..07a663e 100644
--- a/x/schedule/keeper/keeper.go
+++ b/x/schedule/keeper/keeper.go
@@ -11,7 +11,6 @@ import (
 	"github.com/tendermint/tendermint/libs/log"
 
 	"github.com/cosmos/cosmos-sdk/codec"
-	"github.com/cosmos/cosmos-sdk/store/cachekv"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"
 
@@ -120,29 +119,48 @@ func (k Keeper) delete(ctx sdk.Context, time time.Time, predicate func(types.Tas
 	}
 }
 
-// PerformSchedule performs scheduled tasks for the block height. Tasks will be removed from the store when they are
-// complete.
+// PerformSchedule performs all the tasks that are due by now, in order of their time, including those that get scheduled
+// meanwhile. A task is removed from the store right before it is performed. A task that panics has no effect.
 func (k Keeper) PerformSchedule(ctx sdk.Context) {
-	store := cachekv.NewStore(ctx.KVStore(k.storeKey))
-	terminator := Key(ctx.BlockTime().Add(time.Nanosecond))
-	it := store.Iterator(nil, terminator)
-
-	for ; it.Valid(); it.Next() {
-		var sch types.Schedule
-		k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
-		for _, task := range sch.Tasks {
-			hook := k.eventHooks[task.HandlerName]
-			if hook != nil {
-				performSchedule(ctx, task, hook, k.Logger(ctx))
-			} else {
-				k.Logger(ctx).Error("callback is not registered", "hook", task.HandlerName)
-			}
+	for {
+		task, ok := k.popDueTask(ctx)
+		if !ok {
+			return
+		}
+		hook := k.eventHooks[task.HandlerName]
+		if hook != nil {
+			performSchedule(ctx, task, hook, k.Logger(ctx))
+		} else {
+			k.Logger(ctx).Error("callback is not registered", "hook", task.HandlerName)
 		}
-		store.Delete(it.Key())
 	}
+}
 
+// popDueTask takes the first of the tasks that are due by now out of the store.
+func (k Keeper) popDueTask(ctx sdk.Context) (types.Task, bool) {
+	store := ctx.KVStore(k.storeKey)
+	it := store.Iterator(nil, Key(ctx.BlockTime().Add(time.Nanosecond)))
+	if !it.Valid() {
+		it.Close()
+		return types.Task{}, false
+	}
+	var (
+		key = append([]byte(nil), it.Key()...)
+		sch types.Schedule
+	)
+	k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
 	it.Close()
-	store.Write()
+
+	if len(sch.Tasks) == 0 {
+		store.Delete(key)
+		return k.popDueTask(ctx)
+	}
+	if len(sch.Tasks) == 1 {
+		store.Delete(key)
+	} else {
+		store.Set(key, k.cdc.MustMarshalBinaryBare(&types.Schedule{Tasks: sch.Tasks[1:]}))
+	}
+	return sch.Tasks[0], true
 }
 
 func performSchedule(ctx sdk.Context, task types.Task, hook func(ctx sdk.Context, data []byte, time time.Time), logger log.Logger) {
@@ -155,7 +173,10 @@ func performSchedule(ctx sdk.Context, task types.Task, hook func(ctx sdk.Context
 			)
 		}
 	}(task.HandlerName)
-	hook(ctx, task.Data, task.Time)
+	cacheCtx, write := ctx.CacheContext()
+	hook(cacheCtx, task.Data, task.Time)
+	write()
+	ctx.EventManager().EmitEvents(cacheCtx.EventManager().Events())
 }
 
 func Key(t time.Time) []byte {
-- 
2.43.0


From 66f884eb923aa52c7e0e990e76086a9f7088e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 02/44] fix: emit event attributes in a deterministic order

---
 util/msg_server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/msg_server.go b/util/msg_server.go
index 4b9bccc..129eddc 100644
--- a/util/msg_server.go
+++ b/util/msg_server.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/gogo/protobuf/proto"
@@ -62,8 +63,15 @@ func patchEvent(tev proto.Message) sdk.Event {
 		panic(errors.Wrap(err, "cannot unmarshal JSON"))
 	}
 
+	keys := make([]string, 0, len(attrMap))
+	for k := range attrMap {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys) // all nodes must emit the same
+
 	attrs := make([]abci.EventAttribute, 0, len(attrMap))
-	for k, v := range attrMap {
+	for _, k := range keys {
+		v := attrMap[k]
 		if bytes.Equal(v, []byte("null")) {
 			continue
 		}
-- 
2.43.0


From 8eefaeecc36bf2b1128d11b95e7bfaa90b9ae804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 03/44] fix: referral: compression corrects ancestors' totals
 down to level 10

---
 x/referral/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index c61e21a..002d843 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -362,7 +362,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			value.Coins[k] = value.Coins[k].Add(coins[1])
 			value.Delegated[k] = value.Delegated[k].Add(delegated[1])
 			value.ActiveRefCounts[k] += refsCount[1]
-			for i := 1; i < 10-k; i++ {
+			for i := 1; i <= 10-k; i++ {
 				value.Coins[k+i] = value.Coins[k+i].Add(coins[i+1]).Sub(coins[i])
 				value.Delegated[k+i] = value.Delegated[k+i].Add(delegated[i+1]).Sub(delegated[i])
 				value.ActiveRefCounts[k+i] += refsCount[i+1] - refsCount[i]
-- 
2.43.0


From 4ca05a829af1b5717732f19700669087bd8a3c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 04/44] fix: referral: compression drops a pending status
 downgrade along with the status

---
 x/referral/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 002d843..2192e66 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -325,6 +325,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt(),
 		}
 		value.CompressionAt = nil
+		value.StatusDowngradeAt = nil
 		bu.addCallback(StakeChangedCallback, acc)
 		k.setStatus(ctx, value, types.STATUS_LUCKY, acc)
 		bu.addCallback(StatusUpdatedCallback, acc)
-- 
2.43.0


From d585a8c4811c82fd2cd78d5a7836155f7f906805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 05/44] fix: referral: a transition's timeout ends with the
 transition and doesn't hit the next one

---
 x/referral/keeper/keeper.go          | 16 ++++++++++++++++
 x/referral/types/expected_keepers.go |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 2192e66..818efc3 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -755,11 +755,15 @@ func (k Keeper) CancelTransition(ctx sdk.Context, subject string, timeout bool)
 	if r, err = k.Get(ctx, subject); err != nil {
 		return errors.Wrap(err, "subject account data missing")
 	}
+	if r.Transition == "" {
+		return errors.New("transition is not requested")
+	}
 	value := r.Transition
 	r.Transition = ""
 	if err = k.set(ctx, subject, r); err != nil {
 		panic(errors.Wrap(err, "cannot write to KVStore"))
 	}
+	k.cancelTransitionTimeout(ctx, subject)
 
 	var reason types.EventTransitionDeclined_Reason
 	if timeout {
@@ -800,6 +804,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	if err = k.set(ctx, subject, r); err != nil {
 		panic(errors.Wrap(err, "cannot write to KVStore"))
 	}
+	k.cancelTransitionTimeout(ctx, subject)
 
 	var (
 		bu                       = newBunchUpdater(k, ctx)
@@ -893,6 +898,17 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	return nil
 }
 
+// cancelTransitionTimeout removes the scheduled timeout of a transition that is over, so that it won't affect the next one.
+func (k Keeper) cancelTransitionTimeout(ctx sdk.Context, subject string) {
+	since := ctx.BlockTime()
+	to := since.Add(k.scheduleKeeper.OneDay(ctx) + 1)
+	for _, task := range k.scheduleKeeper.GetTasks(ctx, since, to) {
+		if task.HandlerName == TransitionTimeoutHookName && string(task.Data) == subject {
+			k.scheduleKeeper.Delete(ctx, task.Time, TransitionTimeoutHookName, task.Data)
+		}
+	}
+}
+
 // GetPendingTransition returns a new referral that the specified account is requested to be moved under. It returns
 // (nil, nil) if the account is OK, but a transition is not requested.
 func (k Keeper) GetPendingTransition(ctx sdk.Context, acc string) (string, error) {
diff --git a/x/referral/types/expected_keepers.go b/x/referral/types/expected_keepers.go
index 6c4ed62..1cabb83 100644
--- a/x/referral/types/expected_keepers.go
+++ b/x/referral/types/expected_keepers.go
@@ -8,6 +8,7 @@ import (
 	params "github.com/cosmos/cosmos-sdk/x/params/types"
 
 	"github.com/arterynetwork/artr/x/bank"
+	schedule "github.com/arterynetwork/artr/x/schedule/types"
 )
 
 // ParamSubspace defines the expected Subspace interface
@@ -25,6 +26,7 @@ type AccountKeeper interface {
 type ScheduleKeeper interface {
 	ScheduleTask(ctx sdk.Context, time time.Time, event string, data []byte)
 	Delete(ctx sdk.Context, time time.Time, event string, payload []byte)
+	GetTasks(ctx sdk.Context, since, to time.Time) []schedule.Task
 
 	OneDay(ctx sdk.Context) time.Duration
 	OneWeek(ctx sdk.Context) time.Duration
-- 
2.43.0


From 5615fc1230229785a0f2017e9d2c8e5879d7eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 06/44] fix: referral: a transition checks statuses against
 final totals, not transient ones

---
 x/referral/keeper/keeper.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 818efc3..3f9e9f9 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -809,9 +809,11 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	var (
 		bu                       = newBunchUpdater(k, ctx)
 		oldAncestor, newAncestor string
+		affected                 []string
 	)
 
-	if err = bu.update(oldParent, true, func(value *types.Info) error {
+	// Statuses are checked once all the totals are updated (see below), transient ones must not be taken into account.
+	if err = bu.update(oldParent, false, func(value *types.Info) error {
 		idx := 0
 		for ; idx < len(value.Referrals) && value.Referrals[idx] != subject; idx++ {
 		}
@@ -828,13 +830,14 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			value.ActiveRefCounts[i] -= r.ActiveRefCounts[i-1]
 		}
 
+		affected = append(affected, oldParent)
 		oldAncestor = value.Referrer
 		return nil
 	}); err != nil {
 		panic(errors.Wrap(err, "cannot update old referrer data"))
 	}
 
-	if err = bu.update(newParent, true, func(value *types.Info) error {
+	if err = bu.update(newParent, false, func(value *types.Info) error {
 		value.Referrals = append(value.Referrals, subject)
 		if r.Active {
 			value.ActiveReferrals = append(value.ActiveReferrals, subject)
@@ -846,6 +849,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			value.ActiveRefCounts[i] += r.ActiveRefCounts[i-1]
 		}
 
+		affected = append(affected, newParent)
 		newAncestor = value.Referrer
 		return nil
 	}); err != nil {
@@ -854,15 +858,19 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 
 	for level := 2; level <= 10; level++ {
 		if oldAncestor == newAncestor {
+			if oldAncestor != "" {
+				affected = append(affected, oldAncestor) // totals are the same, but its referrals' ones are not
+			}
 			break
 		}
 		if oldAncestor != "" {
-			if err = bu.update(oldAncestor, true, func(value *types.Info) error {
+			if err = bu.update(oldAncestor, false, func(value *types.Info) error {
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Sub(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-level])
 					value.ActiveRefCounts[i] -= r.ActiveRefCounts[i-level]
 				}
+				affected = append(affected, oldAncestor)
 				oldAncestor = value.Referrer
 				return nil
 			}); err != nil {
@@ -870,12 +878,13 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			}
 		}
 		if newAncestor != "" {
-			if err = bu.update(newAncestor, true, func(value *types.Info) error {
+			if err = bu.update(newAncestor, false, func(value *types.Info) error {
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Add(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-level])
 					value.ActiveRefCounts[i] += r.ActiveRefCounts[i-level]
 				}
+				affected = append(affected, newAncestor)
 				newAncestor = value.Referrer
 				return nil
 			}); err != nil {
@@ -884,6 +893,12 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		}
 	}
 
+	for _, acc := range affected {
+		if err = bu.update(acc, true, func(_ *types.Info) error { return nil }); err != nil {
+			panic(errors.Wrapf(err, "cannot check %s status", acc))
+		}
+	}
+
 	if err = bu.commit(); err != nil {
 		panic(errors.Wrap(err, "cannot commit changes"))
 	}
-- 
2.43.0


From 029def047834ac8b77421ada9d93565db6a371c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 07/44] fix: referral: transition, banishment and return report
 ancestors' stake changes

---
 x/referral/keeper/keeper.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 3f9e9f9..38d5b75 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -894,6 +894,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	}
 
 	for _, acc := range affected {
+		bu.addCallback(StakeChangedCallback, acc)
 		if err = bu.update(acc, true, func(_ *types.Info) error { return nil }); err != nil {
 			panic(errors.Wrapf(err, "cannot check %s status", acc))
 		}
@@ -986,6 +987,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 			util.RemoveStringFast(&value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Sub(c)
 			value.Delegated[1] = value.Delegated[1].Sub(d)
+			bu.addCallback(StakeChangedCallback, parent)
 
 			return nil
 		}); err != nil {
@@ -1006,6 +1008,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Sub(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Sub(d)
+				bu.addCallback(StakeChangedCallback, parent)
 
 				return nil
 			}); err != nil {
@@ -1070,6 +1073,7 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 			value.Referrals = append(value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Add(c)
 			value.Delegated[1] = value.Delegated[1].Add(d)
+			bu.addCallback(StakeChangedCallback, parent)
 
 			return nil
 		}); err != nil {
@@ -1090,6 +1094,7 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Add(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Add(d)
+				bu.addCallback(StakeChangedCallback, parent)
 
 				return nil
 			}); err != nil {
-- 
2.43.0


From 03bf447503a5350b645f8e9befdc812959d67e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 08/44] fix: referral: an unknown account cannot become a
 referrer

---
 x/referral/keeper/keeper.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 38d5b75..4d26636 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -214,6 +214,12 @@ func (k Keeper) appendChild(ctx sdk.Context, parentAcc string, childAcc string,
 	if parentAcc == "" {
 		return types.ErrParentNil
 	}
+	if !k.exists(ctx, parentAcc) {
+		return sdkerrors.Wrap(
+			sdkerrors.ErrInvalidRequest,
+			fmt.Sprintf("parent account %s doesn't exist", parentAcc),
+		)
+	}
 	if k.exists(ctx, childAcc) {
 		return sdkerrors.Wrap(
 			sdkerrors.ErrInvalidRequest,
@@ -1299,6 +1305,9 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 			return errors.New("new parent address mismatch")
 		}
 	}
+	if !k.exists(ctx, newParent) {
+		return errors.New("destination account doesn't exist")
+	}
 	if r.Referrer == newParent {
 		return errors.New("destination address is already subject's referrer")
 	}
-- 
2.43.0


From 6b375277bc8bfcfa6c38dec50690b8c221ab3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 09/44] fix: noding: a validator that lost its stake is
 switched off for real

---
 x/noding/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 0b05ec4..e75fd08 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -320,7 +320,6 @@ func (k Keeper) OnStakeChanged(ctx sdk.Context, acc sdk.AccAddress) error {
 				Reason:  reason,
 			},
 		)
-		return nil
 	}
 
 	if changed {
-- 
2.43.0


From bcdf95746c98742feb35acd73cc5f22203019fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:11 +0000
Subject: [PATCH 10/44] fix: noding: at most one validator update per key, the
 key's new holder takes precedence

---
 x/noding/keeper/keeper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index e75fd08..d6af1f1 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -504,8 +504,10 @@ func (k Keeper) GatherValidatorUpdates(ctx sdk.Context) ([]abci.ValidatorUpdate,
 	for _, x := range result {
 		found := false
 		for j, y := range unique {
-			if x.PubKey == y.PubKey {
-				unique[j] = x
+			if x.PubKey.Equal(y.PubKey) {
+				if x.Power != 0 {
+					unique[j] = x
+				}
 				found = true
 				break
 			}
-- 
2.43.0


From 88abf4a13f2aabe8717300896daf4193f156499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:11 +0000
Subject: [PATCH 11/44] fix: noding: a jailed validator's key cannot be taken
 by another one

---
 x/noding/keeper/keeper.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index d6af1f1..7552ca6 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -193,12 +193,20 @@ func (k Keeper) SwitchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.Pub
 	}
 
 	consAddr := sdk.GetConsAddress(key)
-	_, found, active, err := k.GetValidatorByConsAddr(ctx, consAddr)
+	holder, found, busy, err := k.GetValidatorByConsAddr(ctx, consAddr)
 	if err != nil {
 		k.Logger(ctx).Error("couldn't Get validator by consensus address", "consAddr", consAddr)
 		return err
 	}
-	if found && active {
+	if found && !busy {
+		// A jailed validator still holds its key, it's going to need it after unjailing
+		data, err := k.Get(ctx, holder)
+		if err != nil {
+			return sdkerrors.Wrapf(err, "cannot get data for %s", holder.String())
+		}
+		busy = data.Status && data.Jailed && data.PubKey == bech32FromCryptoPubKey(key)
+	}
+	if found && busy {
 		k.Logger(ctx).Error("validator with same public key already exists", "pubKey", key)
 		return types.ErrPubkeyBusy
 	}
-- 
2.43.0


From 7390c2ab9f68e60e429dca97edfd5191717d30f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 12/44] fix: noding: one unknown signer or offender doesn't
 spare the rest

---
 x/noding/abci.go | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/x/noding/abci.go b/x/noding/abci.go
index 634be65..a21d2aa 100644
--- a/x/noding/abci.go
+++ b/x/noding/abci.go
@@ -55,38 +55,41 @@ func findValidatorAccAddress(ctx sdk.Context, k Keeper, validator abci.Validator
 	return accAddr, nil
 }
 
-// punishWrongdoers - records infractions to the store and ban validators if needed
-func punishWrongdoers(ctx sdk.Context, evz []abci.Evidence, k Keeper) error {
+// punishWrongdoers - records infractions to the store and ban validators if needed. A failure doesn't affect the rest of
+// evidences, the first one is returned.
+func punishWrongdoers(ctx sdk.Context, evz []abci.Evidence, k Keeper) (firstErr error) {
 	for _, ev := range evz {
 		accAddr, err := findValidatorAccAddress(ctx, k, ev.Validator)
-		if err != nil {
-			return err
+		if err == nil {
+			err = k.MarkByzantine(ctx, accAddr, ev)
 		}
-		err = k.MarkByzantine(ctx, accAddr, ev)
-		if err != nil {
-			return err
+		if err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
-// markStrokesAndTicks - increments signed/missed block counter and jail validators if needed
-func markStrokesAndTicks(ctx sdk.Context, votes []abci.VoteInfo, k Keeper) error {
+// markStrokesAndTicks - increments signed/missed block counter and jail validators if needed. A failure doesn't affect
+// the rest of validators, the first one is returned.
+func markStrokesAndTicks(ctx sdk.Context, votes []abci.VoteInfo, k Keeper) (firstErr error) {
 	for _, vote := range votes {
 		accAddr, err := findValidatorAccAddress(ctx, k, vote.Validator)
-		if err != nil {
-			return err
-		}
-		if vote.SignedLastBlock {
-			err = k.MarkTick(ctx, accAddr)
-		} else {
-			err = k.MarkStroke(ctx, accAddr)
+		if err == nil {
+			if vote.SignedLastBlock {
+				err = k.MarkTick(ctx, accAddr)
+			} else {
+				err = k.MarkStroke(ctx, accAddr)
+			}
+			if err != nil {
+				err = sdkerrors.Wrap(err, "cannot count a block for account "+accAddr.String())
+			}
 		}
-		if err != nil {
-			return sdkerrors.Wrap(err, "cannot count a block for account "+accAddr.String())
+		if err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 func payProposerReward(ctx sdk.Context, consAddr sdk.ConsAddress, k Keeper) error {
-- 
2.43.0


From aec121dc8a64894482bee3671267e0f20a37593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 13/44] fix: noding: only keys the consensus engine supports
 can validate

---
 x/noding/types/msgs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/noding/types/msgs.go b/x/noding/types/msgs.go
index 9d464f7..13bd27e 100644
--- a/x/noding/types/msgs.go
+++ b/x/noding/types/msgs.go
@@ -4,6 +4,8 @@ import (
 	"github.com/golang/protobuf/proto"
 	"github.com/pkg/errors"
 
+	tmtypes "github.com/tendermint/tendermint/types"
+
 	crypto "github.com/cosmos/cosmos-sdk/crypto/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
@@ -88,8 +90,10 @@ func (msg MsgOn) ValidateBasic() error {
 	if _, err := sdk.AccAddressFromBech32(msg.Account); err != nil {
 		return errors.Wrap(err, "invalid account")
 	}
-	if _, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, msg.PubKey); err != nil {
+	if key, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, msg.PubKey); err != nil {
 		return errors.Wrap(err, "invalid pub_key")
+	} else if key.Type() != tmtypes.ABCIPubKeyTypeEd25519 {
+		return errors.Errorf("invalid pub_key: %s keys are not supported by consensus", key.Type())
 	}
 	return nil
 }
-- 
2.43.0


From b0b19b79db2649eb10044eb6a55f567d03833f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 14/44] fix: util: refuse fractions with a zero denominator

---
 util/fraction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/fraction.go b/util/fraction.go
index 5b0dce6..1c5e255 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -122,6 +122,9 @@ func ParseFraction(s string) (Fraction, error) {
 			if err != nil {
 				return Fraction{}, err
 			}
+			if denom.Sign() == 0 {
+				return Fraction{}, fmt.Errorf("denominator must not be zero: %s", s)
+			}
 		} else {
 			denom = big.NewInt(1)
 		}
-- 
2.43.0


From d0d0613fff4448ae2e105fa3a1df2eacd9125d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 15/44] fix: profile: store a nickname just as it's indexed,
 trimmed

---
 x/profile/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/profile/keeper/keeper.go b/x/profile/keeper/keeper.go
index e6101f0..7920cb8 100644
--- a/x/profile/keeper/keeper.go
+++ b/x/profile/keeper/keeper.go
@@ -125,6 +125,7 @@ func (k Keeper) SetProfile(ctx sdk.Context, addr sdk.AccAddress, profile types.P
 	if err := k.ValidateProfileNickname(ctx, addr, nickname); err != nil {
 		return errors.Wrap(err, "invalid nickname")
 	}
+	profile.Nickname = nickname
 
 	// If old profile filled
 	if oldProfile != nil {
-- 
2.43.0


From 4fb33f0e4f775432b0df083883e0512054e2fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 16/44] fix: profile: storage paid for while renewing an
 expired subscription is granted

---
 x/profile/keeper/subscription.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 3bfc006..4c01734 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -35,7 +35,7 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 			return errors.Errorf("storage amount is below current consumption (%dG < %d)", storageGb, profile.StorageCurrent)
 		}
 	}
-	// NOTE: We shouldn't use `storageGb` below this point in case it's zero.
+	// NOTE: We shouldn't use `storageGb` as an amount below this point in case it's zero.
 
 	tariffTotal := sdk.NewIntFromBigInt(p.TokenRate.MulInt64(int64(p.SubscriptionPrice)).BigInt())
 
@@ -69,6 +69,8 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 			}
 			profile.StorageLimit = storageB
 		}
+	} else if storageGb != 0 {
+		profile.StorageLimit = storageB
 	}
 
 	tariffTotal = tariffTotal.Add(sdk.NewIntFromBigInt(storageFeeFrac.BigInt()))
-- 
2.43.0


From b60fb90382f1826beb328e3da871d797b3267b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 17/44] fix: profile: storage price calculation doesn't
 overflow

---
 x/profile/keeper/subscription.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 4c01734..ffe9225 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -52,7 +52,8 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 	}
 
 	storageFeeFrac := p.TokenRate.
-		MulInt64((int64(storageB) - int64(p.BaseStorageGb)*util.GBSize) * int64(p.StorageGbPrice)).
+		MulInt64(int64(storageB) - int64(p.BaseStorageGb)*util.GBSize).
+		MulInt64(int64(p.StorageGbPrice)).
 		DivInt64(util.GBSize).Reduce()
 	if profile.IsActive(ctx) {
 		if storageB != profile.StorageLimit {
-- 
2.43.0


From 0b7e8aaa364f1671748f1b0eca0ebc5829ee9c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:52 +0000
Subject: [PATCH 18/44] fix: profile: VPN limit doesn't wrap around if traffic
 in use exceeds it

---
 x/profile/keeper/subscription.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index ffe9225..d5babfc 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -370,7 +370,11 @@ func (k Keeper) scheduleRenewIm(ctx sdk.Context, addr sdk.AccAddress, time time.
 func (k Keeper) resetLimits(ctx sdk.Context, addr sdk.AccAddress, p types.Params, profile *types.Profile) {
 	baseVpn := uint64(p.BaseVpnGb) * util.GBSize
 	if profile.VpnCurrent > baseVpn {
-		profile.VpnLimit -= profile.VpnCurrent - baseVpn
+		if overuse := profile.VpnCurrent - baseVpn; overuse < profile.VpnLimit {
+			profile.VpnLimit -= overuse
+		} else {
+			profile.VpnLimit = 0
+		}
 	}
 	profile.VpnCurrent = 0
 
-- 
2.43.0


From 73e9f2e669cad974f49191cf10275dcdc877d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 19/44] fix: profile: failed IM storage autopay doesn't take
 the transaction fee

---
 x/profile/keeper/subscription.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index d5babfc..287cdc0 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -449,8 +449,13 @@ func (k Keeper) monthlyImRoutine(ctx sdk.Context, addr sdk.AccAddress) error {
 	var err error
 
 	if profile.AutoPayImExtra {
-		err = k.prolongImExtra(ctx, addr, profile)
-		if err != nil {
+		// A failed payment must not leave anything behind
+		cacheCtx, write := ctx.CacheContext()
+		err = k.prolongImExtra(cacheCtx, addr, profile)
+		if err == nil {
+			write()
+			ctx.EventManager().EmitEvents(cacheCtx.EventManager().Events())
+		} else {
 			k.Logger(ctx).Error("IM store autopay failed", "addr", addr.String(), "err", err)
 		}
 	} else {
-- 
2.43.0


From cec5100e30d3aeeb19293ed7bbab1e3d8c3e60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 20/44] fix: profile: a new account cannot grant itself a
 subscription

---
 x/profile/keeper/msg_server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/msg_server.go b/x/profile/keeper/msg_server.go
index 0964e9f..a17347b 100644
--- a/x/profile/keeper/msg_server.go
+++ b/x/profile/keeper/msg_server.go
@@ -41,7 +41,17 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 	}
 
 	if msg.WithProfile() {
-		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), *msg.Profile); err != nil {
+		// Only what the user can set by MsgUpdateProfile later, the rest (subscription, limits, etc) must be paid for.
+		profile := types.Profile{
+			AutoPay:        msg.Profile.AutoPay,
+			Noding:         msg.Profile.Noding,
+			Storage:        msg.Profile.Storage,
+			Validator:      msg.Profile.Validator,
+			Vpn:            msg.Profile.Vpn,
+			AutoPayImExtra: msg.Profile.AutoPayImExtra,
+			Nickname:       msg.Profile.Nickname,
+		}
+		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), profile); err != nil {
 			return nil, errors.Wrap(err, "cannot create an account with profile")
 		}
 	} else {
-- 
2.43.0


From 51bdd61ab047d3b1da6da2153fbc381bbbafb2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:29 +0000
Subject: [PATCH 21/44] fix: profile: a nickname given at registration obeys
 the same rules as a changed one

---
 x/profile/types/msgs.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/x/profile/types/msgs.go b/x/profile/types/msgs.go
index 872699a..4e07a84 100644
--- a/x/profile/types/msgs.go
+++ b/x/profile/types/msgs.go
@@ -67,7 +67,28 @@ func (msg MsgCreateAccount) ValidateBasic() error {
 	if _, err := sdk.AccAddressFromBech32(msg.Referrer); err != nil {
 		return errors.Wrap(err, "invalid referrer")
 	}
+	if msg.WithProfile() {
+		if err := validateNickname(msg.Profile.Nickname); err != nil {
+			return errors.Wrap(err, "invalid nickname")
+		}
+	}
+
+	return nil
+}
 
+func validateNickname(s string) error {
+	if len(s) == 0 {
+		return nil
+	}
+	if strings.ContainsAny(s, ForbiddenNicknameCharacters) {
+		return ErrNicknameInvalidChars
+	}
+	if len(s) < 3 {
+		return ErrNicknameTooShort
+	}
+	if strings.HasPrefix(s, "ARTR-") {
+		return ErrNicknamePrefix
+	}
 	return nil
 }
 
@@ -135,17 +156,8 @@ func (msg MsgUpdateProfile) ValidateBasic() error {
 			if !ok {
 				return errors.Errorf("wrong update #%d value type: %T (string expected)", i, upd.Value)
 			}
-			s := val.String_
-			if len(s) != 0 {
-				if strings.ContainsAny(s, ForbiddenNicknameCharacters) {
-					return sdkerrors.Wrapf(ErrNicknameInvalidChars, "wrong update #%d value", i)
-				}
-				if len(s) < 3 {
-					return sdkerrors.Wrapf(ErrNicknameTooShort, "wrong update #%d value", i)
-				}
-				if strings.HasPrefix(s, "ARTR-") {
-					return sdkerrors.Wrapf(ErrNicknamePrefix, "wrong update #%d value", i)
-				}
+			if err := validateNickname(val.String_); err != nil {
+				return sdkerrors.Wrapf(err, "wrong update #%d value", i)
 			}
 		case
 			MsgUpdateProfile_Update_FIELD_AUTO_PAY,
-- 
2.43.0


From b72a929739bf08a763f06239aafbd9383a329c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 22/44] fix: profile: nobody can register a fee collector's
 address

---
 x/profile/keeper/msg_server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/profile/keeper/msg_server.go b/x/profile/keeper/msg_server.go
index a17347b..de6ecfc 100644
--- a/x/profile/keeper/msg_server.go
+++ b/x/profile/keeper/msg_server.go
@@ -22,6 +22,12 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 	if acc := k.accountKeeper.GetAccount(sdkCtx, msg.GetAddress()); acc != nil {
 		return nil, types.ErrAccountAlreadyExists
 	}
+	// A module account may not be created yet, but nobody must be able to occupy its address
+	for _, name := range []string{auth.FeeCollectorName, util.SplittableFeeCollectorName} {
+		if msg.GetAddress().Equals(k.accountKeeper.GetModuleAddress(name)) {
+			return nil, types.ErrAccountAlreadyExists
+		}
+	}
 
 	p := k.GetParams(sdkCtx)
 	if p.RenamePrice > 0 {
-- 
2.43.0


From 4b79014442821c06c8b95032c7f67410417f18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 23/44] fix: bank: BurnCoins reports a failure

---
 x/bank/internal/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bank/internal/keeper/keeper.go b/x/bank/internal/keeper/keeper.go
index ce34772..77af0f3 100644
--- a/x/bank/internal/keeper/keeper.go
+++ b/x/bank/internal/keeper/keeper.go
@@ -214,7 +214,7 @@ func (k BaseKeeper) BurnCoins(ctx sdk.Context, moduleName string, amt sdk.Coins)
 	}
 
 	if err := k.BurnAccCoins(ctx, acc.GetAddress(), amt); err != nil {
-		return nil
+		return err
 	}
 
 	logger := k.Logger(ctx)
-- 
2.43.0


From 6d136077f2d86d200fb7be9ab15cd66cc86f5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 24/44] fix: earning: only an authorised signer can set earning
 marks

---
 x/earning/keeper/msg_server.go |  5 ++++-
 x/earning/keeper/params.go     | 12 ++++++++++++
 x/earning/types/errors.go      |  1 +
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/msg_server.go b/x/earning/keeper/msg_server.go
index 0057484..75ae23a 100644
--- a/x/earning/keeper/msg_server.go
+++ b/x/earning/keeper/msg_server.go
@@ -16,7 +16,7 @@ type MsgServer Keeper
 var _ types.MsgServer = MsgServer{}
 
 func (s MsgServer) Set(ctx context.Context, msg *types.MsgSet) (resp *types.MsgSetResponse, err error) {
-	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}})
+	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Signer: msg.Signer, Earners: []types.Earner{msg.Earner}})
 	if err != nil {
 		return nil, err
 	}
@@ -28,6 +28,9 @@ func (s MsgServer) SetMultiple(ctx context.Context, msg *types.MsgSetMultiple) (
 	k := Keeper(s)
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
+	if !k.isSigner(sdkCtx, msg.Signer) {
+		return nil, types.ErrUnauthorized
+	}
 	for _, earner := range msg.Earners {
 		var acc sdk.AccAddress
 		acc, err = sdk.AccAddressFromBech32(earner.Account)
diff --git a/x/earning/keeper/params.go b/x/earning/keeper/params.go
index 34629c6..fa5c5ad 100644
--- a/x/earning/keeper/params.go
+++ b/x/earning/keeper/params.go
@@ -19,6 +19,9 @@ func (k Keeper) SetParams(ctx sdk.Context, params types.Params) {
 }
 
 func (k Keeper) AddSigner(ctx sdk.Context, address sdk.AccAddress) {
+	if k.isSigner(ctx, address.String()) {
+		return
+	}
 	p := k.GetParams(ctx)
 	p.Signers = append(p.Signers, address.String())
 	k.SetParams(ctx, p)
@@ -39,3 +42,12 @@ func (k Keeper) RemoveSigner(ctx sdk.Context, address sdk.AccAddress) {
 		}
 	}
 }
+
+func (k Keeper) isSigner(ctx sdk.Context, bech32 string) bool {
+	for _, signer := range k.GetParams(ctx).Signers {
+		if signer == bech32 {
+			return true
+		}
+	}
+	return false
+}
diff --git a/x/earning/types/errors.go b/x/earning/types/errors.go
index 94d2cbe..d9e3073 100644
--- a/x/earning/types/errors.go
+++ b/x/earning/types/errors.go
@@ -10,4 +10,5 @@ var (
 	ErrLocked        = sdkerrors.Register(ModuleName, 3, "earner list is locked")
 	ErrNotLocked     = sdkerrors.Register(ModuleName, 4, "earner list is not locked")
 	ErrNoMoney       = sdkerrors.Register(ModuleName, 5, "there are no coins in VPN&storage module accounts")
+	ErrUnauthorized  = sdkerrors.Register(ModuleName, 6, "sender is out of whitelist")
 )
-- 
2.43.0


From 74d457631f06b483d5488ca42646e68349cd7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:20 +0000
Subject: [PATCH 25/44] fix: voting: nobody can be in the government twice

---
 x/voting/keeper/government.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/voting/keeper/government.go b/x/voting/keeper/government.go
index 3b7629d..dd9f76b 100644
--- a/x/voting/keeper/government.go
+++ b/x/voting/keeper/government.go
@@ -38,6 +38,9 @@ func (k Keeper) RemoveGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 
 func (k Keeper) AddGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 	govs := k.GetGovernment(ctx)
+	if govs.Contains(gov) {
+		return
+	}
 	govs.Append(gov)
 	k.SetGovernment(ctx, govs)
 }
-- 
2.43.0


From d90cbba8e1f9b88964de062936465b9abd6be8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 26/44] fix: voting: proposals finished in the same block don't
 overwrite each other in the history

---
 x/voting/keeper/keeper.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 4fcb1da..87fd1fa 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -170,10 +170,7 @@ func (k Keeper) SaveProposalToHistory(ctx sdk.Context, store sdk.KVStore) {
 	if err != nil {
 		panic(err)
 	}
-	height := make([]byte, 8)
-	binary.BigEndian.PutUint64(height, uint64(ctx.BlockHeight()))
-	key := append(types.KeyHistoryPrefix, height...)
-	store.Set(key, historyBz)
+	store.Set(historyKey(store, ctx.BlockHeight()), historyBz)
 }
 
 func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalHistoryRecord) {
@@ -182,10 +179,22 @@ func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalH
 	if err != nil {
 		panic(err)
 	}
-	height := make([]byte, 8)
-	binary.BigEndian.PutUint64(height, uint64(record.Finished))
-	key := append(types.KeyHistoryPrefix, height...)
-	store.Set(key, historyBz)
+	store.Set(historyKey(store, record.Finished), historyBz)
+}
+
+// historyKey makes a vacant key for a proposal finished at the height specified. Usually, it's just the height, but
+// a number is added if there already are proposals finished in the same block.
+func historyKey(store sdk.KVStore, height int64) []byte {
+	key := make([]byte, len(types.KeyHistoryPrefix)+8)
+	copy(key, types.KeyHistoryPrefix)
+	binary.BigEndian.PutUint64(key[len(types.KeyHistoryPrefix):], uint64(height))
+	base := key
+	for n := uint32(1); store.Has(key); n++ {
+		key = make([]byte, len(base)+4)
+		copy(key, base)
+		binary.BigEndian.PutUint32(key[len(base):], n)
+	}
+	return key
 }
 
 func (k Keeper) SetStartBlock(ctx sdk.Context) {
-- 
2.43.0


From 902ca328f8049384b2e097baeb45b28ab0acc90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 27/44] fix: voting: genesis import doesn't check again if
 respondents are allowed to answer

---
 x/voting/keeper/keeper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 87fd1fa..e3b4068 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -599,6 +599,11 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 		}
 	}
 
+	return k.saveAnswer(ctx, acc, yes)
+}
+
+// saveAnswer counts an answer of a respondent whose right to answer is already checked.
+func (k Keeper) saveAnswer(ctx sdk.Context, acc string, yes bool) error {
 	store := prefix.NewStore(ctx.KVStore(k.storeKey), types.KeyPollPrefix)
 	ansStore := prefix.NewStore(store, types.KeyPollAnswers)
 	key := []byte(acc)
@@ -749,7 +754,7 @@ func (k Keeper) LoadPolls(ctx sdk.Context, state types.GenesisState) {
 	if state.CurrentPoll != nil {
 		store.Set(types.KeyPollCurrent, k.cdc.MustMarshalBinaryBare(state.CurrentPoll))
 		for _, ans := range state.PollAnswers {
-			if err := k.Answer(ctx, ans.Acc, ans.Ans); err != nil {
+			if err := k.saveAnswer(ctx, ans.Acc, ans.Ans); err != nil {
 				panic(err)
 			}
 		}
-- 
2.43.0


From 88d17e7be1ab084359232bd3bebdff7bb46cefc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:24 +0000
Subject: [PATCH 28/44] fix: voting: exported genesis without a proposal is
 valid

---
 x/voting/types/genesis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/voting/types/genesis.go b/x/voting/types/genesis.go
index c6bd2e7..7d0997e 100644
--- a/x/voting/types/genesis.go
+++ b/x/voting/types/genesis.go
@@ -46,10 +46,10 @@ func ValidateGenesis(data GenesisState) error {
 		if data.StartBlock != 0 {
 			return errors.New("invalid start_block: must be zero unless current_proposal is set")
 		}
-		if data.Agreed != nil {
+		if len(data.Agreed) != 0 {
 			return errors.New("invalid agreed: must be empty unless current_proposal is set")
 		}
-		if data.Disagreed != nil {
+		if len(data.Disagreed) != 0 {
 			return errors.New("invalid disagreed: must be empty unless current_proposal is set")
 		}
 	} else {
-- 
2.43.0


From 67043ca2bf917857d5c195d31a1648569508c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:18 +0000
Subject: [PATCH 29/44] fix: delegating: genesis keeps missed parts of accrual
 periods

---
 proto/artery/delegating/v1beta1/genesis.proto | 6 ++++++
 x/delegating/keeper/genesis.go                | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/proto/artery/delegating/v1beta1/genesis.proto b/proto/artery/delegating/v1beta1/genesis.proto
index ff6735b..12652cc 100644
--- a/proto/artery/delegating/v1beta1/genesis.proto
+++ b/proto/artery/delegating/v1beta1/genesis.proto
@@ -37,4 +37,10 @@ message Account {
     (gogoproto.nullable) = false,
     (gogoproto.moretags) = "yaml:\"requests,omitempty\""
   ];
+  string missed_part = 16 [
+    (gogoproto.nullable)   = true,
+    (gogoproto.customtype) = "github.com/arterynetwork/artr/util.Fraction",
+    (gogoproto.jsontag)    = "missed_part,omitempty",
+    (gogoproto.moretags)   = "yaml:\"missed_part,omitempty\""
+  ];
 }
diff --git a/x/delegating/keeper/genesis.go b/x/delegating/keeper/genesis.go
index b88711b..f3767ca 100644
--- a/x/delegating/keeper/genesis.go
+++ b/x/delegating/keeper/genesis.go
@@ -20,6 +20,7 @@ func (k Keeper) InitAccounts(ctx sdk.Context, accounts []types.Account) {
 		item := types.Record{
 			NextAccrue: account.NextAccrue,
 			Requests:   account.Requests,
+			MissedPart: account.MissedPart,
 		}
 		bz := k.cdc.MustMarshalBinaryBare(&item)
 		store.Set(byteKey, bz)
@@ -39,6 +40,7 @@ func (k Keeper) ExportAccounts(ctx sdk.Context) []types.Account {
 			Address:    acc.String(),
 			NextAccrue: r.NextAccrue,
 			Requests:   r.Requests,
+			MissedPart: r.MissedPart,
 		})
 	}
 	return result
-- 
2.43.0


From 347ea98a6927569951bea56f92de6b940f3eff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 30/44] fix: delegating: revoking cannot burn everything, as
 documented

---
 x/delegating/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/delegating/types/types.go b/x/delegating/types/types.go
index 4d8033a..efbb85b 100644
--- a/x/delegating/types/types.go
+++ b/x/delegating/types/types.go
@@ -132,7 +132,7 @@ func (r Revoke) Validate() error {
 	if r.Period < 1 {
 		return errors.New("Period must be at least 1")
 	}
-	if r.Burn.GT(util.Percent(100)) {
+	if r.Burn.GTE(util.Percent(100)) {
 		return errors.New("Burn must be less than 100%")
 	}
 	if r.Burn.IsNegative() {
-- 
2.43.0


From f1a9c1d8859bc4d2d1c4c9dcc885905f0b25545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:35 +0000
Subject: [PATCH 31/44] fix: app: gas fees can be paid in sendable coins only

---
 app/app.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/app/app.go b/app/app.go
index 466b281..424d807 100644
--- a/app/app.go
+++ b/app/app.go
@@ -29,6 +29,7 @@ import (
 	serverTypes "github.com/cosmos/cosmos-sdk/server/types"
 	"github.com/cosmos/cosmos-sdk/simapp"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 	"github.com/cosmos/cosmos-sdk/types/module"
 	"github.com/cosmos/cosmos-sdk/version"
 	"github.com/cosmos/cosmos-sdk/x/auth"
@@ -511,12 +512,12 @@ func NewArteryApp(
 
 	// The AnteHandler handles signature verification and transaction pre-processing
 	app.SetAnteHandler(
-		ante.NewAnteHandler(
+		withSendableFee(ante.NewAnteHandler(
 			app.accountKeeper,
 			app.bankKeeper,
 			ante.DefaultSigVerificationGasConsumer,
 			ec.TxConfig.SignModeHandler(),
-		),
+		)),
 	)
 
 	// initialize stores
@@ -533,6 +534,20 @@ func NewArteryApp(
 	return app
 }
 
+// withSendableFee refuses fees in coins that must not leave their owner, e.g. delegated ones.
+func withSendableFee(next sdk.AnteHandler) sdk.AnteHandler {
+	return func(ctx sdk.Context, tx sdk.Tx, simulate bool) (sdk.Context, error) {
+		if feeTx, ok := tx.(sdk.FeeTx); ok {
+			for _, coin := range feeTx.GetFee() {
+				if !util.IsSendable(coin.Denom) {
+					return ctx, sdkerrors.Wrapf(sdkerrors.ErrInsufficientFee, "fee cannot be paid in %s", coin.Denom)
+				}
+			}
+		}
+		return next(ctx, tx, simulate)
+	}
+}
+
 func (app *ArteryApp) RegisterInterfaces(registry codecTypes.InterfaceRegistry) {
 	for _, am := range app.mm.Modules {
 		am.RegisterInterfaces(registry)
-- 
2.43.0


From f25e0d5b932dd1616fcef540c79f9aac0e731e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 32/44] fix: profile: an account without a profile is just not
 active

---
 x/profile/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/profile/types/types.go b/x/profile/types/types.go
index 04cac16..a814d45 100644
--- a/x/profile/types/types.go
+++ b/x/profile/types/types.go
@@ -10,8 +10,8 @@ import (
 
 const freeImStorageGb = 5
 
-func (p Profile) IsActive(ctx sdk.Context) bool {
-	return p.ActiveUntil != nil && p.ActiveUntil.After(ctx.BlockTime())
+func (p *Profile) IsActive(ctx sdk.Context) bool {
+	return p != nil && p.ActiveUntil != nil && p.ActiveUntil.After(ctx.BlockTime())
 }
 
 func (p Profile) IsExtraImStorageActive(ctx sdk.Context) bool {
-- 
2.43.0


From e28bc396a032b7c21f0b6665a4ff2edc82862403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:31 +0000
Subject: [PATCH 33/44] fix: voting: a failed or simulated transaction doesn't
 count poll answers

---
 x/voting/keeper/keeper.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index e3b4068..ea0a475 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -621,16 +621,13 @@ func (k Keeper) saveAnswer(ctx sdk.Context, acc string, yes bool) error {
 	}
 	ansStore.Set(key, ans)
 
-	var (
-		bz    []byte
-		value uint64
-	)
-	if bz = store.Get(countKey); bz != nil {
+	var value uint64
+	if bz := store.Get(countKey); bz != nil {
 		value = binary.BigEndian.Uint64(bz)
-	} else {
-		bz = make([]byte, 8)
 	}
 	value += 1
+	// The slice a store returns belongs to its caches, it must not be changed in place.
+	bz := make([]byte, 8)
 	binary.BigEndian.PutUint64(bz, value)
 	store.Set(countKey, bz)
 
-- 
2.43.0


From 4522c625e1e9b0cdcfe0b99b8a24562dbb5d6cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 34/44] fix: noding: genesis keeps the lottery queue

---
 proto/artery/noding/v1beta1/genesis.proto | 5 +++++
 x/noding/keeper/keeper.go                 | 3 +++
 x/noding/types/genesis.go                 | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/proto/artery/noding/v1beta1/genesis.proto b/proto/artery/noding/v1beta1/genesis.proto
index f50396f..9da0ad7 100644
--- a/proto/artery/noding/v1beta1/genesis.proto
+++ b/proto/artery/noding/v1beta1/genesis.proto
@@ -76,6 +76,11 @@ message Validator {
     (gogoproto.jsontag)  = "proposed_blocks,omitempty",
     (gogoproto.moretags) = "yaml:\"proposed_blocks,omitempty\""
   ];
+  // LotteryNo - number in the lottery validators' queue
+  uint64 lottery_no = 12 [
+    (gogoproto.jsontag)  = "lottery_no,omitempty",
+    (gogoproto.moretags) = "yaml:\"lottery_no,omitempty\""
+  ];
 
   repeated tendermint.abci.Evidence infractions = 16 [
     (gogoproto.nullable) = false,
diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 7552ca6..f2729da 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -610,6 +610,9 @@ func (k Keeper) SetActiveValidators(ctx sdk.Context, validators []types.Validato
 		for _, h := range v.ProposedBlocks {
 			k.addProposerToIndex(ctx, int64(h), acc)
 		}
+		if v.LotteryNo != 0 {
+			ctx.KVStore(k.indexStoreKey).Set(k.lotteryKey(v.LotteryNo), acc)
+		}
 		if err := k.SwitchOn(ctx, acc, pubkey); err != nil {
 			return errors.Wrap(err, "cannot switch on")
 		}
diff --git a/x/noding/types/genesis.go b/x/noding/types/genesis.go
index f9ba858..9e46257 100644
--- a/x/noding/types/genesis.go
+++ b/x/noding/types/genesis.go
@@ -28,6 +28,7 @@ func (v Validator) ToInfo(stake int64) Info {
 		Staff:             v.Staff,
 		ProposedCount:     v.ProposedCount,
 		JailCount:         v.JailCount,
+		LotteryNo:         v.LotteryNo,
 	}
 	res.UpdateScore(stake)
 	return res
@@ -49,6 +50,7 @@ func GenesisValidatorFromD(acc sdk.AccAddress, info Info, proposedBlocks []uint6
 		JailCount:         info.JailCount,
 		SwitchedOn:        info.Jailed && info.Status,
 		ProposedBlocks:    proposedBlocks,
+		LotteryNo:         info.LotteryNo,
 	}
 }
 
-- 
2.43.0


From 099efb2104151ec5d6cd9ec080fdf2e7bca94e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 35/44] fix: noding: a jailed validator's key cannot be taken
 after genesis import

---
 x/noding/keeper/keeper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index f2729da..fffe70d 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -633,6 +633,10 @@ func (k Keeper) SetNonActiveValidators(ctx sdk.Context, validators []types.Valid
 		for _, h := range v.ProposedBlocks {
 			k.addProposerToIndex(ctx, int64(h), acc)
 		}
+		if v.Jailed && v.SwitchedOn && len(v.PubKey) != 0 {
+			// It still holds its key, nobody else can take it
+			k.addNodeOperatorToIndex(ctx, consAddressFromCryptoBubKey(cryptoPubKeyFromBech32(v.PubKey)), acc)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 31dddde7bdc873ddf35510affd4c786e4f2dc66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 36/44] fix: app: genesis import restores balances before
 referral, so it doesn't reconsider banishment

---
 app/app.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/app.go b/app/app.go
index 424d807..9ee5a28 100644
--- a/app/app.go
+++ b/app/app.go
@@ -492,8 +492,8 @@ func NewArteryApp(
 	app.mm.SetOrderInitGenesis(
 		scheduleTypes.ModuleName,
 		authTypes.ModuleName,
-		referral.ModuleName,
 		bank.ModuleName,
+		referral.ModuleName,
 		profileTypes.ModuleName,
 		delegating.ModuleName,
 		noding.ModuleName,
-- 
2.43.0


From 5f1ab52c0fa2abd4b29f2c6b5907b4b401de0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:17 +0000
Subject: [PATCH 37/44] fix: referral: refuse a transition of an account
 outside of the structure

---
 x/referral/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 4d26636..0a348c1 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -1296,6 +1296,9 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if r, err = k.Get(ctx, subject); err != nil {
 		return errors.Wrap(err, "subject account data missing")
 	}
+	if r.IsEmpty() {
+		return errors.Wrap(types.ErrNotFound, "subject account data missing")
+	}
 	if fresh {
 		if r.Transition != "" {
 			return errors.New("transition is already requested")
-- 
2.43.0


From 341d276757c7774078e627253fe6de080ad39b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 38/44] fix: referral: count delegations at all levels if no
 depth limit is given

---
 x/referral/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 0a348c1..d815518 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -421,6 +421,9 @@ func (k Keeper) GetCoinsInNetwork(ctx sdk.Context, acc string, maxDepth int) (sd
 // (at levels that are open according the person's current status, but no deeper than `maxDepth` levels down).
 // Own coins inclusive.
 func (k Keeper) GetDelegatedInNetwork(ctx sdk.Context, acc string, maxDepth int) (sdk.Int, error) {
+	if maxDepth <= 0 {
+		maxDepth = 10
+	}
 	data, err := k.Get(ctx, acc)
 	if err != nil {
 		return sdk.Int{}, err
-- 
2.43.0


From 763acdebb080a4fb8b6d31518568d1e72625a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:31 +0000
Subject: [PATCH 39/44] fix: referral: an account outside of the structure has
 no network, a staff node of such an account broke the genesis import

---
 x/referral/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/referral/types/types.go b/x/referral/types/types.go
index 7b2b60b..dcb9b16 100644
--- a/x/referral/types/types.go
+++ b/x/referral/types/types.go
@@ -57,7 +57,7 @@ func NewInfo(referrer string, coins sdk.Int, delegated sdk.Int) Info {
 
 func (r Info) CoinsAtLevelsUpTo(n int) sdk.Int {
 	result := sdk.NewInt(0)
-	for i := 0; i <= n; i++ {
+	for i := 0; i <= n && i < len(r.Coins); i++ {
 		result = result.Add(r.Coins[i])
 	}
 	return result
@@ -65,7 +65,7 @@ func (r Info) CoinsAtLevelsUpTo(n int) sdk.Int {
 
 func (r Info) DelegatedAtLevelsUpTo(n int) sdk.Int {
 	result := sdk.NewInt(0)
-	for i := 0; i <= n; i++ {
+	for i := 0; i <= n && i < len(r.Delegated); i++ {
 		result = result.Add(r.Delegated[i])
 	}
 	return result
-- 
2.43.0


From f9da0dfe0d5bb76ae35f6bf4a6ecb98c2f0a30fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:03 +0000
Subject: [PATCH 40/44] fix: noding: validators that stay on after the criteria
 are raised do not make genesis import fail

---
 x/noding/keeper/keeper.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index fffe70d..40fc1e8 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -174,6 +174,10 @@ func (k Keeper) GetValidatorByConsAddr(ctx sdk.Context, consAddr sdk.ConsAddress
 }
 
 func (k Keeper) SwitchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.PubKey) error {
+	return k.switchOn(ctx, accAddr, key, false)
+}
+
+func (k Keeper) switchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.PubKey, skipQualification bool) error {
 	isBanned, err := k.IsBanned(ctx, accAddr)
 	if err != nil {
 		return errors.Wrap(err, "cannot check for ban")
@@ -216,7 +220,7 @@ func (k Keeper) SwitchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.Pub
 		k.Logger(ctx).Error("k.IsQualified failed", "account", accAddr, "error", err)
 		return err
 	}
-	if !isQualified {
+	if !isQualified && !skipQualification {
 		k.Logger(ctx).Error("account is not qualified for noding", "account", accAddr, "reason", reason)
 		return types.ErrNotQualified
 	}
@@ -613,7 +617,8 @@ func (k Keeper) SetActiveValidators(ctx sdk.Context, validators []types.Validato
 		if v.LotteryNo != 0 {
 			ctx.KVStore(k.indexStoreKey).Set(k.lotteryKey(v.LotteryNo), acc)
 		}
-		if err := k.SwitchOn(ctx, acc, pubkey); err != nil {
+		// It may have been switched on before the criteria were raised: it's not a reason to refuse the whole genesis
+		if err := k.switchOn(ctx, acc, pubkey, true); err != nil {
 			return errors.Wrap(err, "cannot switch on")
 		}
 	}
-- 
2.43.0


From d0b80aa34eff1fd7fb228606f8dbf56915197048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:53 +0000
Subject: [PATCH 41/44] fix: do not let an upper-case spelling of an address
 vote or answer a poll twice

---
 x/voting/keeper/keeper.go     | 2 ++
 x/voting/keeper/msg_server.go | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index ea0a475..8934910 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -455,6 +455,8 @@ func (k Keeper) Propose(ctx sdk.Context, msg types.MsgPropose) error {
 	if !gov.Contains(proposal.GetAuthor()) {
 		return errors.Wrap(types.ErrSignerNotAllowed, msg.Proposal.Author)
 	}
+	// The author may have written their address in upper case, they must be recognized when they vote anyway.
+	proposal.Author = proposal.GetAuthor().String()
 
 	params := k.GetParams(ctx)
 	endTime := ctx.BlockTime().Add(time.Duration(params.VotingPeriod) * time.Hour)
diff --git a/x/voting/keeper/msg_server.go b/x/voting/keeper/msg_server.go
index 025909d..61b9838 100644
--- a/x/voting/keeper/msg_server.go
+++ b/x/voting/keeper/msg_server.go
@@ -42,7 +42,10 @@ func (ms MsgServer) StartPoll(ctx context.Context, msg *types.MsgStartPoll) (*ty
 		sdkCtx = sdk.UnwrapSDKContext(ctx)
 		k      = Keeper(ms)
 	)
-	if err := k.StartPoll(sdkCtx, msg.Poll); err != nil {
+	// An address is case-insensitive
+	poll := msg.Poll
+	poll.Author = msg.GetAuthor().String()
+	if err := k.StartPoll(sdkCtx, poll); err != nil {
 		return nil, err
 	}
 	util.TagTx(sdkCtx, types.ModuleName, msg)
@@ -54,7 +57,7 @@ func (ms MsgServer) AnswerPoll(ctx context.Context, msg *types.MsgAnswerPoll) (*
 		sdkCtx = sdk.UnwrapSDKContext(ctx)
 		k      = Keeper(ms)
 	)
-	if err := k.Answer(sdkCtx, msg.Respondent, msg.Yes); err != nil {
+	if err := k.Answer(sdkCtx, msg.GetRespondent().String(), msg.Yes); err != nil {
 		return nil, err
 	}
 	util.TagTx(sdkCtx, types.ModuleName, msg)
-- 
2.43.0


From 91a251d2f6a6c02aef6cdd42dd3223a95c871706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:53 +0000
Subject: [PATCH 42/44] fix: recognize signers and referrers whose address is
 written in upper case

---
 x/earning/keeper/msg_server.go  |  2 +-
 x/profile/keeper/msg_server.go  | 16 ++++++++--------
 x/referral/keeper/msg_server.go | 14 ++++++++------
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/x/earning/keeper/msg_server.go b/x/earning/keeper/msg_server.go
index 75ae23a..afee0a1 100644
--- a/x/earning/keeper/msg_server.go
+++ b/x/earning/keeper/msg_server.go
@@ -28,7 +28,7 @@ func (s MsgServer) SetMultiple(ctx context.Context, msg *types.MsgSetMultiple) (
 	k := Keeper(s)
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
-	if !k.isSigner(sdkCtx, msg.Signer) {
+	if !k.isSigner(sdkCtx, msg.GetSigner().String()) {
 		return nil, types.ErrUnauthorized
 	}
 	for _, earner := range msg.Earners {
diff --git a/x/profile/keeper/msg_server.go b/x/profile/keeper/msg_server.go
index de6ecfc..205421e 100644
--- a/x/profile/keeper/msg_server.go
+++ b/x/profile/keeper/msg_server.go
@@ -31,9 +31,9 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 
 	p := k.GetParams(sdkCtx)
 	if p.RenamePrice > 0 {
-		freeCreation := false
+		freeCreation, creator := false, msg.GetCreator().String()
 		for _, acc := range p.Creators {
-			if msg.Creator == acc {
+			if creator == acc {
 				freeCreation = true
 				break
 			}
@@ -105,9 +105,9 @@ func (s MsgServer) SetStorageCurrent(ctx context.Context, msg *types.MsgSetStora
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	k := Keeper(s)
 	p := k.GetParams(sdkCtx)
-	authorized := false
+	authorized, sender := false, msg.GetSender().String()
 	for _, acc := range p.StorageSigners {
-		if msg.Sender == acc {
+		if sender == acc {
 			authorized = true
 			break
 		}
@@ -128,9 +128,9 @@ func (s MsgServer) SetVpnCurrent(ctx context.Context, msg *types.MsgSetVpnCurren
 	k := Keeper(s)
 	p := k.GetParams(sdkCtx)
 
-	authorized := false
+	authorized, sender := false, msg.GetSender().String()
 	for _, acc := range p.VpnSigners {
-		if msg.Sender == acc {
+		if sender == acc {
 			authorized = true
 			break
 		}
@@ -191,9 +191,9 @@ func (s MsgServer) SetRate(ctx context.Context, msg *types.MsgSetRate) (*types.M
 	k := Keeper(s)
 	p := k.GetParams(sdkCtx)
 
-	authorized := false
+	authorized, sender := false, msg.GetSender().String()
 	for _, acc := range p.TokenRateSigners {
-		if msg.Sender == acc {
+		if sender == acc {
 			authorized = true
 			break
 		}
diff --git a/x/referral/keeper/msg_server.go b/x/referral/keeper/msg_server.go
index 0cd93ac..518d79f 100644
--- a/x/referral/keeper/msg_server.go
+++ b/x/referral/keeper/msg_server.go
@@ -26,8 +26,8 @@ func (s MsgServer) RequestTransition(ctx context.Context, msg *types.MsgRequestT
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	if err := s.k.RequestTransition(
 		sdkCtx,
-		msg.Subject,
-		msg.Destination,
+		msg.GetSubject().String(),
+		msg.GetDestination().String(),
 	); err != nil {
 		return nil, err
 	}
@@ -38,17 +38,19 @@ func (s MsgServer) RequestTransition(ctx context.Context, msg *types.MsgRequestT
 func (s MsgServer) ResolveTransition(ctx context.Context, msg *types.MsgResolveTransition) (*types.MsgResolveTransitionResponse, error) {
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
-	referrer, err := s.k.GetParent(sdkCtx, msg.Subject)
+	subject := msg.GetSubject().String()
+
+	referrer, err := s.k.GetParent(sdkCtx, subject)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot get subject's current referrer")
 	}
-	if msg.Signer != referrer {
+	if msg.GetSigner().String() != referrer {
 		return nil, sdkerrors.Wrap(sdkerrors.ErrUnauthorized, "tx must be signed by the subject's current referrer")
 	}
 	if msg.GetApproved() {
-		err = s.k.AffirmTransition(sdkCtx, msg.Subject)
+		err = s.k.AffirmTransition(sdkCtx, subject)
 	} else {
-		err = s.k.CancelTransition(sdkCtx, msg.Subject, false)
+		err = s.k.CancelTransition(sdkCtx, subject, false)
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 65deda31797eacb7bd5f8cc6c706bc40cdd3d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:10 +0000
Subject: [PATCH 43/44] fix: update the score of a validator when its status
 changes

The number of opened lines depends on the status, so the stake the score is made
of changes with it. Until the next change of the stake the score stayed stale
(and was different after an export and import of the state).
---
 x/noding/keeper/keeper.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 40fc1e8..4dbcde2 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -274,13 +274,15 @@ func (k Keeper) OnStatusUpdate(ctx sdk.Context, acc sdk.AccAddress) error {
 		return nil
 	}
 
-	var reason types.Reason
-	is, _, reason, err = k.IsQualified(ctx, acc)
+	is, delegation, reason, err := k.IsQualified(ctx, acc)
 	if err != nil {
 		return err
 	}
 	if is {
-		return nil
+		// The number of opened lines could be changed, so could be the stake
+		return k.update(ctx, acc, func(d *types.Info) (save bool) {
+			return d.UpdateScore(delegation.Int64())
+		})
 	}
 
 	k.Logger(ctx).Info("not qualified anymore, banishing from validators", "account", acc)
-- 
2.43.0


From 862b5db70e3ff616c1ddb64e43ebdd1bab6a3821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:58 +0000
Subject: [PATCH 44/44] fix: buying messenger storage anew drops a renewal
 still scheduled for the old one

When the automatic renewal failed and the expired storage was prolonged by hand
afterwards, a renewal was scheduled in the past. It was performed after a new
purchase then, and charged the account for another month at once.
---
 x/profile/keeper/subscription.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 287cdc0..2d22db7 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -232,6 +232,10 @@ func (k Keeper) BuyImStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint3
 	} else {
 		profile.ImLimitExtra = uint64(extraGb)
 
+		if profile.ExtraImUntil != nil {
+			// A renewal of what has expired could be still scheduled
+			k.scheduleKeeper.Delete(ctx, *profile.ExtraImUntil, types.RefreshImHookName, addr.Bytes())
+		}
 		until := ctx.BlockTime().Add(k.scheduleKeeper.OneMonth(ctx))
 		profile.ExtraImUntil = &until
 		k.scheduleRenewIm(ctx, addr, until)
-- 
2.43.0

