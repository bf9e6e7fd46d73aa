From 16f65446bbb4ea125e05d2c0db9d6e6f4a705723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:24 +0000
Subject: [PATCH 01/32] fix: scheduler must not lose tasks that its own tasks
 schedule for a due time

---
 x/schedule/keeper/keeper.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/x/schedule/keeper/keeper.go b/x/schedule/keeper/keeper.go
index 44d514e..d6e0ed1 100644
--- a/x/schedule/keeper/keeper.go
+++ b/x/schedule/keeper/keeper.go
@@ -11,7 +11,6 @@ import (
 	"github.com/tendermint/tendermint/libs/log"
 
 	"github.com/cosmos/cosmos-sdk/codec"
-	"github.com/cosmos/cosmos-sdk/store/cachekv"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"
 
@@ -120,16 +119,20 @@ func (k Keeper) delete(ctx sdk.Context, time time.Time, predicate func(types.Tas
 	}
 }
 
-// PerformSchedule performs scheduled tasks for the block height. Tasks will be removed from the store when they are
-// complete.
+// PerformSchedule performs scheduled tasks for the block height. Tasks will be removed from the store right before they
+// are performed, so anything the tasks schedule themselves, even for a time that has come already, stays in the store.
 func (k Keeper) PerformSchedule(ctx sdk.Context) {
-	store := cachekv.NewStore(ctx.KVStore(k.storeKey))
-	terminator := Key(ctx.BlockTime().Add(time.Nanosecond))
-	it := store.Iterator(nil, terminator)
+	store := ctx.KVStore(k.storeKey)
+
+	for _, key := range k.dueKeys(ctx) {
+		bz := store.Get(key)
+		if bz == nil {
+			continue
+		}
+		store.Delete(key)
 
-	for ; it.Valid(); it.Next() {
 		var sch types.Schedule
-		k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
+		k.cdc.MustUnmarshalBinaryBare(bz, &sch)
 		for _, task := range sch.Tasks {
 			hook := k.eventHooks[task.HandlerName]
 			if hook != nil {
@@ -138,11 +141,21 @@ func (k Keeper) PerformSchedule(ctx sdk.Context) {
 				k.Logger(ctx).Error("callback is not registered", "hook", task.HandlerName)
 			}
 		}
-		store.Delete(it.Key())
 	}
+}
 
-	it.Close()
-	store.Write()
+func (k Keeper) dueKeys(ctx sdk.Context) [][]byte {
+	var (
+		keys       [][]byte
+		terminator = Key(ctx.BlockTime().Add(time.Nanosecond))
+		it         = ctx.KVStore(k.storeKey).Iterator(nil, terminator)
+	)
+	defer it.Close()
+
+	for ; it.Valid(); it.Next() {
+		keys = append(keys, it.Key())
+	}
+	return keys
 }
 
 func performSchedule(ctx sdk.Context, task types.Task, hook func(ctx sdk.Context, data []byte, time time.Time), logger log.Logger) {
-- 
2.43.0


From f23d5388563f79e838fd1bbd0ff5574120715f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 02/32] fix: a validator disqualified by its stake must really
 be switched off

---
 x/noding/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 0b05ec4..e75fd08 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -320,7 +320,6 @@ func (k Keeper) OnStakeChanged(ctx sdk.Context, acc sdk.AccAddress) error {
 				Reason:  reason,
 			},
 		)
-		return nil
 	}
 
 	if changed {
-- 
2.43.0


From c8f2ed7e40e982eabe5854ff6dec0bec3e4ba900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 03/32] fix: a banished account must not stay a validator

---
 x/referral/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index c61e21a..a790291 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -984,6 +984,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 		}
 	}
 
+	bu.addCallback(StatusUpdatedCallback, acc)
 	if err := bu.commit(); err != nil {
 		return errors.Wrap(err, "cannot commit changes")
 	}
-- 
2.43.0


From cfcbfdc5c8e83b0060727f140566aaca3ae04096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 04/32] fix: a validator update list must not contain a public
 key twice

---
 x/noding/keeper/keeper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index e75fd08..ac2c2bb 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -504,8 +504,11 @@ func (k Keeper) GatherValidatorUpdates(ctx sdk.Context) ([]abci.ValidatorUpdate,
 	for _, x := range result {
 		found := false
 		for j, y := range unique {
-			if x.PubKey == y.PubKey {
-				unique[j] = x
+			if x.PubKey.Equal(y.PubKey) {
+				// Whoever releases the key, its new operator's power counts
+				if x.Power != 0 {
+					unique[j] = x
+				}
 				found = true
 				break
 			}
-- 
2.43.0


From 91e417c66d3b00e4f999c6e743c62ab0b3f16757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 05/32] fix: nobody can take over the key of a jailed validator

---
 x/noding/keeper/keeper.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index ac2c2bb..c960b08 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -193,12 +193,20 @@ func (k Keeper) SwitchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.Pub
 	}
 
 	consAddr := sdk.GetConsAddress(key)
-	_, found, active, err := k.GetValidatorByConsAddr(ctx, consAddr)
+	operator, found, busy, err := k.GetValidatorByConsAddr(ctx, consAddr)
 	if err != nil {
 		k.Logger(ctx).Error("couldn't Get validator by consensus address", "consAddr", consAddr)
 		return err
 	}
-	if found && active {
+	if found && !busy {
+		// A jailed validator is going to need its key again
+		data, err := k.Get(ctx, operator)
+		if err != nil {
+			return sdkerrors.Wrapf(err, "cannot get data for %s", operator.String())
+		}
+		busy = data.Status && data.PubKey == bech32FromCryptoPubKey(key)
+	}
+	if busy {
 		k.Logger(ctx).Error("validator with same public key already exists", "pubKey", key)
 		return types.ErrPubkeyBusy
 	}
-- 
2.43.0


From 978daa76e6fdc1bf4f615422ea3330e59ba1184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 06/32] fix: importing a genesis must keep who operates an
 inactive validator's key

---
 x/noding/keeper/keeper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index c960b08..e982da3 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -631,6 +631,12 @@ func (k Keeper) SetNonActiveValidators(ctx sdk.Context, validators []types.Valid
 		for _, h := range v.ProposedBlocks {
 			k.addProposerToIndex(ctx, int64(h), acc)
 		}
+		if len(v.PubKey) != 0 {
+			consAddr := consAddressFromCryptoBubKey(cryptoPubKeyFromBech32(v.PubKey))
+			if _, found := k.getNodeOperatorFromIndex(ctx, consAddr); !found || v.SwitchedOn {
+				k.addNodeOperatorToIndex(ctx, consAddr, acc)
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 80a33bb62d05f6c6170715932033e95e8813ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 07/32] fix: nobody can be registered under themselves or under
 an account that is not in the referral structure

---
 x/referral/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index a790291..7945585 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -220,6 +220,9 @@ func (k Keeper) appendChild(ctx sdk.Context, parentAcc string, childAcc string,
 			fmt.Sprintf("account %s already exists", childAcc),
 		)
 	}
+	if !k.exists(ctx, parentAcc) {
+		return sdkerrors.Wrap(types.ErrNotFound, parentAcc)
+	}
 	var (
 		bu        = newBunchUpdater(k, ctx)
 		anc       = parentAcc
-- 
2.43.0


From a4177a3307f416203baa8c24f8e435859462646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:11 +0000
Subject: [PATCH 08/32] fix: a genesis with a validator below the (raised)
 minimal criteria must be importable

---
 x/noding/keeper/keeper.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index e982da3..5ac4e3e 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -605,15 +605,22 @@ func (k Keeper) SetActiveValidators(ctx sdk.Context, validators []types.Validato
 		if err != nil {
 			return errors.Wrap(err, "cannot obtain stake")
 		}
-		if err := k.set(ctx, acc, v.ToInfo(stake.Int64())); err != nil {
+		consAddr := consAddressFromCryptoBubKey(pubkey)
+		if _, _, busy, err := k.GetValidatorByConsAddr(ctx, consAddr); err != nil {
+			return errors.Wrap(err, "cannot check public key")
+		} else if busy {
+			return errors.Wrap(types.ErrPubkeyBusy, "cannot switch on")
+		}
+		// A validator stays on when the minimal criteria are raised, so they are not to be checked here
+		info := v.ToInfo(stake.Int64())
+		info.Status = true
+		if err := k.set(ctx, acc, info); err != nil {
 			return errors.Wrap(err, "cannot set data")
 		}
 		for _, h := range v.ProposedBlocks {
 			k.addProposerToIndex(ctx, int64(h), acc)
 		}
-		if err := k.SwitchOn(ctx, acc, pubkey); err != nil {
-			return errors.Wrap(err, "cannot switch on")
-		}
+		k.addNodeOperatorToIndex(ctx, consAddr, acc)
 	}
 	return nil
 }
-- 
2.43.0


From 4a8a97a8b5212bd495d034fac15f7832464f1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:11 +0000
Subject: [PATCH 09/32] fix: answers given to the current poll must survive
 export and import of the genesis

---
 x/voting/keeper/keeper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 4fcb1da..432f0c6 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -590,6 +590,10 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 		}
 	}
 
+	return k.addAnswer(ctx, acc, yes)
+}
+
+func (k Keeper) addAnswer(ctx sdk.Context, acc string, yes bool) error {
 	store := prefix.NewStore(ctx.KVStore(k.storeKey), types.KeyPollPrefix)
 	ansStore := prefix.NewStore(store, types.KeyPollAnswers)
 	key := []byte(acc)
@@ -740,7 +744,8 @@ func (k Keeper) LoadPolls(ctx sdk.Context, state types.GenesisState) {
 	if state.CurrentPoll != nil {
 		store.Set(types.KeyPollCurrent, k.cdc.MustMarshalBinaryBare(state.CurrentPoll))
 		for _, ans := range state.PollAnswers {
-			if err := k.Answer(ctx, ans.Acc, ans.Ans); err != nil {
+			// The respondent could be allowed to answer then, even if it is not allowed now
+			if err := k.addAnswer(ctx, ans.Acc, ans.Ans); err != nil {
 				panic(err)
 			}
 		}
-- 
2.43.0


From 6b6aed826372dd4b0f25a1d61f413a564390ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 10/32] fix: no transition to or of an account that is not in
 the referral structure

---
 x/referral/keeper/keeper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 7945585..fa4d492 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -1257,6 +1257,9 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if r, err = k.Get(ctx, subject); err != nil {
 		return errors.Wrap(err, "subject account data missing")
 	}
+	if r.IsEmpty() || r.Banished {
+		return errors.Wrap(types.ErrNotFound, "subject")
+	}
 	if fresh {
 		if r.Transition != "" {
 			return errors.New("transition is already requested")
@@ -1272,6 +1275,9 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if p, err = k.Get(ctx, newParent); err != nil {
 		return errors.Wrap(err, "destination account data missing")
 	}
+	if p.IsEmpty() || p.Banished {
+		return errors.Wrap(types.ErrNotFound, "destination")
+	}
 	if p.RegistrationClosed(ctx, k.scheduleKeeper) {
 		return types.ErrRegistrationClosed
 	}
-- 
2.43.0


From bc41e5f35278c5693f2ca4681d9e99a56a325280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 11/32] fix: ancestors' stake changes on a transition or a
 banishment must reach the validators

---
 x/referral/keeper/keeper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index fa4d492..18eed2f 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -809,6 +809,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	)
 
 	if err = bu.update(oldParent, true, func(value *types.Info) error {
+		bu.addCallback(StakeChangedCallback, oldParent)
 		idx := 0
 		for ; idx < len(value.Referrals) && value.Referrals[idx] != subject; idx++ {
 		}
@@ -832,6 +833,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	}
 
 	if err = bu.update(newParent, true, func(value *types.Info) error {
+		bu.addCallback(StakeChangedCallback, newParent)
 		value.Referrals = append(value.Referrals, subject)
 		if r.Active {
 			value.ActiveReferrals = append(value.ActiveReferrals, subject)
@@ -855,6 +857,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		}
 		if oldAncestor != "" {
 			if err = bu.update(oldAncestor, true, func(value *types.Info) error {
+				bu.addCallback(StakeChangedCallback, oldAncestor)
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Sub(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-level])
@@ -868,6 +871,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		}
 		if newAncestor != "" {
 			if err = bu.update(newAncestor, true, func(value *types.Info) error {
+				bu.addCallback(StakeChangedCallback, newAncestor)
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Add(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-level])
@@ -953,6 +957,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 		var p2 string
 		if err := bu.update(parent, true, func(value *types.Info) error {
 			p2 = value.Referrer
+			bu.addCallback(StakeChangedCallback, parent)
 
 			util.RemoveStringFast(&value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Sub(c)
@@ -974,6 +979,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 			var p2 string
 			if err := bu.update(parent, true, func(value *types.Info) error {
 				p2 = value.Referrer
+				bu.addCallback(StakeChangedCallback, parent)
 
 				value.Coins[lvl] = value.Coins[lvl].Sub(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Sub(d)
-- 
2.43.0


From 652e9326541f65ae6e47367ac9b2d234eb60a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 12/32] fix: compression must move a team's deepest level, too

---
 x/referral/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 18eed2f..385a512 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -365,7 +365,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			value.Coins[k] = value.Coins[k].Add(coins[1])
 			value.Delegated[k] = value.Delegated[k].Add(delegated[1])
 			value.ActiveRefCounts[k] += refsCount[1]
-			for i := 1; i < 10-k; i++ {
+			for i := 1; i <= 10-k; i++ {
 				value.Coins[k+i] = value.Coins[k+i].Add(coins[i+1]).Sub(coins[i])
 				value.Delegated[k+i] = value.Delegated[k+i].Add(delegated[i+1]).Sub(delegated[i])
 				value.ActiveRefCounts[k+i] += refsCount[i+1] - refsCount[i]
-- 
2.43.0


From 7ad601a1cb06ee098ff73d1d308a61121eb07a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:27 +0000
Subject: [PATCH 13/32] fix: only the listed signers may report earners

---
 x/earning/keeper/msg_server.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/msg_server.go b/x/earning/keeper/msg_server.go
index 0057484..4b66eaf 100644
--- a/x/earning/keeper/msg_server.go
+++ b/x/earning/keeper/msg_server.go
@@ -7,6 +7,7 @@ import (
 	"google.golang.org/grpc/status"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 
 	"github.com/arterynetwork/artr/x/earning/types"
 )
@@ -16,7 +17,7 @@ type MsgServer Keeper
 var _ types.MsgServer = MsgServer{}
 
 func (s MsgServer) Set(ctx context.Context, msg *types.MsgSet) (resp *types.MsgSetResponse, err error) {
-	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}})
+	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}, Signer: msg.Signer})
 	if err != nil {
 		return nil, err
 	}
@@ -28,6 +29,17 @@ func (s MsgServer) SetMultiple(ctx context.Context, msg *types.MsgSetMultiple) (
 	k := Keeper(s)
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
+	authorized := false
+	for _, signer := range k.GetParams(sdkCtx).Signers {
+		if signer == msg.Signer {
+			authorized = true
+			break
+		}
+	}
+	if !authorized {
+		return nil, sdkerrors.Wrap(sdkerrors.ErrUnauthorized, "signer is out of whitelist")
+	}
+
 	for _, earner := range msg.Earners {
 		var acc sdk.AccAddress
 		acc, err = sdk.AccAddressFromBech32(earner.Account)
-- 
2.43.0


From 027a128654c1d88971d6c911d25496a5df953ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 14/32] fix: adding somebody to the government who already is a
 member changes nothing

---
 x/voting/keeper/government.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/voting/keeper/government.go b/x/voting/keeper/government.go
index 3b7629d..dd9f76b 100644
--- a/x/voting/keeper/government.go
+++ b/x/voting/keeper/government.go
@@ -38,6 +38,9 @@ func (k Keeper) RemoveGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 
 func (k Keeper) AddGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 	govs := k.GetGovernment(ctx)
+	if govs.Contains(gov) {
+		return
+	}
 	govs.Append(gov)
 	k.SetGovernment(ctx, govs)
 }
-- 
2.43.0


From a740f7e90dabfbc1ccc4045a022767bbc993f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 15/32] fix: an earning signer is listed only once, so removing
 it takes its right away

---
 x/earning/keeper/params.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/params.go b/x/earning/keeper/params.go
index 34629c6..ce9742d 100644
--- a/x/earning/keeper/params.go
+++ b/x/earning/keeper/params.go
@@ -20,7 +20,13 @@ func (k Keeper) SetParams(ctx sdk.Context, params types.Params) {
 
 func (k Keeper) AddSigner(ctx sdk.Context, address sdk.AccAddress) {
 	p := k.GetParams(ctx)
-	p.Signers = append(p.Signers, address.String())
+	bech32 := address.String()
+	for _, signer := range p.Signers {
+		if signer == bech32 {
+			return
+		}
+	}
+	p.Signers = append(p.Signers, bech32)
 	k.SetParams(ctx, p)
 }
 
-- 
2.43.0


From 9483a00fd0fb6a04a1dc496b21f182a9e3cf9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 16/32] fix: keep all proposals finished in one block in the
 voting history

---
 x/voting/keeper/keeper.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 432f0c6..74b5f1a 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -170,10 +170,22 @@ func (k Keeper) SaveProposalToHistory(ctx sdk.Context, store sdk.KVStore) {
 	if err != nil {
 		panic(err)
 	}
-	height := make([]byte, 8)
-	binary.BigEndian.PutUint64(height, uint64(ctx.BlockHeight()))
-	key := append(types.KeyHistoryPrefix, height...)
-	store.Set(key, historyBz)
+	store.Set(freeHistoryKey(store, ctx.BlockHeight()), historyBz)
+}
+
+// freeHistoryKey returns a key for one more proposal finished at the height. Several proposals may be finished in one
+// block, so all but the first of them have their number added to the key.
+func freeHistoryKey(store sdk.KVStore, height int64) []byte {
+	base := make([]byte, len(types.KeyHistoryPrefix)+8)
+	copy(base, types.KeyHistoryPrefix)
+	binary.BigEndian.PutUint64(base[len(types.KeyHistoryPrefix):], uint64(height))
+	key := base
+	for n := uint32(1); store.Has(key); n++ {
+		key = make([]byte, len(base)+4)
+		copy(key, base)
+		binary.BigEndian.PutUint32(key[len(base):], n)
+	}
+	return key
 }
 
 func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalHistoryRecord) {
@@ -182,10 +194,7 @@ func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalH
 	if err != nil {
 		panic(err)
 	}
-	height := make([]byte, 8)
-	binary.BigEndian.PutUint64(height, uint64(record.Finished))
-	key := append(types.KeyHistoryPrefix, height...)
-	store.Set(key, historyBz)
+	store.Set(freeHistoryKey(store, record.Finished), historyBz)
 }
 
 func (k Keeper) SetStartBlock(ctx sdk.Context) {
-- 
2.43.0


From fe38091840573fb609e672e745a61fe3ede35da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 17/32] fix: counting a poll answer must not write into the
 store's own bytes

---
 x/voting/keeper/keeper.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 74b5f1a..07149ab 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -620,16 +620,13 @@ func (k Keeper) addAnswer(ctx sdk.Context, acc string, yes bool) error {
 	}
 	ansStore.Set(key, ans)
 
-	var (
-		bz    []byte
-		value uint64
-	)
-	if bz = store.Get(countKey); bz != nil {
+	var value uint64
+	if bz := store.Get(countKey); bz != nil {
 		value = binary.BigEndian.Uint64(bz)
-	} else {
-		bz = make([]byte, 8)
 	}
 	value += 1
+	// The slice got from the store must not be written to, it's what the store itself holds
+	bz := make([]byte, 8)
 	binary.BigEndian.PutUint64(bz, value)
 	store.Set(countKey, bz)
 
-- 
2.43.0


From 0b0e1d5183428674fc4ab53a053a277031871943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:16 +0000
Subject: [PATCH 18/32] fix: an account's creator cannot grant it a
 subscription, limits or extra space

---
 x/profile/keeper/msg_server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/msg_server.go b/x/profile/keeper/msg_server.go
index 0964e9f..a9ae5ea 100644
--- a/x/profile/keeper/msg_server.go
+++ b/x/profile/keeper/msg_server.go
@@ -41,7 +41,17 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 	}
 
 	if msg.WithProfile() {
-		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), *msg.Profile); err != nil {
+		// The rest of the fields is not up to the creator: a subscription, limits and extra space must be paid for.
+		profile := types.Profile{
+			AutoPay:        msg.Profile.AutoPay,
+			Noding:         msg.Profile.Noding,
+			Storage:        msg.Profile.Storage,
+			Validator:      msg.Profile.Validator,
+			Vpn:            msg.Profile.Vpn,
+			Nickname:       msg.Profile.Nickname,
+			AutoPayImExtra: msg.Profile.AutoPayImExtra,
+		}
+		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), profile); err != nil {
 			return nil, errors.Wrap(err, "cannot create an account with profile")
 		}
 	} else {
-- 
2.43.0


From 20627d24d458d6ed623b1cb12cbb7743b87aa21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 19/32] fix: compression cancels a pending status downgrade

---
 x/referral/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 385a512..b2073cc 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -330,6 +330,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 		value.CompressionAt = nil
 		bu.addCallback(StakeChangedCallback, acc)
 		k.setStatus(ctx, value, types.STATUS_LUCKY, acc)
+		value.StatusDowngradeAt = nil
 		bu.addCallback(StatusUpdatedCallback, acc)
 
 		if delegated[0].Int64() <= k.bankKeeper.GetParams(ctx).DustDelegation {
-- 
2.43.0


From bcbcc5c7dd993eaa1c3da27d84a73a1742c0a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:04 +0000
Subject: [PATCH 20/32] fix: a move rechecks statuses when all the numbers are
 settled, the common ancestor's included

---
 x/referral/keeper/keeper.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index b2073cc..2c0a536 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -807,9 +807,11 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	var (
 		bu                       = newBunchUpdater(k, ctx)
 		oldAncestor, newAncestor string
+		// Everyone whose status might be affected. It must be checked when all the numbers are settled.
+		affected = []string{oldParent, newParent}
 	)
 
-	if err = bu.update(oldParent, true, func(value *types.Info) error {
+	if err = bu.update(oldParent, false, func(value *types.Info) error {
 		bu.addCallback(StakeChangedCallback, oldParent)
 		idx := 0
 		for ; idx < len(value.Referrals) && value.Referrals[idx] != subject; idx++ {
@@ -833,7 +835,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		panic(errors.Wrap(err, "cannot update old referrer data"))
 	}
 
-	if err = bu.update(newParent, true, func(value *types.Info) error {
+	if err = bu.update(newParent, false, func(value *types.Info) error {
 		bu.addCallback(StakeChangedCallback, newParent)
 		value.Referrals = append(value.Referrals, subject)
 		if r.Active {
@@ -854,10 +856,15 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 
 	for level := 2; level <= 10; level++ {
 		if oldAncestor == newAncestor {
+			// Its own numbers are the same, but its referrals' ones are not.
+			if oldAncestor != "" {
+				affected = append(affected, oldAncestor)
+			}
 			break
 		}
 		if oldAncestor != "" {
-			if err = bu.update(oldAncestor, true, func(value *types.Info) error {
+			affected = append(affected, oldAncestor)
+			if err = bu.update(oldAncestor, false, func(value *types.Info) error {
 				bu.addCallback(StakeChangedCallback, oldAncestor)
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Sub(r.Coins[i-level])
@@ -871,7 +878,8 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			}
 		}
 		if newAncestor != "" {
-			if err = bu.update(newAncestor, true, func(value *types.Info) error {
+			affected = append(affected, newAncestor)
+			if err = bu.update(newAncestor, false, func(value *types.Info) error {
 				bu.addCallback(StakeChangedCallback, newAncestor)
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Add(r.Coins[i-level])
@@ -886,6 +894,12 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		}
 	}
 
+	for _, acc := range affected {
+		if err = bu.update(acc, true, func(*types.Info) error { return nil }); err != nil {
+			panic(errors.Wrapf(err, "cannot check %s status", acc))
+		}
+	}
+
 	if err = bu.commit(); err != nil {
 		panic(errors.Wrap(err, "cannot commit changes"))
 	}
-- 
2.43.0


From 3e1b0c0d85e9233eada2c05318ac557b001b353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:24 +0000
Subject: [PATCH 21/32] fix: a resolved transition takes its timeout with it

---
 x/referral/keeper/keeper.go          | 15 +++++++++++++++
 x/referral/types/expected_keepers.go |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 2c0a536..95ef2d6 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -763,6 +763,9 @@ func (k Keeper) CancelTransition(ctx sdk.Context, subject string, timeout bool)
 	if err = k.set(ctx, subject, r); err != nil {
 		panic(errors.Wrap(err, "cannot write to KVStore"))
 	}
+	if !timeout {
+		k.unscheduleTransitionTimeout(ctx, subject)
+	}
 
 	var reason types.EventTransitionDeclined_Reason
 	if timeout {
@@ -803,6 +806,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	if err = k.set(ctx, subject, r); err != nil {
 		panic(errors.Wrap(err, "cannot write to KVStore"))
 	}
+	k.unscheduleTransitionTimeout(ctx, subject)
 
 	var (
 		bu                       = newBunchUpdater(k, ctx)
@@ -914,6 +918,17 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	return nil
 }
 
+// unscheduleTransitionTimeout drops a timeout of a transition that's already resolved: it must not hit the next one.
+func (k Keeper) unscheduleTransitionTimeout(ctx sdk.Context, subject string) {
+	since := ctx.BlockTime()
+	to := since.Add(k.scheduleKeeper.OneDay(ctx)).Add(time.Nanosecond)
+	for _, task := range k.scheduleKeeper.GetTasks(ctx, since, to) {
+		if task.HandlerName == TransitionTimeoutHookName && string(task.Data) == subject {
+			k.scheduleKeeper.Delete(ctx, task.Time, task.HandlerName, task.Data)
+		}
+	}
+}
+
 // GetPendingTransition returns a new referral that the specified account is requested to be moved under. It returns
 // (nil, nil) if the account is OK, but a transition is not requested.
 func (k Keeper) GetPendingTransition(ctx sdk.Context, acc string) (string, error) {
diff --git a/x/referral/types/expected_keepers.go b/x/referral/types/expected_keepers.go
index 6c4ed62..1cabb83 100644
--- a/x/referral/types/expected_keepers.go
+++ b/x/referral/types/expected_keepers.go
@@ -8,6 +8,7 @@ import (
 	params "github.com/cosmos/cosmos-sdk/x/params/types"
 
 	"github.com/arterynetwork/artr/x/bank"
+	schedule "github.com/arterynetwork/artr/x/schedule/types"
 )
 
 // ParamSubspace defines the expected Subspace interface
@@ -25,6 +26,7 @@ type AccountKeeper interface {
 type ScheduleKeeper interface {
 	ScheduleTask(ctx sdk.Context, time time.Time, event string, data []byte)
 	Delete(ctx sdk.Context, time time.Time, event string, payload []byte)
+	GetTasks(ctx sdk.Context, since, to time.Time) []schedule.Task
 
 	OneDay(ctx sdk.Context) time.Duration
 	OneWeek(ctx sdk.Context) time.Duration
-- 
2.43.0


From d9fd2aef7c99dc63da2f811b2cc3777d85c0258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 22/32] fix: a nickname is looked up and removed by the same
 key it was stored under

---
 x/profile/keeper/keeper.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/x/profile/keeper/keeper.go b/x/profile/keeper/keeper.go
index e6101f0..194987a 100644
--- a/x/profile/keeper/keeper.go
+++ b/x/profile/keeper/keeper.go
@@ -79,19 +79,24 @@ func (k Keeper) GetProfile(ctx sdk.Context, addr sdk.AccAddress) *types.Profile
 	return &item
 }
 
+// nicknameKey is what nicknames are told apart by: neither case nor surrounding spaces matter.
+func nicknameKey(nickname string) []byte {
+	return []byte(strings.ToLower(strings.TrimSpace(nickname)))
+}
+
 func (k Keeper) GetProfileAccountByNickname(ctx sdk.Context, nickname string) sdk.AccAddress {
 	store := ctx.KVStore(k.aliasStoreKey)
-	return store.Get([]byte(strings.ToLower(nickname)))
+	return store.Get(nicknameKey(nickname))
 }
 
 func (k Keeper) setProfileAccountByNickname(ctx sdk.Context, nickname string, addr sdk.AccAddress) {
 	store := ctx.KVStore(k.aliasStoreKey)
-	store.Set([]byte(strings.ToLower(nickname)), addr)
+	store.Set(nicknameKey(nickname), addr)
 }
 
 func (k Keeper) removeProfileAccountByNickname(ctx sdk.Context, nickname string) {
 	store := ctx.KVStore(k.aliasStoreKey)
-	store.Delete([]byte(strings.ToLower(nickname)))
+	store.Delete(nicknameKey(nickname))
 }
 
 func (k Keeper) GetProfileAccountByCardNumber(ctx sdk.Context, cardNumber uint64) sdk.AccAddress {
-- 
2.43.0


From 71a8a176dfb0ef239b4ee076f86d74406e716a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 23/32] fix: VPN usage over the limit must not wrap the limit
 around

---
 x/profile/keeper/subscription.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 3bfc006..b27cb36 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -367,7 +367,11 @@ func (k Keeper) scheduleRenewIm(ctx sdk.Context, addr sdk.AccAddress, time time.
 func (k Keeper) resetLimits(ctx sdk.Context, addr sdk.AccAddress, p types.Params, profile *types.Profile) {
 	baseVpn := uint64(p.BaseVpnGb) * util.GBSize
 	if profile.VpnCurrent > baseVpn {
-		profile.VpnLimit -= profile.VpnCurrent - baseVpn
+		if over := profile.VpnCurrent - baseVpn; over < profile.VpnLimit {
+			profile.VpnLimit -= over
+		} else {
+			profile.VpnLimit = 0
+		}
 	}
 	profile.VpnCurrent = 0
 
-- 
2.43.0


From b55750927baa88a72ad307849c381f0f8cfaf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 24/32] fix: the price of a big storage must not overflow

---
 x/profile/keeper/subscription.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index b27cb36..852e57d 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -52,8 +52,9 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 	}
 
 	storageFeeFrac := p.TokenRate.
-		MulInt64((int64(storageB) - int64(p.BaseStorageGb)*util.GBSize) * int64(p.StorageGbPrice)).
-		DivInt64(util.GBSize).Reduce()
+		MulInt64(int64(storageB) - int64(p.BaseStorageGb)*util.GBSize).
+		DivInt64(util.GBSize).Reduce().
+		MulInt64(int64(p.StorageGbPrice)).Reduce()
 	if profile.IsActive(ctx) {
 		if storageB != profile.StorageLimit {
 			time := k.monthPart(ctx, *profile.ActiveUntil)
-- 
2.43.0


From 655d991158926fe398098c3f746f2262675f25b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 25/32] fix: a renewed subscription gets the storage it was
 paid for

---
 x/profile/keeper/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 852e57d..d784a3d 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -68,9 +68,9 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 			if storageFeeFrac.IsNegative() {
 				storageFeeFrac = util.FractionZero()
 			}
-			profile.StorageLimit = storageB
 		}
 	}
+	profile.StorageLimit = storageB
 
 	tariffTotal = tariffTotal.Add(sdk.NewIntFromBigInt(storageFeeFrac.BigInt()))
 	// NOTE: `tariffTotal` cannot be just assigned to `total` here, 'cause Int is a struct over a pointer.
-- 
2.43.0


From ff0e035ef33e4d6c92f8b635608146efeba11068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:41 +0000
Subject: [PATCH 26/32] fix: a failed automatic prolongation of messenger space
 takes no money

---
 x/profile/keeper/subscription.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index d784a3d..cff9c8b 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -447,9 +447,14 @@ func (k Keeper) monthlyImRoutine(ctx sdk.Context, addr sdk.AccAddress) error {
 	var err error
 
 	if profile.AutoPayImExtra {
-		err = k.prolongImExtra(ctx, addr, profile)
+		// It's not a transaction, nothing but us takes back what has been paid if the rest cannot be.
+		cacheCtx, commit := ctx.CacheContext()
+		err = k.prolongImExtra(cacheCtx, addr, profile)
 		if err != nil {
 			k.Logger(ctx).Error("IM store autopay failed", "addr", addr.String(), "err", err)
+		} else {
+			commit()
+			ctx.EventManager().EmitEvents(cacheCtx.EventManager().Events())
 		}
 	} else {
 		err = errors.Errorf("disabled by user")
-- 
2.43.0


From 4b5db1272171d198bd3edc22428299f221c1ed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:24 +0000
Subject: [PATCH 27/32] fix: messenger space that cannot be prolonged for its
 price ends, it doesn't stay for free

---
 x/profile/keeper/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index cff9c8b..d174959 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -494,7 +494,7 @@ func (k Keeper) prolongImExtra(ctx sdk.Context, addr sdk.AccAddress, profile *ty
 			"GbPrice", p.StorageGbPrice,
 			"rate", p.TokenRate,
 		)
-		panic("free IM extra")
+		return errors.New("free IM extra")
 	}
 	total := util.Uartrs(storageFee)
 
-- 
2.43.0


From d5235e21324bd15b0f84cb4ac8c8c6d790f37e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:59 +0000
Subject: [PATCH 28/32] fix: keep an account active across export and import
 while its refresh is pending

---
 x/profile/keeper/genesis.go         | 18 +++++++++++++++++-
 x/profile/types/expected_keepers.go |  2 ++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/genesis.go b/x/profile/keeper/genesis.go
index 7b6bb4a..9b270d2 100644
--- a/x/profile/keeper/genesis.go
+++ b/x/profile/keeper/genesis.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"bytes"
 	"strings"
 
 	"github.com/pkg/errors"
@@ -56,7 +57,9 @@ func (k Keeper) ImportProfileRecords(ctx sdk.Context, data []types.GenesisProfil
 			k.accountKeeper.SetAccount(ctx, acc)
 		}
 
-		if active := record.Profile.IsActive(ctx); active {
+		// An account is also active if its subscription has run out but the chain has not processed it yet. The pending
+		// refresh will either renew the subscription or switch the account off (and schedule its compression).
+		if active := record.Profile.IsActive(ctx) || k.isRefreshPending(ctx, addr, &record.Profile); active {
 			k.referralKeeper.MustSetActiveWithoutStatusUpdate(ctx, addr.String(), active)
 		}
 
@@ -70,3 +73,16 @@ func (k Keeper) ImportProfileRecords(ctx sdk.Context, data []types.GenesisProfil
 		return false, true
 	})
 }
+
+// isRefreshPending tells if the end of the account's subscription is still to be processed by the scheduler.
+func (k Keeper) isRefreshPending(ctx sdk.Context, addr sdk.AccAddress, profile *types.Profile) bool {
+	if profile.ActiveUntil == nil {
+		return false
+	}
+	for _, task := range k.scheduleKeeper.GetTasks(ctx, *profile.ActiveUntil, profile.ActiveUntil.Add(1)) {
+		if task.HandlerName == types.RefreshHookName && bytes.Equal(task.Data, addr.Bytes()) {
+			return true
+		}
+	}
+	return false
+}
diff --git a/x/profile/types/expected_keepers.go b/x/profile/types/expected_keepers.go
index 966f6fd..3ca7dba 100644
--- a/x/profile/types/expected_keepers.go
+++ b/x/profile/types/expected_keepers.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/arterynetwork/artr/x/bank"
 	ref "github.com/arterynetwork/artr/x/referral/types"
+	schedule "github.com/arterynetwork/artr/x/schedule/types"
 )
 
 // ParamSubspace defines the expected Subspace interfacace
@@ -57,6 +58,7 @@ type ReferralKeeper interface {
 type ScheduleKeeper interface {
 	ScheduleTask(ctx sdk.Context, time time.Time, event string, data []byte)
 	Delete(ctx sdk.Context, time time.Time, event string, payload []byte)
+	GetTasks(ctx sdk.Context, since, to time.Time) []schedule.Task
 
 	OneMonth(ctx sdk.Context) time.Duration
 }
-- 
2.43.0


From 41512d66cc867da0ca1c6a5db4a8d0747d1faad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:51 +0000
Subject: [PATCH 29/32] fix: report event attributes in the same order on every
 node

patchEvent iterated over a Go map, so two nodes executing the same block
reported (and indexed) the attributes of an event in different orders.
---
 util/msg_server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/util/msg_server.go b/util/msg_server.go
index 4b9bccc..36685f5 100644
--- a/util/msg_server.go
+++ b/util/msg_server.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/gogo/protobuf/proto"
@@ -62,8 +63,16 @@ func patchEvent(tev proto.Message) sdk.Event {
 		panic(errors.Wrap(err, "cannot unmarshal JSON"))
 	}
 
+	// Every node must report the same events in the same order, so do not depend on the order of map iteration.
+	keys := make([]string, 0, len(attrMap))
+	for k := range attrMap {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
 	attrs := make([]abci.EventAttribute, 0, len(attrMap))
-	for k, v := range attrMap {
+	for _, k := range keys {
+		v := attrMap[k]
 		if bytes.Equal(v, []byte("null")) {
 			continue
 		}
-- 
2.43.0


From e82b604ca9bc321d9f26fafc174b981e59e59b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:55 +0000
Subject: [PATCH 30/32] fix: recalculate the stakes above an account that comes
 back after banishment

ComeBack added the delegation of the returning account (it may hold up to
the dust threshold) to the teams of its ancestors without notifying those
who depend on the team stake, so scores of validators above stayed wrong.
---
 x/referral/keeper/keeper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 95ef2d6..9dbc560 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -1078,6 +1078,7 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 			value.Referrals = append(value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Add(c)
 			value.Delegated[1] = value.Delegated[1].Add(d)
+			bu.addCallback(StakeChangedCallback, parent)
 
 			return nil
 		}); err != nil {
@@ -1098,6 +1099,7 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Add(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Add(d)
+				bu.addCallback(StakeChangedCallback, parent)
 
 				return nil
 			}); err != nil {
-- 
2.43.0


From 27ecea17a46e6528e2f3fffe22d29f5e1c861baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:19 +0000
Subject: [PATCH 31/32] fix: count delegated coins of all levels when no depth
 is asked for

---
 x/referral/keeper/keeper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 9dbc560..3acd619 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -416,8 +416,11 @@ func (k Keeper) GetCoinsInNetwork(ctx sdk.Context, acc string, maxDepth int) (sd
 
 // GetDelegatedInNetwork returns total amount of delegated coins in a person's network
 // (at levels that are open according the person's current status, but no deeper than `maxDepth` levels down).
-// Own coins inclusive.
+// Own coins inclusive. maxDepth = 0 means no limits.
 func (k Keeper) GetDelegatedInNetwork(ctx sdk.Context, acc string, maxDepth int) (sdk.Int, error) {
+	if maxDepth <= 0 {
+		maxDepth = 10
+	}
 	data, err := k.Get(ctx, acc)
 	if err != nil {
 		return sdk.Int{}, err
-- 
2.43.0


From 9e0b5c8991f5845fa86c0537e7085e581c8ec76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:25 +0000
Subject: [PATCH 32/32] fix: a late end of a messenger space period must not
 hit a new one

When blocks come more than a month late, an automatic renewal leaves the end of
the next period pending in the past. Space bought right then lost its extra
volume (or was charged for once more) in the next block.
---
 x/profile/keeper/subscription.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index d174959..765d75a 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -230,6 +230,10 @@ func (k Keeper) BuyImStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint3
 	} else {
 		profile.ImLimitExtra = uint64(extraGb)
 
+		if profile.ExtraImUntil != nil {
+			// The previous period is over, but its end may be still pending. It must not hit the new one.
+			k.scheduleKeeper.Delete(ctx, *profile.ExtraImUntil, types.RefreshImHookName, addr.Bytes())
+		}
 		until := ctx.BlockTime().Add(k.scheduleKeeper.OneMonth(ctx))
 		profile.ExtraImUntil = &until
 		k.scheduleRenewIm(ctx, addr, until)
-- 
2.43.0

