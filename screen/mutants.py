# Changes to screen the checks with: (id, property, file, old, new). See screen.py.
M = []
def m(id, prop, file, old, new, n=1): M.append((id, prop, file, old, new, n))
D='x/delegating/keeper/'; N='x/noding/keeper/'; R='x/referral/keeper/'; P='x/profile/keeper/'; V='x/voting/keeper/'; B='x/bank/internal/keeper/'; S='x/schedule/keeper/'; E_='x/earning/keeper/'

# C01
m('c01a','C01',V+'keeper.go','endTime := ctx.BlockTime().Add(time.Duration(params.VotingPeriod) * time.Hour)','endTime := time.Now().Add(time.Duration(params.VotingPeriod) * time.Hour)')
m('c01b','C01',B+'msg_server.go','if k.BlockedSenderAddr(sdkCtx, fromAddress) {','if sdkCtx.MinGasPrices().IsZero() && k.BlockedSenderAddr(sdkCtx, fromAddress) {')
m('c01c','C01',D+'keeper.go','''		for _, out := range outputs {
			err = k.bankKeeper.AddCoins(ctx, out.Address, out.Coins)
			if err != nil {
				panic(err)
			}
		}''','''		byAddr := make(map[string]bank.Output, len(outputs))
		for _, out := range outputs {
			byAddr[out.Address.String()] = out
		}
		for _, out := range byAddr {
			err = k.bankKeeper.AddCoins(ctx, out.Address, out.Coins)
			if err != nil {
				panic(err)
			}
		}''')
m('c01d','C01',B+'send.go','''	bech32 := addr.String()
	for _, v := range keeper.GetParams(ctx).BlockedSenders {
		if v == bech32 {
			return true
		}
	}
	return false
}''','''	if blockedSenders == nil {
		blockedSenders = make(map[string]bool)
		for _, v := range keeper.GetParams(ctx).BlockedSenders {
			blockedSenders[v] = true
		}
	}
	return blockedSenders[addr.String()]
}

var blockedSenders map[string]bool''')
m('c01e','C01',P+'subscription.go','return util.NewFraction(end.Sub(ctx.BlockTime()).Nanoseconds()','if ctx.IsCheckTx() || time.Now().Before(ctx.BlockTime()) {\n\t\treturn util.NewFraction(end.Sub(ctx.BlockTime()).Nanoseconds(), k.scheduleKeeper.OneMonth(ctx).Nanoseconds()).Reduce()\n\t}\n\treturn util.NewFraction(end.Sub(time.Now()).Nanoseconds()')
# C02
m('c02a','C02','app/app.go','''		votingTypes.StoreKey, noding.StoreKey, noding.IdxStoreKey,
		earning.StoreKey)
''','''		votingTypes.StoreKey, noding.StoreKey,
		earning.StoreKey)
	memKeys := sdk.NewMemoryStoreKeys(noding.IdxStoreKey)
''')
M[-1]=M[-1][:5]+(1,[('app/app.go','		keys[nodingTypes.IdxStoreKey],','		memKeys[nodingTypes.IdxStoreKey],'),('app/app.go','	app.MountTransientStores(tKeys)\n','	app.MountTransientStores(tKeys)\n	app.MountMemoryStores(memKeys)\n')])
m('c02b','C02',N+'lottery.go','''	store := ctx.KVStore(k.indexStoreKey)
	var n uint64

	it := sdk.KVStoreReversePrefixIterator(store, IdxPrefixLotteryQueue)
	if it.Valid() {
		n = binary.BigEndian.Uint64(it.Key()[len(IdxPrefixLotteryQueue):]) + 1
	} else {
		n = 1 // let's leave 0 for "no value"
	}
	it.Close()
''','''	store := ctx.KVStore(k.indexStoreKey)
	lotteryTail++
	n := lotteryTail
''')
M[-1]=M[-1]+([(N+'lottery.go','func (k Keeper) lotteryKey(','var lotteryTail uint64\n\nfunc (k Keeper) lotteryKey(')],)
# C03
m('c03a','C03',D+'keeper.go','''	if totalFee != 0 {
		for _, out''','''	if totalFee > 1 {
		for _, out''')
m('c03b','C03',N+'keeper.go','''	} else if splittable.GT(forBurning) {
		k.Logger(ctx).Info("Module SplittableFeeCollector main denom coins amount greater than need to burn", "splittable", splittable.Int64(), "forBurning", forBurning.Int64())
		forBurning = splittable
	}''','	}')
m('c03c','C03',D+'keeper.go','''	minusCoins := sdk.NewCoins(sdk.NewCoin(util.ConfigDelegatedDenom, uartrds))
	err := k.bankKeeper.SubtractCoins(ctx, acc, minusCoins)
''','''	minusCoins := sdk.NewCoins(sdk.NewCoin(util.ConfigDelegatedDenom, uartrds))
	err := k.bankKeeper.SubtractCoins(ctx, acc, minusCoins)
	if !k.bankKeeper.GetBalance(ctx, acc).AmountOf(util.ConfigDelegatedDenom).IsPositive() {
		uartrds = uartrrs
	}
''')
M[-1]=M[-1]+([(D+'keeper.go','''			Ucoins:  uartrrs.Uint64(),
''','''			Ucoins:  uartrrs.Uint64(),
'''),(D+'keeper.go','''	plusCoins := sdk.NewCoins(sdk.NewCoin(util.ConfigRevokingDenom, uartrrs))
	err = k.bankKeeper.AddCoins(ctx, acc, plusCoins)
''','''	plusCoins := sdk.NewCoins(sdk.NewCoin(util.ConfigRevokingDenom, uartrrs))
	minusCoins = sdk.NewCoins(sdk.NewCoin(util.ConfigDelegatedDenom, uartrds))
	err = k.bankKeeper.AddCoins(ctx, acc, plusCoins)
''')],)
# C04
m('c04a','C04',E_+'msg_server.go','''			return nil, status.Errorf(codes.InvalidArgument, "cannot parse account address: %s", earner.Account)''','''			continue''')
m('c04b','C04',B+'msg_server.go','''	err = k.SendCoins(sdkCtx, fromAddress, toAddress, msg.Amount)
	if err != nil {
		return nil, err
	}

	util.TagTx(sdkCtx, types.ModuleName, msg)
	return &types.MsgSendResponse{}, nil''','''	err = k.SendCoins(sdkCtx, fromAddress, toAddress, msg.Amount)
	if err == nil {
		util.TagTx(sdkCtx, types.ModuleName, msg)
	}
	return &types.MsgSendResponse{}, nil''')
m('c04c','C04',R+'keeper.go','''			if err != nil {
				return errors.Wrap(err, "cannot pay commission")
			}
		}
''','''			if err != nil {
				_ = errors.Wrap(err, "cannot pay commission")
			}
		}
''')
# C05
m('c05a','C05',R+'msg_server.go','	if msg.GetSigner().String() != referrer {','	if pending, _ := s.k.GetPendingTransition(sdkCtx, msg.GetSubject().String()); msg.GetSigner().String() != referrer && msg.GetSigner().String() != pending {')
m('c05b','C05',P+'msg_server.go','''	for _, acc := range p.VpnSigners {''','''	for _, acc := range append(p.VpnSigners[:len(p.VpnSigners):len(p.VpnSigners)], p.StorageSigners...) {''')
m('c05c','C05',V+'keeper.go','''	gov := k.GetGovernment(ctx)
	if !gov.Contains(voter) {
		return errors''','''	gov := k.GetGovernment(ctx)
	if !gov.Contains(voter) && proposal.Author != voter.String() {
		return errors''')
m('c05d','C05',P+'msg_server.go','''	for _, acc := range p.TokenRateSigners {
		if sender == acc {''','''	for _, acc := range p.TokenRateSigners {
		if sender == acc || len(p.TokenRateSigners) == 1 && util.ContainsString(p.Creators, sender) {''')
m('c05e','C05','x/voting/types/government.go' ,'','')
# C06
m('c06a','C06',S+'keeper.go','binary.BigEndian.PutUint64(bz, uint64(t.UnixNano()))','binary.BigEndian.PutUint64(bz, uint64(t.UnixNano()/1000*1000))')
m('c06b','C06',S+'keeper.go','return task.HandlerName == event && bytes.Equal(task.Data, payload)','return task.HandlerName == event && bytes.HasPrefix(task.Data, payload[:len(payload)/2])')
m('c06c','C06',S+'keeper.go','''	sch.Tasks = append(sch.Tasks, task)
''','''	for _, t := range sch.Tasks {
		if t.HandlerName == task.HandlerName && len(sch.Tasks) > 1 {
			return
		}
	}
	sch.Tasks = append(sch.Tasks, task)
''')
m('c06d','C06',S+'keeper.go','''	if len(filtered) == 0 {
		store.Delete(key)''','''	if len(filtered) <= 1 && len(items.Tasks) > 2 {
		store.Delete(key)''')
# C07
m('c07a','C07',D+'hooks.go','if req.Time.After(ctx.BlockTime()) {','if !req.Time.Before(ctx.BlockTime()) {')
m('c07b','C07',D+'hooks.go','''	sort.Slice(item.Requests, func(i, j int) bool {
		return item.Requests[i].Time.Before(item.Requests[j].Time)
	})
''','''	sort.Slice(item.Requests, func(i, j int) bool { return false })
''')
m('c07c','C07',D+'hooks.go','k.Revoke(ctx, acc, d, false)','k.Revoke(ctx, acc, d, true)')
m('c07d','C07',D+'keeper.go','''	item.Requests = append(item.Requests, types.RevokeRequest{
		Time:   time,
		Amount: uartrrs,
	})
''','''	merged := false
	for i := range item.Requests {
		if item.Requests[i].Time.Sub(time) >= 0 {
			item.Requests[i].Amount = item.Requests[i].Amount.Add(uartrrs)
			merged = true
			break
		}
	}
	if !merged {
		item.Requests = append(item.Requests, types.RevokeRequest{
			Time:   time,
			Amount: uartrrs,
		})
	}
''')
m('c07e','C07',D+'hooks.go','''	item.Requests = item.Requests[n:]
	if item.IsEmpty() {''','''	item.Requests = item.Requests[n:]
	if len(item.Requests) == 0 && item.NextAccrue == nil || item.IsEmpty() {''')
m('c07f','C07',D+'keeper.go','uartrs.GT(current)','uartrs.GT(current) && !express')
# C08
m('c08a','C08',D+'hooks.go','*data.NextAccrue = time.Add(k.scheduleKeeper.OneDay(ctx))','*data.NextAccrue = ctx.BlockTime().Add(k.scheduleKeeper.OneDay(ctx))')
m('c08b','C08',D+'keeper.go','if delegated.GTE(sdk.NewIntFromUint64(step.Start)) {','if delegated.GT(sdk.NewIntFromUint64(step.Start)) || step.Start == 0 {')
m('c08c','C08',R+'keeper.go','i < toValidators[j].MaxLevel {','i <= toValidators[j].MaxLevel {')
m('c08d','C08',D+'keeper.go','''			dayPart = dayPart.Sub(*item.MissedPart)
			item.MissedPart = nil''','''			dayPart = dayPart.Sub(*item.MissedPart)''')
m('c08e','C08',N+'keeper.go','if ctx.BlockHeight()-record.UnjailAt < 6*int64(pz.UnjailAfter) {','if ctx.BlockHeight()-record.UnjailAt <= 6*int64(pz.UnjailAfter) {')
m('c08f','C08',D+'keeper.go','for i, v := range []bool{true, isActiveValidator, isActiveProfile, isActiveVpn, isActiveStorage} {','for i, v := range []bool{true, isActiveValidator, isActiveProfile, isActiveVpn, isActiveStorage && !isActiveVpn} {')
m('c08g','C08',R+'keeper.go','''				if data.Status >= toValidators[j].Status &&''','''				if data.Status >= toValidators[j].Status && highestAncestorValidatorIndex <= j &&''')
m('c08h','C08',D+'keeper.go','''		k.scheduleKeeper.Delete(ctx, *item.NextAccrue, types.AccrueHookName, acc)
	}
	item.NextAccrue = &nextPayment''','''		if interest > 0 {
			k.scheduleKeeper.Delete(ctx, *item.NextAccrue, types.AccrueHookName, acc)
		}
	}
	item.NextAccrue = &nextPayment''')
m('c08i','C08',D+'keeper.go','''	if current.Sub(uartrs).Int64() <= k.bankKeeper''','''	if current.Sub(uartrs).Int64() < k.bankKeeper''')
# C09
m('c09a','C09',R+'keeper.go','''				value.ActiveReferrals = util.MergeStringsSorted(value.ActiveReferrals, activeRefs)''','''				if len(value.ActiveReferrals) == 0 {
					value.ActiveReferrals = activeRefs
				}''')
m('c09b','C09',R+'keeper.go','''			util.RemoveStringFast(&value.Referrals, acc)
			value.Coins[1] = value.Coins[1].Sub(c)''','''			util.RemoveStringFast(&value.ActiveReferrals, acc)
			value.Coins[1] = value.Coins[1].Sub(c)''')
m('c09c','C09',R+'keeper.go','''	for p.Referrer != "" {
		ref := p.Referrer''','''	for i := 0; i < 10 && p.Referrer != ""; i++ {
		ref := p.Referrer''')
m('c09d','C09','util/lists.go','''		if s > item {
			*arr = append(*arr, "")''','''		if s > item && i > 0 {
			*arr = append(*arr, "")''')
m('c09e','C09',R+'keeper.go','''								value.Referrals = append(value.Referrals, acc)
								value.Coins[1] = value.Coins[1].Add(c)''','''								value.Coins[1] = value.Coins[1].Add(c)''')
m('c09f','C09',R+'keeper.go','''		if r.Active {
			value.ActiveReferrals = append(value.ActiveReferrals, subject)
		}
''','''		if r.Active && value.Active {
			value.ActiveReferrals = append(value.ActiveReferrals, subject)
		}
''')
# C10
m('c10a','C10',R+'keeper.go','''				for i := level; i <= 10; i++ {
					value.Coins[i] = value.Coins[i].Add''','''				for i := level; i < 10; i++ {
					value.Coins[i] = value.Coins[i].Add''')
m('c10b','C10',R+'keeper.go','	for i := 0; i < 10; i++ {\n		if ancestor == "" {','	for i := 0; i < 9; i++ {\n		if ancestor == "" {')
m('c10c','C10',R+'keeper.go','	for i := 1; i < 10; i++ {\n		if anc == "" {','	for i := 1; i < 9; i++ {\n		if anc == "" {')
m('c10d','C10',R+'keeper.go','if !(parent == "" || c.IsZero() && d.IsZero()) {\n		for lvl := 2; lvl <= 10; lvl++ {\n			if parent == "" {\n				break\n			}\n			var p2','if !(parent == "" || c.IsZero() || d.IsZero()) {\n		for lvl := 2; lvl <= 10; lvl++ {\n			if parent == "" {\n				break\n			}\n			var p2')
m('c10e','C10',R+'keeper.go','''		if oldAncestor == newAncestor {
			if old''','''		if oldAncestor == newAncestor || level == 10 {
			if old''')
m('c10f','C10',R+'keeper.go','''		dc = newBalance.Sub(value.Coins[0])
		dd = newDelegated''','''		dc = newBalance.Sub(value.Coins[0])
		if dc.IsZero() {
			return nil
		}
		dd = newDelegated''')
# C11
m('c11a','C11',R+'hooks.go','if value.StatusDowngradeAt == nil || value.StatusDowngradeAt.After(ctx.BlockTime()) {','if value.StatusDowngradeAt == nil {')
m('c11b','C11',R+'status_requirements.go','if child.ActiveRefCounts[1] >= uint64(size) {','if child.ActiveRefCounts[1] >= uint64(size) || child.ActiveRefCounts[2] > uint64(size) {')
m('c11c','C11',R+'bunch_updater.go','''					nextStatus--
					if nextStatus == types.HeroDeprecatedStatus {
						nextStatus--
					}
					break''','''					nextStatus--
					break''')
m('c11d','C11',R+'keeper.go','''	err := bu.update(acc, false, func(x *types.Info) error {
		if x.Active == value {''','''	err := bu.update(acc, value, func(x *types.Info) error {
		if x.Active == value {''')
m('c11e','C11',R+'status_requirements.go','types.STATUS_MASTER.LinesOpened(), 150_000, 10)','types.STATUS_CHAMPION.LinesOpened(), 150_000, 10)')
m('c11f','C11',R+'hooks.go','''		k.setStatus(ctx, value, nextStatus, acc)
		value.StatusDowngradeAt = nil
		return nil''','''		k.setStatus(ctx, value, nextStatus, acc)
		return nil''')
m('c11g','C11',R+'keeper.go','''	if target.Status >= minIndexedStatus {
		key[0]''','''	if target.Status > minIndexedStatus {
		key[0]''')
# C12
m('c12a','C12',R+'hooks.go','if record.CompressionAt == nil || record.CompressionAt.After(ctx.BlockTime()) {','if record.CompressionAt == nil {')
m('c12b','C12',R+'keeper.go','''		if d.Int64() > k.bankKeeper.GetParams(ctx).DustDelegation {
			return errors.New("must not banish: delegation")
		}''','''		if d.Int64() > 2*k.bankKeeper.GetParams(ctx).DustDelegation {
			return errors.New("must not banish: delegation")
		}''')
m('c12c','C12',R+'keeper.go','''			if value && x.BanishmentAt != nil {
				k.scheduleKeeper.Delete(ctx, *x.BanishmentAt, BanishHookName, []byte(acc))
				x.BanishmentAt = nil''','''			if value && x.BanishmentAt != nil {
				x.BanishmentAt = nil''')
m('c12d','C12',R+'keeper.go','''			if !pi.RegistrationClosed(ctx, k.scheduleKeeper) {
				break
			}
			parent = pi.Referrer
		}
		value.Referrer = parent
		c = value''','''			if !pi.Banished {
				break
			}
			parent = pi.Referrer
		}
		value.Referrer = parent
		c = value''')
m('c12e','C12',R+'keeper.go','''		if delegated[0].Int64() <= k.bankKeeper.GetParams(ctx).DustDelegation {
			k.scheduleBanishment''','''		if delegated[0].Int64() < k.bankKeeper.GetParams(ctx).DustDelegation {
			k.scheduleBanishment''')
m('c12f','C12',P+'keeper.go','''	k.referralKeeper.ScheduleCompression(ctx, addr.String(), ctx.BlockTime().Add(k.referralKeeper.CompressionPeriod(ctx)))
''','''	if !profile.IsActive(ctx) && profile.Nickname == "" {
		k.referralKeeper.ScheduleCompression(ctx, addr.String(), ctx.BlockTime().Add(k.referralKeeper.CompressionPeriod(ctx)))
	}
''')
# C13
m('c13a','C13',R+'keeper.go','''	if err = k.validateTransition(ctx, subject, r.Transition, false); err != nil {
		return errors.Wrap(err, "transition is invalid")
	}
''','''	if !k.exists(ctx, r.Transition) {
		return errors.New("transition is invalid")
	}
''')
m('c13b','C13',R+'keeper.go','''		if r.Transition != "" {
			return errors.New("transition is already requested")''','''		if r.Transition == newParent {
			return errors.New("transition is already requested")''')
m('c13c','C13',R+'keeper.go','''	if p.RegistrationClosed(ctx, k.scheduleKeeper) {
		return types.ErrRegistrationClosed
	}
	for p''','''	if fresh && p.RegistrationClosed(ctx, k.scheduleKeeper) {
		return types.ErrRegistrationClosed
	}
	for p''')
m('c13d','C13',R+'keeper.go','''	k.scheduleKeeper.ScheduleTask(ctx, ctx.BlockTime().Add(k.scheduleKeeper.OneDay(ctx)), TransitionTimeoutHookName''','''	k.scheduleKeeper.ScheduleTask(ctx, ctx.BlockTime().Add(24*time.Hour), TransitionTimeoutHookName''')
# C14
m('c14a','C14',N+'keeper.go','''			} else if data.LastPower == power {
				continue
			}
''','''			} else if data.LastPower == power || data.LastPower != 0 && data.JailCount > 0 {
				continue
			}
''')
m('c14b','C14',N+'keeper.go','''					d.LastPower = 0
					d.LastPubKey = ""
					return true
				}); err != nil {
					defer it.Close()''','''					d.LastPower = 0
					return true
				}); err != nil {
					defer it.Close()''')
m('c14c','C14',N+'keeper.go','''		updated := data.LastPower != power
		if data.PubKey''','''		updated := data.LastPower < power || data.LastPower == 0
		if data.PubKey''')
m('c14d','C14',N+'keeper.go','''	if found && busy {
		k''','''	if found && busy && !holder.Equals(accAddr) && !k.has(ctx, accAddr) {
		k''')
m('c14e','C14',N+'keeper.go','''			if updated {
				if err := k.update(ctx, data.Account, func(d *types.Info) (save bool) {
					d.LastPower = 0
					d.LastPubKey = ""''','''			if updated {
				if err := k.update(ctx, data.Account, func(d *types.Info) (save bool) {
					d.LastPower = 0
					if d.LotteryNo == 0 {
						d.LastPubKey = ""
					}''')
# C15
m('c15a','C15',N+'keeper.go','''		d.ProposedCount++
		if d.LotteryNo != 0 {
			if err := k.lotteryDownshift(ctx, acc, d); err != nil {
				// should never happen
				panic(err)
			}
		}
		return true''','''		d.ProposedCount++
		return true''')
m('c15b','C15',N+'keeper.go','if data.LotteryNo != 0 && data.LotteryNo <= maxLotNo {','if data.LotteryNo != 0 && data.LotteryNo <= maxLotNo && data.Strokes < 5 {')
m('c15c','C15',N+'keeper.go','if !result && delegation.Uint64() < minCriteria.TotalStake {','if !result && delegation.Uint64()+selfDelegation.Uint64() < minCriteria.TotalStake {')
m('c15d','C15',N+'keeper.go','''		if active[i].Score != active[j].Score {
			return active[i].Score > active[j].Score
		}
		return active[i].OkBlocksInRow > active[j].OkBlocksInRow''','''		if active[i].Score/2 != active[j].Score/2 {
			return active[i].Score > active[j].Score
		}
		return active[i].OkBlocksInRow > active[j].OkBlocksInRow''')
m('c15e','C15',N+'keeper.go','''	if isActive {
		if err = k.OnStatusUpdate(ctx, acc); err != nil {
			return err
		}
		if err = k.OnStakeChanged(ctx, acc); err != nil {
			return err
		}
	}
''','''	if isActive {
		if err = k.OnStatusUpdate(ctx.WithBlockHeight(0), acc); err != nil && false {
			return err
		}
	}
''')
m('c15f','C15',N+'vp_generator.go','if g.count > g.maxValidators {','if g.count >= g.maxValidators && g.maxValidators > 1 {')
m('c15g','C15',N+'keeper.go','''		d.Status = false
		if d.LotteryNo != 0 {
			if err := k.lotteryExclude(ctx, d); err != nil {
				// should never happen
				panic(err)
			}
		}
		return true
	})
	if err != nil {
		return err
	}

	return nil''','''		d.Status = false
		return true
	})
	if err != nil {
		return err
	}

	return nil''')
# C16
m('c16a','C16',N+'keeper.go','''		d.MissedBlocksInRow = 0
		d.OkBlocksInRow++''','''		if d.OkBlocksInRow > 0 {
			d.MissedBlocksInRow = 0
		}
		d.OkBlocksInRow++''')
m('c16b','C16',N+'keeper.go','''		item.JailCount = 0
''','''		item.JailCount = 0
		item.Infractions = nil
''')
m('c16c','C16',N+'keeper.go','if ctx.BlockHeight() < data.UnjailAt {','if ctx.BlockHeight() < data.UnjailAt-1 {')
m('c16d','C16',N+'keeper.go','''			d.JailCount++
			d.MissedBlocksInRow = 0''','''			d.JailCount++''')
m('c16e','C16',N+'keeper.go','''			d.BannedForLife = true
			d.Status = false''','''			d.BannedForLife = d.Status
			d.Status = false''')
m('c16f','C16',N+'keeper.go','''		if d.Jailed {
			return false
		}

		d.Score''','''		if d.Jailed || !d.Status {
			return false
		}

		d.Score''')
m('c16g','C16',N+'keeper.go','''	data.Jailed = false
	q, delegation, reason, err := k.IsQualified(ctx, acc)''','''	data.Jailed = false
	q, delegation, reason, err := k.IsQualified(ctx, acc)
	q = q || data.JailCount == 1''')
# C17
m('c17a','C17','util/fee.go','''	if !maxFee.IsZero() && fee.GT(maxFee) {
		fee = maxFee
	}

	return calculateSplittableFee(fee, forProposerFeeFraction, forCompanyFeeFraction)''','''	fee = calculateSplittableFee(fee, forProposerFeeFraction, forCompanyFeeFraction)
	if !maxFee.IsZero() && fee.GT(maxFee) {
		fee = maxFee
	}
	return fee''')
m('c17b','C17',B+'keeper.go','if !fee.IsZero() {','if !fee.IsZero() && !k.GetBalance(ctx, senderAddr).IsEqual(amt) {')
m('c17c','C17','x/noding/abci.go','''	accAddr, found, _, err := k.GetValidatorByConsAddr(ctx, consAddr)
	if err != nil {
		return err
	}
	if !found {''','''	accAddr, found, active, err := k.GetValidatorByConsAddr(ctx, consAddr)
	if err != nil {
		return err
	}
	if !found || !active {''')
# C18
m('c18a','C18',V+'keeper.go','''		complete = true
		agreed = len(aGov.Members)*3 >= len(gov.Members)*2
	}
''','''		complete = true
	}
	agreed = len(aGov.Members)*3 >= len(gov.Members)*2
''')
m('c18b','C18',V+'keeper.go','	k.scheduleKeeper.DeleteAll(ctx, *proposal.EndTime, types.VoteHookName)\n','	if !agreed {\n		k.scheduleKeeper.DeleteAll(ctx, *proposal.EndTime, types.VoteHookName)\n	}\n')
m('c18c','C18',V+'keeper.go','if len(gov.Members) == (len(aGov.Members) + len(dGov.Members)) {','if len(gov.Members) <= (len(aGov.Members) + len(dGov.Members)) {')
m('c18d','C18',V+'keeper.go','	store.Delete(types.KeyDisagreedMembers)\n','	if !agreed {\n		store.Delete(types.KeyDisagreedMembers)\n	}\n')
m('c18e','C18',V+'keeper.go','			p.TransactionFeeSplitRatios.ForCompany = proposal.GetPortions().Fractions[1]','			p.TransactionFeeSplitRatios.ForCompany = proposal.GetPortions().Fractions[0]')
m('c18f','C18',V+'keeper.go','			p.ExpressRevoke = *proposal.GetRevoke().Revoke','			p.ExpressRevoke = *proposal.GetRevoke().Revoke\n			p.Revoke.Burn = p.ExpressRevoke.Burn')
# C19
m('c19a','C19',V+'keeper.go','if yes != 0 && util.FractionInt(int64(yes)).GTE(','if yes != 0 && util.FractionInt(int64(yes)).GT(')
m('c19b','C19',V+'keeper.go','	store.Delete(types.KeyPollNoCount)\n','	if no > yes {\n		store.Delete(types.KeyPollNoCount)\n	}\n')
m('c19c','C19',V+'keeper.go','if info.Status < r.MinStatus {','if info.Status < r.MinStatus && info.StatusDowngradeAt == nil {')
m('c19d','C19',V+'keeper.go','''	for ; it.Valid(); it.Next() {
		store.Delete(it.Key())
	}
	it.Close()

	store.Write()''','''	for i := 0; i < 8 && it.Valid(); it.Next() {
		store.Delete(it.Key())
		i++
	}
	it.Close()

	store.Write()''')
# C20
m('c20a','C20',P+'subscription.go','''		*profile.ActiveUntil = profile.ActiveUntil.Add(k.scheduleKeeper.OneMonth(ctx))
		if isAutoPay''','''		*profile.ActiveUntil = profile.ActiveUntil.Add(k.scheduleKeeper.OneMonth(ctx))
		if isAutoPay && profile.ActiveUntil.Before(ctx.BlockTime()) {
			*profile.ActiveUntil = ctx.BlockTime()
		}
		if isAutoPay''')
m('c20b','C20',P+'subscription.go','''			if err := k.PayTariff(ctx, addr, 0, true); err != nil {
				defer k''','''			if err := k.PayTariff(ctx, addr, 0, true); err != nil && !profile.Noding {
				defer k''')
m('c20c','C20',P+'subscription.go','	k.scheduleRenew(ctx, addr, *profile.ActiveUntil)','	if isAutoPay || !profile.AutoPay || profile.ActiveUntil.Sub(ctx.BlockTime()) <= k.scheduleKeeper.OneMonth(ctx) {\n		k.scheduleRenew(ctx, addr, *profile.ActiveUntil)\n	}')
m('c20d','C20',P+'subscription.go','''	if !profile.IsActive(ctx) && !isAutoPay {
		au''','''	if (profile.ActiveUntil == nil || profile.ActiveUntil.Before(ctx.BlockTime())) && !isAutoPay {
		au''')
# C21
m('c21a','C21',P+'subscription.go','''	if profile.VpnLimit < baseVpn {
		profile.VpnLimit = baseVpn
	}
''','''	if profile.VpnLimit == 0 {
		profile.VpnLimit = baseVpn
	}
''')
m('c21b','C21',P+'subscription.go','''	if extraGb == 0 {
		k.scheduleKeeper.Delete(ctx, *profile.ExtraImUntil, types.RefreshImHookName, addr.Bytes())
		profile.ExtraImUntil = nil''','''	if extraGb == 0 {
		profile.ExtraImUntil = nil''')
m('c21c','C21',P+'subscription.go','''	if newLimit < profile.StorageCurrent {
		return errors.Errorf("resulting''','''	if newLimit+util.GBSize <= profile.StorageCurrent {
		return errors.Errorf("resulting''')
m('c21d','C21',P+'subscription.go','''	t := profile.ExtraImUntil.Add(k.scheduleKeeper.OneMonth(ctx))
	k.s''','''	t := ctx.BlockTime().Add(k.scheduleKeeper.OneMonth(ctx))
	k.s''')
m('c21e','C21',P+'subscription.go','''			if storageFeeFrac.IsNegative() {
				storageFeeFrac = util.FractionZero()
			}
''','')
m('c21f','C21',P+'subscription.go','''		profile.ImLimitExtra = 0
		profile.ExtraImUntil = nil
		profile.AutoPayImExtra = false
''','''		profile.ExtraImUntil = nil
		profile.AutoPayImExtra = false
''')
# C22
m('c22a','C22',P+'keeper.go','''			if oldProfile.Nickname != "" {
				k.removeProfileAccountByNickname(ctx, oldProfile.Nickname)
			}
''','''			if oldProfile.Nickname != "" {
				defer k.removeProfileAccountByNickname(ctx, oldProfile.Nickname)
			}
''')
m('c22b','C22',P+'keeper.go','''	store := ctx.KVStore(k.aliasStoreKey)
	store.Delete([]byte(strings.ToLower(nickname)))''','''	store := ctx.KVStore(k.aliasStoreKey)
	store.Delete([]byte(strings.TrimRight(strings.ToLower(nickname), "0123456789")))''')
m('c22c','C22',P+'keeper.go','''	if namesake != nil && !namesake.Equals(addr) {
		return''','''	if p := k.GetProfile(ctx, namesake); namesake != nil && !namesake.Equals(addr) && p != nil && p.Nickname == nickname {
		return''')
m('c22d','C22',P+'keeper.go','''		} else {
			profile.CardNumber = oldProfile.CardNumber
		}''','''		}''')
# C23
m('c23a','C23',R+'genesis.go','''				if data.BanishmentAt != nil {
					banishment = append(banishment, *types.NewCompression(addr, *data.BanishmentAt))
				}
				if data.StatusDowngradeAt''','''				if data.StatusDowngradeAt''')
m('c23b','C23','x/voting/genesis.go','k.SetStartBlock(ctx.WithBlockHeight(data.StartBlock))','k.SetStartBlock(ctx)')
m('c23c','C23',S+'genesis.go','		tasks = append(tasks, schedule.Tasks...)','		tasks = append(tasks, schedule.Tasks[0])')
m('c23d','C23',E_+'genesis.go','result = append(result, types.NewEarner(acc, timestamps.Vpn, timestamps.Storage))','if vpn, storage, _ := k.IsActiveEarner(ctx, acc); vpn || storage {\n			result = append(result, types.NewEarner(acc, timestamps.Vpn, timestamps.Storage))\n		}')
m('c23e','C23',V+'keeper.go','	end := limit * page\n','	end := limit * page\n	if end > 100 {\n		end = 5\n	}\n')
m('c23f','C23','x/noding/types/genesis.go','','')
# C24
m('c24a','C24',N+'keeper.go','''			d.JailCount++
			d.MissedBlocksInRow = 0
			if d.LotteryNo != 0 {
				if''','''			d.JailCount++
			d.MissedBlocksInRow = 0
			if d.LotteryNo != 0 || d.LastPower == 0 {
				if''')
m('c24b','C24',N+'vp_generator.go','''	g.ptr++
	g.partAccum''','''	if score < g.lastScore {
		g.ptr++
	}
	g.ptr++
	g.partAccum''')
m('c24c','C24',R+'keeper.go','''	for p.Referrer != "" {
		ref := p.Referrer
		if ref == subject {
			return errors.New("cycles are not allowed")
		}
''','''	for p.Referrer != "" {
		ref := p.Referrer
		if ref == subject && fresh {
			return errors.New("cycles are not allowed")
		}
''')
# C25
m('c25a','C25',V+'keeper.go','''			if p.Time != nil {
				plan.Time = *p.Time
			}''','''			if p.Time != nil {
				plan.Time = p.Time.Add(time.Minute)
			}''')
m('c25b','C25',V+'keeper.go','			k.upgradeKeeper.ClearUpgradePlan(ctx)','			if plan, ok := k.upgradeKeeper.GetUpgradePlan(ctx); ok && plan.Time.Sub(ctx.BlockTime()) > time.Hour {\n				k.upgradeKeeper.ClearUpgradePlan(ctx)\n			}')
m('c25c','C25','app/app.go','''		upgradeTypes.ModuleName,
		noding.ModuleName,
		referral.ModuleName,
		delegating.ModuleName,
		scheduleTypes.ModuleName,
	)
	app.mm.SetOrderEndBlockers(''','''		noding.ModuleName,
		referral.ModuleName,
		delegating.ModuleName,
		scheduleTypes.ModuleName,
		upgradeTypes.ModuleName,
	)
	app.mm.SetOrderEndBlockers(''')
# C26
m('c26a','C26',B+'send.go','''	if err := keeper.SubtractCoins(ctx, fromAddr, amt); err != nil {
		return err
	}

	if err := keeper.AddCoins(ctx, toAddr, amt); err != nil {
		return err
	}

	return nil
}

// SubtractCoins''','''	to := keeper.GetBalance(ctx, toAddr)
	if err := keeper.SubtractCoins(ctx, fromAddr, amt); err != nil {
		return err
	}

	return keeper.SetBalance(ctx, toAddr, sdk.NewCoins(to.Add(amt...)...))
}

// SubtractCoins''')
m('c26b','C26',B+'msg_server.go','''	for _, coin := range msg.Amount {
		if !util''','''	for _, coin := range msg.Amount[:1] {
		if !util''')
m('c26c','C26',B+'msg_server.go','if minCoins.IsAnyGT(msg.Amount) {','if minCoins.IsAllGT(msg.Amount.Add(msg.Amount...)) {')
m('c26d','C26',B+'msg_server.go','sdk.NewInt(int64(msg.Amount))','sdk.NewInt(int64(uint32(msg.Amount)))')
# C27
m('c27a','C27',E_+'keeper.go','''	if timestamps.Vpn == nil && timestamps.Storage == nil {
		k.delete(ctx, accAddr)''','''	if updateTimestamps && !vpn {
		k.delete(ctx, accAddr)''')
m('c27b','C27',E_+'msg_server.go','		if earner.Vpn == nil && earner.Storage == nil {','		if earner.Vpn == nil && earner.Storage == nil || k.has(sdkCtx, acc) && earner.Vpn == nil {')
m('c27c','C27',E_+'keeper.go','''		if timestamps.Storage.Add(2 * k.scheduleKeeper.OneDay(ctx)).After(ctx.BlockTime()) {''','''		if !timestamps.Storage.Add(2 * k.scheduleKeeper.OneDay(ctx)).Before(ctx.BlockTime()) {''')
m('c27d','C27',E_+'keeper.go','if timestamps.Vpn.Add(2 * k.scheduleKeeper.OneDay(ctx)).After(ctx.BlockTime()) {','if !timestamps.Vpn.After(ctx.BlockTime()) && timestamps.Vpn.Add(2 * k.scheduleKeeper.OneDay(ctx)).After(ctx.BlockTime()) {')
# C28
m('c28a','C28',P+'msg_server.go','	if p.RenamePrice > 0 {','	if p.RenamePrice > 0 && !msg.WithProfile() {')
m('c28b','C28',R+'keeper.go','		if !skipActivityCheck {\n','		if !skipActivityCheck && len(value.Referrals) > 1 {\n')
m('c28c','C28',P+'keeper.go','''	profile.CardNumber = k.CardNumberByAccountNumber(ctx, acc.GetAccountNumber())
	if err := k.SetProfile''','''	profile.CardNumber = k.CardNumberByAccountNumber(ctx, acc.GetAccountNumber()|1)
	if err := k.SetProfile''')
m('c28d','C28',P+'msg_server.go','''		for _, acc := range p.Creators {
			if creator == acc {''','''		for _, acc := range p.Creators {
			if creator == acc || msg.Referrer == acc {''')

# a second batch
m('n06a','C06',S+'keeper.go','binary.BigEndian.PutUint64(bz, uint64(t.UnixNano()))','binary.BigEndian.PutUint64(bz, uint64(t.UnixNano()/1000*1000))')
m('n06b','C06',S+'keeper.go','return task.HandlerName == event && bytes.Equal(task.Data, payload)','return task.HandlerName == event && bytes.HasPrefix(task.Data, payload[:len(payload)/2])')
m('n07a','C07',D+'keeper.go',"""	period := revokeParams.GetPeriod(k.scheduleKeeper, ctx)
	time := ctx.BlockTime().Add(period)
""","""	period := revokeParams.GetPeriod(k.scheduleKeeper, ctx)
	time := ctx.BlockTime().Add(period)
	if n := len(item.Requests); n != 0 && !express && time.Sub(item.Requests[n-1].Time) < k.scheduleKeeper.OneDay(ctx)/24 && time.After(item.Requests[n-1].Time) {
		item.Requests[n-1].Amount = item.Requests[n-1].Amount.Add(uartrrs)
		store.Set(byteKey, k.cdc.MustMarshalBinaryBare(&item))
		return nil
	}
""")
m('n07b','C07',D+'keeper.go','uartrrs := uartrs.Sub(sdk.NewInt(revokeParams.Burn.MulInt64(uartrs.Int64()).Int64()))','uartrrs := sdk.NewInt(util.FractionInt(1).Sub(revokeParams.Burn).MulInt64(uartrs.Int64()).Int64())')
m('n07c','C07',D+'keeper.go',"""	if !express {
		revokeParams = k.GetParams(ctx).Revoke
	} else {""","""	if !express || len(item.Requests) != 0 && current.Equal(uartrs) {
		revokeParams = k.GetParams(ctx).Revoke
	} else {""")
m('n08a','C08',D+'keeper.go',"			item.MissedPart = nil\n		}\n		delegated, _","			if dayPart.IsPositive() {\n				item.MissedPart = nil\n			}\n		}\n		delegated, _")
m('n08b','C08',D+'keeper.go','if delegated.GTE(sdk.NewIntFromUint64(step.Start)) {','if delegated.GT(sdk.NewIntFromUint64(step.Start)) || step.Start == 0 {')
m('n08c','C08',D+'keeper.go',"""	if !fee.IsZero() {
		ucoins = ucoins.Sub(fee)""","""	if !fee.IsZero() && !fee.Equal(sdk.NewInt(k.bankKeeper.GetParams(ctx).MaxTransactionFee)) {
		ucoins = ucoins.Sub(fee)""")
m('n09a','C09',R+'keeper.go','for i := 1; i < 10; i++ {\n		if anc == "" {\n			break\n		}\n		err = bu.update(anc, true','for i := 1; i < 9; i++ {\n		if anc == "" {\n			break\n		}\n		err = bu.update(anc, true')
m('n09b','C09',R+'keeper.go',"""			value.Referrer = parent
			return nil
		}); err != nil {
			return err
		}
	}
""","""			value.Referrer = parent
			if value.Transition == parent {
				value.Transition = ""
			}
			return nil
		}); err != nil {
			return err
		}
	}
""")
m('n10a','C10',R+'keeper.go',"""			util.RemoveStringFast(&value.Referrals, acc)
			value.Coins[1] = value.Coins[1].Sub(c)
			value.Delegated[1] = value.Delegated[1].Sub(d)""","""			util.RemoveStringFast(&value.Referrals, acc)
			if !value.Active {
				value.Coins[1] = value.Coins[1].Sub(c)
			}
			value.Delegated[1] = value.Delegated[1].Sub(d)""")
m('n10b','C10',R+'keeper.go',"""		for lvl := 2; lvl <= 10; lvl++ {
			if parent == "" {
				break
			}
			var p2 string""","""			for lvl := 2; lvl < 10; lvl++ {
			if parent == "" {
				break
			}
			var p2 string""")
m('n10c','C10',R+'keeper.go',"""			for i := 1; i <= 10-k; i++ {
				value.Coins[k+i]""","""			for i := 1; i < 10-k; i++ {
				value.Coins[k+i]""")
m('n10d','C10',R+'keeper.go',"	if !(parent == \"\" || c.IsZero() && d.IsZero()) {\n		for lvl := 2; lvl <= 10; lvl++ {\n			if parent == \"\" {\n				break\n			}\n			var p2","	if !(parent == \"\" || d.IsZero()) {\n		for lvl := 2; lvl <= 10; lvl++ {\n			if parent == \"\" {\n				break\n			}\n			var p2")
m('n10e','C10',R+'keeper.go','if !(c.IsZero() && d.IsZero() || parent == "") {','if !(c.IsZero() || parent == "") {')
m('n11a','C11',R+'bunch_updater.go',"""				nextStatus++
				if nextStatus == types.HeroDeprecatedStatus {
					nextStatus++
				}
				checkResult, err""","""				if nextStatus > value.Status {
					break
				}
				nextStatus++
				if nextStatus == types.HeroDeprecatedStatus {
					nextStatus++
				}
				checkResult, err""")
m('n11b','C11',R+'hooks.go','value.StatusDowngradeAt == nil || value.StatusDowngradeAt.After(ctx.BlockTime())','value.StatusDowngradeAt == nil')
m('n11c','C11',R+'bunch_updater.go',"""			if value.StatusDowngradeAt != nil {
				value.StatusDowngradeAt = nil""","""			if value.StatusDowngradeAt != nil && !value.StatusDowngradeAt.After(bu.ctx.BlockTime().Add(bu.StatusDowngradeAfter()/2)) {
				value.StatusDowngradeAt = nil""")
m('n11d','C11',R+'keeper.go',"""		err = bu.update(ancestor, checkAncestorsForStatusUpdate, func""","""		err = bu.update(ancestor, checkAncestorsForStatusUpdate && (value || i < 3), func""")
m('n11e','C11',R+'bunch_updater.go',"return 2 * bu.k.scheduleKeeper.OneDay(bu.ctx)","return 48 * time.Hour")
m('n12a','C12',R+'keeper.go','if newDelegated.Int64() <= k.bankKeeper.GetParams(ctx).DustDelegation {','if newDelegated.Int64() < k.bankKeeper.GetParams(ctx).DustDelegation || newDelegated.IsZero() {')
m('n12b','C12',R+'keeper.go',"""					if value.BanishmentAt != nil {
						k.scheduleKeeper.Delete(ctx, *value.BanishmentAt, BanishHookName, []byte(acc))
						value.BanishmentAt = nil""","""					if value.BanishmentAt != nil {
						value.BanishmentAt = nil""")
m('n12c','C12',R+'keeper.go',"""		value.Banished = false
		value.BanishmentAt = nil
		value.CompressionAt = nil
		value.Status = types.STATUS_LUCKY""","""		value.Banished = false
		value.BanishmentAt = nil
		value.CompressionAt = nil
		if value.Status == types.STATUS_UNSPECIFIED && len(value.Referrals) == 0 {
			value.Status = types.STATUS_LUCKY
			value.Referrer = parent
			if parent == "" {
				value.Status = types.STATUS_LEADER
			}
		}""")
m('n12d','C12',R+'keeper.go',"""			if value && x.BanishmentAt != nil {
				k.scheduleKeeper.Delete(ctx, *x.BanishmentAt, BanishHookName, []byte(acc))
				x.BanishmentAt = nil
			}""","")
m('n12e','C12',R+'keeper.go',"""			if !pi.RegistrationClosed(ctx, k.scheduleKeeper) {
				break
			}
			parent = pi.Referrer
		}
		value.Referrer = parent
		c = value.Coins[0]""","""			if !pi.RegistrationClosed(ctx, k.scheduleKeeper) || pi.Referrer == "" {
				break
			}
			parent = pi.Referrer
			break
		}
		value.Referrer = parent
		c = value.Coins[0]""")
m('n12f','C12',R+'hooks.go','if record.CompressionAt == nil || record.CompressionAt.After(ctx.BlockTime()) {','if record.CompressionAt == nil {')
m('n13a','C13',R+'keeper.go',"""		if r.Active {
			value.ActiveReferrals = append(value.ActiveReferrals, subject)
		}""","""		if r.Active && r.ActiveRefCounts[1] != 0 {
			value.ActiveReferrals = append(value.ActiveReferrals, subject)
		}""")
m('n13b','C13',R+'keeper.go','	if p.RegistrationClosed(ctx, k.scheduleKeeper) {\n		return types.ErrRegistrationClosed','	if fresh && p.RegistrationClosed(ctx, k.scheduleKeeper) {\n		return types.ErrRegistrationClosed')
m('n13c','C13',R+'keeper.go',"	for p.Referrer != \"\" {\n		ref := p.Referrer","	for lvl := 0; p.Referrer != \"\" && lvl < 10; lvl++ {\n		ref := p.Referrer")
m('n14a','C14',N+'keeper.go',"""				result = append(result, abci.ValidatorUpdate{
					PubKey: abciPubKeyFromBech32(data.LastPubKey),
					Power:  0,
				})
			}
			updated = true""","""				result = append(result, abci.ValidatorUpdate{
					PubKey: abciPubKeyFromBech32(data.LastPubKey),
					Power:  0,
				})
			}
			updated = data.LastPower != power""")
m('n14b','C14',N+'keeper.go',"""					PubKey: abciPubKeyFromBech32(data.LastPubKey),
					Power:  0,
				})
				updated = true
			}""","""					PubKey: abciPubKeyFromBech32(data.PubKey),
					Power:  0,
				})
				updated = true
			}""")
m('n15a','C15',N+'keeper.go',"		return active[i].OkBlocksInRow > active[j].OkBlocksInRow","		return active[i].OkBlocksInRow/100 > active[j].OkBlocksInRow/100")
m('n15b','C15',N+'keeper.go',"""		d.ProposedCount++
		if d.LotteryNo != 0 {""","""		d.ProposedCount++
		if d.LotteryNo != 0 && d.ProposedCount > 1 {""")
m('n15c','C15',N+'keeper.go',"""		if d.OkBlocksInRow%100 == 0 {
			d.Score++""","""		if d.OkBlocksInRow%100 == 0 && d.LotteryNo == 0 {
			d.Score++""")
m('n15d','C15',N+'keeper.go',"		d.Score = d.Score - d.OkBlocksInRow/100 - 1","		d.Score = d.Score - (d.OkBlocksInRow+99)/100 - 1")
m('n16a','C16',N+'keeper.go',"""		if d.MissedBlocksInRow >= int64(p.JailAfter) {""","""		if d.MissedBlocksInRow >= int64(p.JailAfter) && (d.LotteryNo == 0 || d.MissedBlocksInRow > int64(p.JailAfter)) {""")
m('n16b','C16',N+'keeper.go',"if ctx.BlockHeight() < data.UnjailAt {","if ctx.BlockHeight() < data.UnjailAt && data.JailCount < 3 {")
m('n16c','C16',N+'keeper.go',"""			d.BannedForLife = true
			d.Status = false""","""			d.BannedForLife = !d.Staff
			d.Status = false""")
m('n16d','C16',N+'keeper.go',"""		item.Score += item.Strokes
		item.Strokes = 0
		item.JailCount = 0""","""		item.Score += item.Strokes
		item.Strokes = 0
		item.JailCount = 0
		item.MissedBlocksInRow = 0""")
m('n16e','C16',N+'keeper.go',"""	data.Jailed = false
	q, delegation""","""	data.Jailed = false
	data.OkBlocksInRow = 0
	q, delegation""")
m('n20a','C20',P+'subscription.go',"""	if !profile.IsActive(ctx) && !isAutoPay {
		au""","""	if (profile.ActiveUntil == nil || profile.ActiveUntil.Before(ctx.BlockTime())) && !isAutoPay {
		au""")
m('n20b','C20',P+'subscription.go',"""			profile.StorageLimit = storageB
		}
	} else if storageGb != 0 {
		profile.StorageLimit = storageB""","""			profile.StorageLimit = storageB
		}
	} else if storageGb != 0 && storageB > profile.StorageLimit {
		profile.StorageLimit = storageB""")
m('n20c','C20',P+'subscription.go',"""		if overuse := profile.VpnCurrent - baseVpn; overuse < profile.VpnLimit {""","""		if overuse := profile.VpnCurrent - baseVpn; overuse < profile.VpnLimit-baseVpn {""")
m('n20d','C20',P+'subscription.go',"	profile.VpnCurrent = 0\n","	if profile.VpnCurrent > profile.VpnLimit {\n		profile.VpnCurrent -= profile.VpnLimit\n	} else {\n		profile.VpnCurrent = 0\n	}\n")
m('n21a','C21',P+'subscription.go',"""	if newLimit < profile.StorageCurrent {
		return""","""	if newLimit < profile.StorageCurrent && profile.IsActive(ctx) {
		return""")
m('n21b','C21',P+'subscription.go',"""	} else {
		profile.ImLimitExtra = uint64(extraGb)

		until""","""	} else {
		profile.ImLimitExtra += uint64(extraGb)

		until""")
m('n21c','C21',P+'subscription.go',"		k.scheduleKeeper.Delete(ctx, *profile.ExtraImUntil, types.RefreshImHookName, addr.Bytes())\n","")
m('n21d','C21',P+'subscription.go',"""	if profile.StorageLimit < baseAmount {
		profile.StorageLimit = baseAmount
	}

	time""","""	time""")
m('n26a','C26',B+'msg_server.go',"if k.ak.GetAccount(sdkCtx, toAddress) == nil {","if k.ak.GetAccount(sdkCtx, toAddress) == nil && msg.Amount.AmountOf(util.ConfigMainDenom).IsPositive() && len(msg.Amount) > 1 {")
m('n26b','C26',B+'send.go',"	bech32 := addr.String()\n	for _, v := range keeper.GetParams(ctx).BlockedSenders {\n		if v == bech32 {","	bech32 := addr.String()\n	for i, v := range keeper.GetParams(ctx).BlockedSenders {\n		if v == bech32 && i < 2 {")
m('n27a','C27',E_+'keeper.go',"			timestamps.Vpn = nil\n			updateTimestamps = true","			timestamps.Vpn, timestamps.Storage = nil, nil\n			updateTimestamps = true")
m('n27b','C27',E_+'msg_server.go',"			err = k.set(sdkCtx, acc, earner.GetTimestamps())","			ts := earner.GetTimestamps()\n			if old, e := k.get(sdkCtx, acc); e == nil && ts.Storage == nil && k.has(sdkCtx, acc) {\n				ts.Storage = old.Storage\n			}\n			err = k.set(sdkCtx, acc, ts)")
m('n28a','C28',R+'keeper.go',"		value.Delegated[1] = value.Delegated[1].Add(delegated)\n		bu.addCallback(StakeChangedCallback, anc)\n		value.Referrals = append(value.Referrals, childAcc)\n		anc = value.Referrer\n		if !skip","		value.Delegated[1] = value.Delegated[1].Add(delegated)\n		bu.addCallback(StakeChangedCallback, anc)\n		value.Referrals = append(value.Referrals, childAcc)\n		anc = value.Referrer\n		if !value.Active && !skip")
m('n28b','C28',P+'keeper.go',"""	k.referralKeeper.ScheduleCompression(ctx, addr.String(), ctx.BlockTime().Add(k.referralKeeper.CompressionPeriod(ctx)))
	profile.CardNumber""","""	profile.CardNumber""")
m('n28c','C28',P+'msg_server.go',"		if !freeCreation {","		if !freeCreation && !msg.GetCreator().Equals(msg.GetReferrer()) {")
m('n28d','C28',P+'msg_server.go',"			Nickname:       msg.Profile.Nickname,","			Nickname:       msg.Profile.Nickname,\n			ActiveUntil:    msg.Profile.ActiveUntil,")
m('n29a','C29',N+'keeper.go',"""	if data.LastPower == 0 {
		return types.VALIDATOR_STATE_SPARE""","""	if data.LastPower == 0 || data.LastPubKey != data.PubKey {
		return types.VALIDATOR_STATE_SPARE""")
m('n29b','C29',D+'keeper.go',"	if item.MissedPart != nil {\n		missedTotal := item.MissedPart.Mul(paymentTotal)","	if item.MissedPart != nil && !isActiveValidator {\n		missedTotal := item.MissedPart.Mul(paymentTotal)")
m('n29c','C29',R+'keeper.go',"""	d := data.Status.LinesOpened()
	if d > maxDepth {
		d = maxDepth
	}
	return data.CoinsAtLevelsUpTo(d), nil""","""	d := data.Status.LinesOpened()
	if d > maxDepth || maxDepth == 10 {
		d = maxDepth
	}
	return data.CoinsAtLevelsUpTo(d), nil""")
M = [x for x in M if x[3]]
