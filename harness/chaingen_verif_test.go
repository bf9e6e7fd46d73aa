// +build testing

package app

import (
	"fmt"
	"sort"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
)

// Random, state-aware generation of configurations and operations for the "chain" driver.
// opt.w overrides the weights, opt.cfg selects a flavour of configuration.

var chainNicks = []string{"alice", "Alice", " alice ", "ALICE", "bob-1", "Bob-1", "carol", "carol  ", "dave.x", "eve", "Eve ", "mallory", "ab", "ARTR-77", "artr-xx", "a b c", "nick/x", "  x  ", "Жук", " жук", "dave", "dave.x ", "   "}

var chainWeights = map[string]int{
	"block": 20, "send": 6, "burn": 1, "delegate": 5, "revoke": 3, "xrevoke": 2, "earn": 2, "on": 4, "off": 1, "unjail": 2,
	"upd": 3, "create": 2, "stocur": 1, "vpncur": 1, "tariff": 4, "buysto": 2, "givesto": 1, "buyvpn": 2, "buyim": 2, "giveim": 1,
	"prolongim": 1, "rate": 1, "treq": 2, "tres": 2, "propose": 2, "vote": 5, "poll": 1, "answer": 3, "multi": 1, "badsig": 1,
	"restart": 0, "reimport": 0, "poor": 0,
}

func (c *chainRun) weights() map[string]int {
	w := map[string]int{}
	for k, v := range chainWeights {
		w[k] = v
	}
	if m, ok := c.opt["w"].(J); ok {
		if boolean(c.opt["only"]) {
			for k := range w {
				w[k] = 0
			}
		}
		for k, v := range m {
			w[k] = int(num(v))
		}
	}
	return w
}

func amount(r *Rng, lo, hi int) string {
	// a number with a random number of digits between lo and hi
	d := lo + r.Intn(hi-lo+1)
	s := fmt.Sprint(1 + r.Intn(9))
	for i := 1; i < d; i++ {
		switch r.Intn(3) {
		case 0:
			s += "0"
		default:
			s += fmt.Sprint(r.Intn(10))
		}
	}
	return s
}

func (c *chainRun) Config(r *Rng, run int) J {
	flavour := str(c.opt["cfg"])
	n := 8 + r.Intn(6)
	if v := num(c.opt["n"]); v > 0 {
		n = int(v)
	}
	if flavour == "move" {
		n += 3
	}
	spine := 0
	if flavour == "deep" {
		n += 8
		spine = n - 1 - r.Intn(4)
	}
	accs := []J{}
	bushy := r.chance(1, 2)
	chain := !bushy && r.chance(1, 3)
	for i := 0; i < n; i++ {
		a := J{"parent": -1, "main": "0"}
		if i > 0 && !r.chance(1, 12) {
			switch {
			case chain:
				a["parent"] = i - 1
			case bushy:
				a["parent"] = (i - 1) / (2 + r.Intn(2))
			default:
				a["parent"] = r.Intn(i)
			}
		}
		switch r.Intn(6) {
		case 0:
			a["main"] = "0"
		case 1:
			a["main"] = amount(r, 4, 8)
		default:
			a["main"] = amount(r, 11, 13)
		}
		if flavour == "rich" || flavour == "ref" && !r.chance(1, 8) {
			a["main"] = amount(r, 12, 13)
		}
		pact := 3
		if flavour == "ref" {
			pact = 6
		}
		if r.chance(pact, pact+1) {
			a["active_until"] = []int64{3600, 86400, 10 * 86400, 30 * 86400, 60 * 86400, 400 * 86400}[r.Intn(6)] + int64(r.Intn(3))
		}
		if i < 3 && r.chance(1, 2) {
			a["nick"] = []string{"gen-a", "gen-b", "Gen-C"}[i]
		}
		if flavour == "top" {
			a["main"] = amount(r, 10, 13)
			if r.chance(3, 4) {
				a["deleg"] = amount(r, 9, 12)
			}
			if r.chance(2, 3) {
				a["status"] = []int{2, 3, 4, 5, 6, 7, 9}[r.Intn(7)]
				a["status_end"] = []int64{3600, 2 * 86400, 20 * 86400, 60 * 86400}[r.Intn(4)] + int64(r.Intn(3))
			}
		}
		if flavour == "move" {
			a["parent"] = (i - 1) / (2 + r.Intn(2))
			if i == 0 {
				a["parent"] = -1
			}
			a["main"] = amount(r, 9, 12)
			a["active_until"] = []int64{30 * 86400, 60 * 86400, 400 * 86400}[r.Intn(3)] + int64(r.Intn(3))
			a["deleg"] = amount(r, 9, 10)
			if r.chance(1, 6) {
				delete(a, "active_until")
			}
		}
		if flavour == "deep" {
			// teams deeper than any level that counts
			a["parent"] = i - 1
			if i >= spine {
				a["parent"] = r.Intn(spine)
			}
			a["main"] = amount(r, 10, 13)
			if r.chance(3, 4) {
				a["deleg"] = amount(r, 9, 11)
			}
			if i == 0 || i < 4 && r.chance(2, 3) || r.chance(1, 4) {
				a["status"] = 3 + r.Intn(5)
				if i < 4 {
					a["status"] = 9
				}
				a["status_end"] = []int64{2 * 86400, 20 * 86400, 60 * 86400, 400 * 86400}[r.Intn(4)] + int64(r.Intn(3))
				a["active_until"] = a["status_end"]
			}
			if a["status"] != nil {
			} else if r.chance(1, 2) {
				delete(a, "active_until")
			} else if r.chance(1, 2) {
				a["active_until"] = []int64{10 * 86400, 30 * 86400, 400 * 86400}[r.Intn(3)] + int64(r.Intn(3))
			}
		}
		if flavour == "nod" {
			a["main"] = amount(r, 9, 12)
			if r.chance(5, 6) {
				a["deleg"] = amount(r, 8, 11)
			}
			if r.chance(1, 2) {
				a["status"], a["status_end"] = 2+r.Intn(3), []int64{3600, 2 * 86400, 20 * 86400, 400 * 86400}[r.Intn(4)]+int64(r.Intn(3))
			}
			if r.chance(4, 5) {
				a["active_until"] = []int64{10 * 86400, 60 * 86400, 400 * 86400}[r.Intn(3)] + int64(r.Intn(3))
			}
		}
		accs = append(accs, a)
	}
	gen := J{"accs": accs, "extra": 4}
	day := int64(86400)
	if r.chance(1, 6) {
		day = []int64{600, 3600}[r.Intn(2)]
	}
	if v := num(c.opt["day"]); v > 0 {
		day = v
	}
	gen["day_sec"] = day
	fracs := []string{"3/1000", "0/1", "1/10", "1/3", "5/100", "999/1000", "1/1000", "3%"}
	split := [][2]string{{"1", "0"}, {"1/2", "1/4"}, {"0", "1"}, {"1/3", "1/3"}, {"30%", "20%"}, {"0", "0"}, {"2/6", "1/4"}, {"7/10", "3/10"}, {"1/10", "1/15"}}[r.Intn(9)]
	bank := J{
		"min_send": r.pick("1", "1000", "1000000"), "dust_delegation": r.pick("0", "0", "1000000", "2000000000"),
		"transaction_fee": fracs[r.Intn(len(fracs))], "max_transaction_fee": r.pick("10000000", "0", "1000", "999999", "1"),
		"transaction_fee_split_ratios": J{"for_proposer": split[0], "for_company": split[1]},
	}
	if r.chance(1, 4) {
		bank["company_account"] = "@" + accName(r.Intn(n))
	}
	if r.chance(1, 4) {
		bank["blocked_senders"] = []string{"@" + accName(1+r.Intn(n-1))}
	}
	gen["bank"] = bank
	if r.chance(1, 2) {
		gen["delegating"] = J{
			"min_delegate": r.pick("1", "1000", "1000000"),
			"revoke":       J{"period": 1 + r.Intn(14), "burn": r.pick("5%", "0%", "1/3", "7/1000")}, "express_revoke": J{"period": 1 + r.Intn(7), "burn": r.pick("10%", "1/7", "50%")},
			"accrue_percentage_table": []J{
				{"start": "0", "percent_list": []string{r.pick("21%", "1/7", "365%"), "1%", "2%", "3%", r.pick("0%", "4%")}},
				{"start": "1000000", "percent_list": []string{"22%", "2%", "1/30", "0%", "5%"}},
				{"start": "10000000000", "percent_list": []string{"27%", "3%", "1%", "7/100", "0%"}},
			}}
	}
	gov := []int{0}
	for i := 1; i < n && len(gov) < 6; i++ {
		if r.chance(1, 2) {
			gov = append(gov, i)
		}
	}
	if flavour == "nod" {
		gov = []int{0, 1}[:1+r.Intn(2)]
		bank["max_transaction_fee"], bank["transaction_fee"] = "1000", "1/1000"
	}
	gen["gov"] = gov
	gen["voting"] = J{"voting_period": 1 + r.Intn(30), "poll_period": 1 + r.Intn(30)}
	someone := func() []string {
		l := []string{"@a0"}
		for i := 1; i < n; i++ {
			if r.chance(1, 5) {
				l = append(l, "@"+accName(i))
			}
		}
		return l
	}
	gen["earning"] = J{"signers": someone()}
	gen["profile"] = J{
		"creators": someone(), "storage_signers": someone(), "token_rate_signers": someone(), "vpn_signers": someone(),
		"rename_price": r.pick("1000000", "0", "12345"), "storage_gb_price": 1 + r.Intn(20), "vpn_gb_price": 1 + r.Intn(20),
		"subscription_price": []int{1990, 1, 777}[r.Intn(3)], "token_rate": r.pick("100000", "1/3", "3333/10", "1"),
		"base_storage_gb": 1 + r.Intn(8), "base_vpn_gb": 1 + r.Intn(8),
	}
	stk := [][2]string{{"0", "0"}, {"0", "1000000000"}, {"1000000", "1000000"}, {"1000000000", "5000000000"}, {"10000000000", "50000000000"}}[r.Intn(5)]
	crit := J{"status": []string{"STATUS_LUCKY", "STATUS_LEADER"}[r.Intn(2)], "self_stake": stk[0], "total_stake": stk[1]}
	if r.chance(2, 3) {
		crit["status"] = "STATUS_LUCKY"
	}
	gen["noding"] = J{"jail_after": 1 + r.Intn(3), "unjail_after": 1 + r.Intn(6), "max_validators": 1 + r.Intn(6), "lottery_validators": r.Intn(4),
		"min_criteria": crit,
		"voting_power": J{"slices": []J{{"part": "15%", "voting_power": 15}, {"part": "35%", "voting_power": 12}, {"part": "50%", "voting_power": 10}}, "luckies_voting_power": 7}}
	if flavour == "nod" {
		crit["status"] = []string{"STATUS_LUCKY", "STATUS_LUCKY", "STATUS_LEADER"}[r.Intn(3)]
		crit["self_stake"] = r.pick("0", "0", "1", "100000000", "1000000000")
		crit["total_stake"] = r.pick("1000000000", "1000000000", "10000000000", "50000000000")
		nod := gen["noding"].(J)
		nod["jail_after"] = 1 + r.Intn(4)
		nod["max_validators"] = 1 + r.Intn(5)
		nod["voting_power"] = J{"slices": [][]J{
			{{"part": "15%", "voting_power": 15}, {"part": "35%", "voting_power": 12}, {"part": "50%", "voting_power": 10}},
			{{"part": "1/1", "voting_power": 4}},
			{{"part": "1/100", "voting_power": 9}, {"part": "1/50", "voting_power": 8}, {"part": "97/100", "voting_power": 8}},
			{{"part": "1/3", "voting_power": 1}, {"part": "1/3", "voting_power": 2}, {"part": "1/3", "voting_power": 3}},
		}[r.Intn(4)], "luckies_voting_power": 1 + r.Intn(9)}
	}
	if flavour == "nod" && r.chance(1, 2) {
		// people who had been validators before, or are staff
		past := []J{}
		for i := 0; i < n; i++ {
			if r.chance(1, 4) {
				past = append(past, J{"account": "@" + accName(i), "staff": r.chance(2, 3), "strokes": r.Intn(5), "jail_count": r.Intn(4), "proposed_count": r.Intn(30), "ok_blocks_in_row": r.Intn(9)})
			}
		}
		gen["noding"].(J)["non_active"] = past
	}
	if flavour == "top" || flavour == "deep" {
		crit["status"], crit["self_stake"], crit["total_stake"] = "STATUS_LUCKY", "0", "0"
		if flavour == "deep" {
			gen["noding"].(J)["jail_after"], gen["noding"].(J)["max_validators"] = 10, 10
		}
		if !r.chance(1, 4) {
			bank["dust_delegation"] = "0"
		}
	}
	gen["referral"] = J{"company_accounts": J{"for_subscription": "@co_sub"}, "transition_price": r.pick("10000000", "0", "999")}
	if p, ok := c.opt["gen"].(J); ok {
		for k, v := range p {
			if o, ok := gen[k].(J); ok {
				gen[k] = merge(o, v.(J))
			} else {
				gen[k] = v
			}
		}
	}
	return J{"gen": gen}
}

func (c *chainRun) anyAcc(r *Rng) string {
	if r.chance(1, 25) {
		return r.pick("co_sub", "co_fee")
	}
	return c.w.accs[r.Intn(len(c.w.accs))].name
}
func (c *chainRun) realAcc(r *Rng) string {
	for i := 0; i < 20; i++ {
		n := c.w.accs[r.Intn(len(c.w.accs))].name
		if c.w.app.accountKeeper.GetAccount(c.w.ctx(), c.w.addrs[n]) != nil {
			return n
		}
	}
	return "a0"
}

// near returns an amount close to a balance or a parameter or a random one.
func (c *chainRun) near(r *Rng, acc, denom string) string {
	b := c.w.app.bankKeeper.GetBalance(c.w.ctx(), c.w.addrs[acc]).AmountOf(denom)
	p := c.w.app.bankKeeper.GetParams(c.w.ctx())
	pos := func(x sdk.Int) string {
		if !x.IsPositive() {
			return "1"
		}
		return x.String()
	}
	switch r.Intn(10) {
	case 0:
		return pos(b)
	case 1:
		return pos(b.AddRaw(int64(r.Intn(3) - 1)))
	case 2:
		return pos(sdk.NewInt(p.MinSend).AddRaw(int64(r.Intn(3) - 1)))
	case 3:
		return pos(b.QuoRaw(2))
	case 4:
		return pos(b.MulRaw(9).QuoRaw(10))
	case 5:
		return pos(b.QuoRaw(int64(3 + r.Intn(50))))
	case 6:
		return amount(r, 1, 6)
	case 7:
		return amount(r, 6, 10)
	default:
		if b.IsPositive() {
			return pos(b.MulRaw(int64(1 + r.Intn(997))).QuoRaw(1000))
		}
		return amount(r, 3, 8)
	}
}

// aim returns the amount to delegate or to revoke that takes a delegation (or the stake of a validator above) exactly to
// a threshold that some rule names, or next to it; "" if there is none.
func (c *chainRun) aim(r *Rng, acc string, revoke bool) string {
	ctx := c.w.ctx()
	bal := c.w.app.bankKeeper.GetBalance(ctx, c.w.addrs[acc])
	have := bal.AmountOf(util.ConfigDelegatedDenom)
	bp := c.w.app.bankKeeper.GetParams(ctx)
	np := c.w.app.nodingKeeper.GetParams(ctx)
	goals := []sdk.Int{sdk.NewInt(bp.DustDelegation), sdk.NewInt(bp.DustDelegation), sdk.NewIntFromUint64(np.MinCriteria.SelfStake)}
	for _, x := range c.w.app.delegatingKeeper.GetParams(ctx).AccruePercentageTable {
		goals = append(goals, sdk.NewIntFromUint64(x.Start))
	}
	// the team stake of this account and of those above
	for i, a := 0, acc; i < 11 && a != ""; i++ {
		info, err := c.w.app.referralKeeper.Get(ctx, c.w.addrs[a].String())
		if err != nil {
			break
		}
		if st, err := c.w.app.referralKeeper.GetDelegatedInNetwork(ctx, c.w.addrs[a].String(), 10); err == nil {
			goals = append(goals, have.Add(sdk.NewIntFromUint64(np.MinCriteria.TotalStake)).Sub(st))
		}
		a = ""
		if info.Referrer != "" {
			a = c.w.names[info.Referrer]
		}
	}
	var amts []sdk.Int
	for _, g := range goals {
		g = g.AddRaw(int64([]int{0, 0, 0, 1, -1}[r.Intn(5)]))
		if revoke {
			if x := have.Sub(g); x.IsPositive() && x.LTE(have) {
				amts = append(amts, x)
			}
			continue
		}
		need := g.Sub(have)
		if !need.IsPositive() {
			continue
		}
		x := need
		for i := 0; i < 12; i++ {
			x = need.Add(util.CalculateFee(x, bp.TransactionFee, bp.MaxTransactionFee, bp.TransactionFeeSplitRatios.ForProposer, bp.TransactionFeeSplitRatios.ForCompany))
		}
		if x.LTE(bal.AmountOf(util.ConfigMainDenom)) {
			amts = append(amts, x)
		}
	}
	if len(amts) == 0 {
		return ""
	}
	return amts[r.Intn(len(amts))].String()
}

func (c *chainRun) Next(r *Rng, step int) J {
	if c.dead {
		return nil
	}
	w := c.weights()
	keys := []string{}
	tot := 0
	for k := range w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		tot += w[k]
	}
	x := r.Intn(tot)
	pick := ""
	for _, k := range keys {
		if x < w[k] {
			pick = k
			break
		}
		x -= w[k]
	}
	switch pick {
	case "block", "restart", "reimport":
		return c.genBlock(r, pick)
	case "multi":
		var by string
		ms := []interface{}{}
		for i := 0; i < 2+r.Intn(2); i++ {
			k := c.pickMsg(r, w, keys)
			op := c.genMsg(r, k)
			if op == nil {
				continue
			}
			if by == "" {
				by = str(op["by"])
			} else if str(op["by"]) != by && r.chance(4, 5) {
				i--
				if r.chance(1, 20) {
					break
				}
				continue
			}
			m := op["msgs"].([]interface{})[0].(J)
			if str(op["by"]) != by {
				m["by"] = op["by"]
			}
			ms = append(ms, m)
		}
		if by == "" || len(ms) == 0 {
			return c.genBlock(r, "block")
		}
		return J{"op": "tx", "by": by, "fee": c.genFee(r), "msgs": ms}
	case "ask":
		return c.genAsk(r)
	case "swap":
		// a validator (or somebody who becomes one) leaves, returns with another key, perhaps leaves again, all in one block
		op := c.genMsg(r, r.pick("on", "on", "off"))
		if op == nil {
			return c.genBlock(r, "block")
		}
		ms := op["msgs"].([]interface{})
		inf, err := c.w.app.nodingKeeper.Get(c.w.ctx(), c.w.addrs[str(op["by"])])
		on := err == nil && inf.Status
		if ms[0].(J)["m"] == "on" && on {
			ms = append([]interface{}{J{"m": "off"}}, ms...)
		}
		on = ms[len(ms)-1].(J)["m"] == "on"
		for i := r.Intn(3); i > 0 || len(ms) < 2; i-- {
			if on {
				ms = append(ms, J{"m": "off"})
			} else {
				ms = append(ms, J{"m": "on", "key": fmt.Sprintf("k%d", r.Intn(nKeys))})
			}
			on = !on
		}
		op["msgs"] = ms
		return op
	case "poor":
		// somebody gets rid of almost all of what the next automatic payment will take
		ctx := c.w.ctx()
		pp := c.w.app.profileKeeper.GetParams(ctx)
		for i := 0; i < 20; i++ {
			n := c.realAcc(r)
			p := c.w.app.profileKeeper.GetProfile(ctx, c.w.addrs[n])
			if p == nil || !(p.AutoPay && p.IsActive(ctx)) && !(p.AutoPayImExtra && p.IsExtraImStorageActive(ctx)) {
				continue
			}
			extra := int64(p.StorageLimit/util.GBSize) - int64(pp.BaseStorageGb)
			cost := pp.TokenRate.MulInt64(int64(pp.SubscriptionPrice)).Int64() + pp.TokenRate.MulInt64(extra*int64(pp.StorageGbPrice)).Int64()
			if p.AutoPayImExtra && p.IsExtraImStorageActive(ctx) && !(p.AutoPay && r.chance(1, 2)) {
				cost = pp.TokenRate.MulInt64(int64(p.ImLimitExtra) * int64(pp.StorageGbPrice)).Int64()
			}
			keep := sdk.NewInt([]int64{cost, cost, cost - 1, cost - 1, cost + 1, cost - cost/1000, cost / 2, cost / 10, 2 * cost}[r.Intn(9)])
			have := c.w.app.bankKeeper.GetBalance(ctx, c.w.addrs[n]).AmountOf(util.ConfigMainDenom)
			if keep.IsNegative() || !have.GT(keep) {
				continue
			}
			return J{"op": "tx", "by": n, "fee": 0, "msgs": []interface{}{J{"m": "burn", "amt": have.Sub(keep).String()}}}
		}
		return c.genBlock(r, "block")
	case "badsig":
		op := c.genMsg(r, c.pickMsg(r, w, keys))
		if op == nil {
			return c.genBlock(r, "block")
		}
		op["sig"] = c.realAcc(r)
		return op
	case "check", "sim":
		op := c.genMsg(r, c.pickMsg(r, w, keys))
		if op == nil {
			return c.genBlock(r, "block")
		}
		op["mode"] = pick
		return op
	case "lowgas":
		op := c.genMsg(r, c.pickMsg(r, w, keys))
		if op == nil {
			return c.genBlock(r, "block")
		}
		op["gas"] = 20000 + r.Intn(300000)
		return op
	}
	op := c.genMsg(r, pick)
	if op == nil {
		return c.genBlock(r, "block")
	}
	return op
}

var notMsgs = map[string]bool{"block": true, "restart": true, "reimport": true, "multi": true, "badsig": true, "check": true, "sim": true, "lowgas": true, "poor": true, "swap": true, "ask": true}

func (c *chainRun) pickMsg(r *Rng, w map[string]int, keys []string) string {
	tot := 0
	for _, k := range keys {
		if !notMsgs[k] {
			tot += w[k]
		}
	}
	x := r.Intn(tot)
	for _, k := range keys {
		if notMsgs[k] {
			continue
		}
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	return "send"
}

func (c *chainRun) genFee(r *Rng) int64 {
	if r.chance(1, 4) {
		return []int64{1, 500, 12345, 1000000, 999999999}[r.Intn(5)]
	}
	return 0
}

func (c *chainRun) genBlock(r *Rng, kind string) J {
	day := c.day()
	dts := []int64{1, 5, 5, 60, day / 24, day / 2, day, day + 7, 3 * day, 10 * day, 31 * day}
	if l, ok := c.opt["dts"].([]interface{}); ok {
		dts = nil
		for _, x := range l {
			dts = append(dts, num(x)*day/100)
		}
		if r.chance(1, 6) {
			dts = []int64{1, 5}
		}
	}
	dt := dts[r.Intn(len(dts))]
	// sometimes hit a scheduled task's time exactly, or just miss it
	if r.chance(1, 3) {
		ts := c.pTasks(c.w.ctx())
		if len(ts) > 0 {
			t := num(ts[r.Intn(1+r.Intn(len(ts)))]["t"]) - c.w.sec(c.w.now) + int64(r.Intn(3)-1)
			if t > 0 && t <= 40*day {
				dt = t
			}
		}
	}
	if dt < 1 {
		dt = 1
	}
	op := J{"op": kind, "dt": dt}
	miss := []string{}
	ev := []string{}
	// the set that votes in the next block's commit info is the current one
	ks := []string{}
	for k := range c.vals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if r.chance(1, 4) {
			miss = append(miss, k)
		}
		evOneIn := 40
		if v := num(c.opt["evrate"]); v > 0 {
			evOneIn = int(v)
		}
		if r.chance(1, evOneIn) {
			ev = append(ev, k)
		}
	}
	if r.chance(1, 60) {
		ev = append(ev, fmt.Sprintf("k%d", r.Intn(nKeys)))
	}
	op["miss"], op["ev"] = miss, ev
	op["prop"] = ""
	if len(ks) > 0 && !r.chance(1, 10) {
		op["prop"] = ks[r.Intn(len(ks))]
	} else if r.chance(1, 8) {
		op["prop"] = fmt.Sprintf("k%d", r.Intn(nKeys))
	}
	return op
}

var addrProps = []string{"GOVERNMENT_ADD", "GOVERNMENT_REMOVE", "FREE_CREATOR_ADD", "FREE_CREATOR_REMOVE", "STAFF_VALIDATOR_ADD", "STAFF_VALIDATOR_REMOVE",
	"EARNING_SIGNER_ADD", "EARNING_SIGNER_REMOVE", "TOKEN_RATE_SIGNER_ADD", "TOKEN_RATE_SIGNER_REMOVE", "VPN_SIGNER_ADD", "VPN_SIGNER_REMOVE",
	"STORAGE_SIGNER_ADD", "STORAGE_SIGNER_REMOVE", "BLOCKED_SENDER_ADD", "BLOCKED_SENDER_REMOVE"}

var paramProps = []string{"ENTER_PRICE", "PRODUCT_VPN_BASE_PRICE", "PRODUCT_STORAGE_BASE_PRICE", "TRANSITION_PRICE", "MIN_SEND", "MIN_DELEGATE", "MAX_VALIDATORS",
	"LUCKY_VALIDATORS", "GENERAL_AMNESTY", "VALIDATOR_MINIMAL_CRITERIA", "JAIL_AFTER", "DUST_DELEGATION", "VOTING_POWER", "TRANSACTION_FEE",
	"MAX_TRANSACTION_FEE", "TRANSACTION_FEE_SPLIT_RATIOS", "ACCRUE_PERCENTAGE_TABLE", "REVOKE", "EXPRESS_REVOKE", "SOFTWARE_UPGRADE", "CANCEL_SOFTWARE_UPGRADE"}

func (c *chainRun) genProposal(r *Rng) J {
	m := J{"m": "propose", "name": fmt.Sprintf("p%d", r.Intn(1000))}
	var t string
	if l, ok := c.opt["props"].([]interface{}); ok && r.chance(3, 4) {
		t = str(l[r.Intn(len(l))])
	} else if r.chance(1, 2) {
		t = addrProps[r.Intn(len(addrProps))]
	} else {
		t = paramProps[r.Intn(len(paramProps))]
	}
	m["type"] = t
	for _, x := range addrProps {
		if x == t {
			m["kind"], m["v"] = "addr", c.realAcc(r)
			if (t == "GOVERNMENT_REMOVE" || t == "GOVERNMENT_ADD") && r.chance(2, 3) {
				g := c.nms(c.w.app.votingKeeper.GetGovernment(c.w.ctx()).Members)
				if len(g) > 0 && t == "GOVERNMENT_REMOVE" {
					m["v"] = g[r.Intn(len(g))]
				}
			}
			if strings.HasSuffix(t, "_REMOVE") && r.chance(1, 2) {
				// somebody who is on the list
				if g := c.listed(t); len(g) > 0 {
					m["v"] = g[r.Intn(len(g))]
				}
			}
			return m
		}
	}
	switch t {
	case "ENTER_PRICE", "PRODUCT_VPN_BASE_PRICE", "PRODUCT_STORAGE_BASE_PRICE", "TRANSITION_PRICE":
		m["kind"], m["v"] = "price", 1+r.Intn(3000)
	case "MIN_SEND", "MIN_DELEGATE", "DUST_DELEGATION", "MAX_TRANSACTION_FEE":
		m["kind"], m["v"] = "min", int64(r.Intn(5))*int64(r.Intn(100000)+1)
	case "MAX_VALIDATORS", "LUCKY_VALIDATORS":
		m["kind"], m["v"] = "count", 1+r.Intn(5)
	case "JAIL_AFTER":
		m["kind"], m["v"] = "count", r.Intn(4)
	case "VALIDATOR_MINIMAL_CRITERIA":
		m["kind"], m["v"] = "crit", J{"status": 1 + r.Intn(2), "self": r.pick("0", "1000000", "100000000000"), "total": r.pick("0", "3000000000")}
	case "TRANSACTION_FEE":
		m["kind"], m["v"] = "portion", [][]int64{{3, 1000}, {1, 10}, {0, 1}, {1, 1}, {-1, 10}, {1, 7}}[r.Intn(6)]
	case "TRANSACTION_FEE_SPLIT_RATIOS":
		m["kind"], m["v"] = "portions", [][][]int64{{{1, 2}, {1, 4}}, {{1, 1}, {0, 1}}, {{1, 3}, {1, 6}}, {{2, 3}, {1, 2}}, {{0, 1}, {0, 1}}}[r.Intn(5)]
	case "REVOKE", "EXPRESS_REVOKE":
		m["kind"], m["v"] = "revoke", J{"period": 1 + r.Intn(10), "burn": [][]int64{{1, 20}, {0, 1}, {1, 3}}[r.Intn(3)]}
	case "VOTING_POWER":
		m["kind"], m["v"] = "vp", J{"lucky": 1 + r.Intn(9), "slices": []J{{"part": []int64{1, 4}, "vp": 20}, {"part": []int64{3, 4}, "vp": 11}}}
	case "ACCRUE_PERCENTAGE_TABLE":
		m["kind"], m["v"] = "table", []J{{"start": "0", "pc": [][]int64{{20, 100}, {1, 100}, {2, 100}, {3, 100}, {4, 100}}}, {"start": amount(r, 6, 10), "pc": [][]int64{{1, 4}, {0, 1}, {1, 100}, {0, 1}, {0, 1}}}}
	case "SOFTWARE_UPGRADE":
		m["kind"], m["v"] = "upgrade", c.w.sec(c.w.now)+100000000
	default:
		m["kind"] = "none"
	}
	return m
}

// listed says who is on the list the proposal is about
func (c *chainRun) listed(t string) []string {
	ctx := c.w.ctx()
	pp := c.w.app.profileKeeper.GetParams(ctx)
	var l []string
	switch strings.TrimSuffix(strings.TrimSuffix(t, "_REMOVE"), "_ADD") {
	case "FREE_CREATOR":
		l = pp.Creators
	case "TOKEN_RATE_SIGNER":
		l = pp.TokenRateSigners
	case "VPN_SIGNER":
		l = pp.VpnSigners
	case "STORAGE_SIGNER":
		l = pp.StorageSigners
	case "EARNING_SIGNER":
		l = c.w.app.earningKeeper.GetParams(ctx).Signers
	case "BLOCKED_SENDER":
		l = c.w.app.bankKeeper.GetParams(ctx).BlockedSenders
	case "GOVERNMENT":
		l = c.w.app.votingKeeper.GetGovernment(ctx).Members
	case "STAFF_VALIDATOR":
		for _, a := range c.w.accs {
			if inf, err := c.w.app.nodingKeeper.Get(ctx, a.addr); err == nil && inf.Staff {
				l = append(l, a.addr.String())
			}
		}
	}
	return c.nms(l)
}

func (c *chainRun) genMsg(r *Rng, k string) J {
	by := c.realAcc(r)
	ctx := c.w.ctx()
	m := J{"m": k}
	tx := func() J { return J{"op": "tx", "by": by, "fee": c.genFee(r), "msgs": []interface{}{m}} }
	oneOf := func(l []string) {
		if len(l) > 0 && r.chance(4, 5) {
			n := c.w.nm(l[r.Intn(len(l))])
			if _, ok := c.w.addrs[n]; ok && n != "none" {
				by = n
			}
		}
	}
	pp := c.w.app.profileKeeper.GetParams(ctx)
	switch k {
	case "send":
		m["to"] = c.anyAcc(r)
		if r.chance(1, 40) {
			m["to"] = r.pick("m_fee", "m_split")
		}
		coins := []interface{}{}
		if r.chance(1, 12) {
			d := r.pick(util.ConfigDelegatedDenom, util.ConfigRevokingDenom)
			coins = append(coins, []interface{}{d, c.near(r, by, d)})
			if r.chance(1, 2) {
				coins = append([]interface{}{[]interface{}{util.ConfigMainDenom, c.near(r, by, util.ConfigMainDenom)}}, coins...)
			}
		} else {
			coins = append(coins, []interface{}{util.ConfigMainDenom, c.near(r, by, util.ConfigMainDenom)})
		}
		m["coins"] = coins
		if p := c.w.app.bankKeeper.GetParams(ctx); len(p.BlockedSenders) > 0 && r.chance(1, 6) {
			oneOf(p.BlockedSenders)
		}
	case "burn":
		m["amt"] = c.near(r, by, util.ConfigMainDenom)
	case "delegate":
		m["amt"] = c.near(r, by, util.ConfigMainDenom)
		if r.chance(1, 3) {
			if x := c.aim(r, by, false); x != "" {
				m["amt"] = x
			}
		}
	case "revoke", "xrevoke":
		for i := 0; i < 10; i++ {
			if c.w.app.bankKeeper.GetBalance(ctx, c.w.addrs[by]).AmountOf(util.ConfigDelegatedDenom).IsPositive() {
				break
			}
			by = c.realAcc(r)
		}
		m["amt"] = c.near(r, by, util.ConfigDelegatedDenom)
		if r.chance(1, 3) {
			if x := c.aim(r, by, true); x != "" {
				m["amt"] = x
			}
		}
	case "earn":
		oneOf(c.w.app.earningKeeper.GetParams(ctx).Signers)
		n := 1
		m["multi"] = r.chance(1, 2)
		if boolean(m["multi"]) {
			n = 1 + r.Intn(4)
		}
		l := []interface{}{}
		now := c.w.sec(c.w.now)
		day := c.day()
		for i := 0; i < n; i++ {
			e := J{"acc": c.realAcc(r)}
			ts := func() interface{} {
				if r.chance(1, 4) {
					return nil
				}
				return now + []int64{0, -1, 1, -day, -2 * day, -2*day + 1, -2*day - 1, day, -10 * day, 2 * day}[r.Intn(10)]
			}
			if v := ts(); v != nil && num(v) >= 0 {
				e["vpn"] = v
			}
			if v := ts(); v != nil && num(v) >= 0 {
				e["sto"] = v
			}
			l = append(l, e)
		}
		m["list"] = l
	case "on":
		m["key"] = fmt.Sprintf("k%d", r.Intn(nKeys))
		if r.chance(1, 2) {
			// an account tends to use its own key
			var i int
			fmt.Sscanf(by, "a%d", &i)
			m["key"] = fmt.Sprintf("k%d", i%nKeys)
		}
		if r.chance(2, 3) {
			// mostly somebody who may
			vs := []string{}
			for _, a := range c.w.accs {
				inf, err := c.w.app.nodingKeeper.Get(ctx, a.addr)
				if q, _, e := c.isQual(ctx, a.addr); e == nil && q && (err != nil || !inf.Status) {
					vs = append(vs, a.addr.String())
				}
			}
			if deep := str(c.opt["cfg"]) == "deep"; deep && len(vs) > 1 && r.chance(2, 3) {
				vs = vs[:1]
			}
			oneOf(vs)
		}
	case "off", "unjail":
		vs := []string{}
		for _, a := range c.w.accs {
			inf, err := c.w.app.nodingKeeper.Get(ctx, a.addr)
			if err == nil && (k == "off" && inf.Status || k == "unjail" && inf.Jailed) {
				vs = append(vs, a.addr.String())
			}
		}
		if len(vs) == 0 && r.chance(9, 10) {
			return nil
		}
		oneOf(vs)
	case "upd":
		us := []interface{}{}
		for i := 0; i < 1+r.Intn(3); i++ {
			f := r.pick("NICKNAME", "NICKNAME", "AUTO_PAY", "AUTO_PAY", "NODING", "STORAGE", "VALIDATOR", "VPN", "IM_AUTO_PAY", "IM_AUTO_PAY")
			if f == "NICKNAME" {
				v := chainNicks[r.Intn(len(chainNicks))]
				if r.chance(1, 5) {
					v = ""
				}
				us = append(us, J{"f": f, "v": v})
			} else {
				us = append(us, J{"f": f, "v": r.chance(2, 3)})
			}
		}
		m["upd"] = us
	case "create":
		oneOf(pp.Creators)
		if r.chance(1, 2) {
			by = c.realAcc(r)
		}
		m["addr"] = c.anyAcc(r)
		for i := 0; i < 8 && c.w.app.accountKeeper.GetAccount(ctx, c.w.addrs[str(m["addr"])]) != nil && r.chance(4, 5); i++ {
			m["addr"] = c.w.accs[len(c.w.accs)-1-r.Intn(4)].name
		}
		m["ref"] = c.anyAcc(r)
		if r.chance(1, 2) {
			p := J{"nick": chainNicks[r.Intn(len(chainNicks))], "autopay": r.chance(1, 2), "autoim": r.chance(1, 2), "vpn": r.chance(1, 2), "noding": r.chance(1, 2)}
			if r.chance(1, 3) {
				p["nick"] = ""
			}
			if r.chance(1, 3) {
				p["until"] = c.w.sec(c.w.now) + 1000000
				p["vpnlim"] = 12345
				p["card"] = 777
			}
			m["prof"] = p
		}
	case "stocur":
		oneOf(pp.StorageSigners)
		m["addr"], m["v"] = c.realAcc(r), amount(r, 1, 11)
	case "vpncur":
		oneOf(pp.VpnSigners)
		m["addr"], m["v"] = c.realAcc(r), amount(r, 1, 12)
	case "tariff", "buysto", "givesto", "buyvpn", "buyim", "giveim":
		m["gb"] = []int{0, 1, 2, 3, 5, 7, 10, 20, 100}[r.Intn(9)]
		if r.chance(1, 20) {
			m["gb"] = int64(4000000)
			if k == "tariff" {
				m["gb"] = []int64{4000000, 900000000, 1000000000, 1500000000, 4294967295}[r.Intn(5)]
			}
		}
		if k == "tariff" && r.chance(1, 2) {
			m["gb"] = 0
		}
		if k != "tariff" && k != "buyim" {
			// somebody who may
			vs := []string{}
			for _, a := range c.w.accs {
				if p := c.w.app.profileKeeper.GetProfile(ctx, a.addr); p != nil && (k == "giveim" && p.ImLimitExtra > 0 || (k == "buysto" || k == "buyvpn") && p.IsActive(ctx) || k == "givesto" && p.StorageLimit > uint64(pp.BaseStorageGb)*util.GBSize) {
					vs = append(vs, a.addr.String())
				}
			}
			oneOf(vs)
		}
	case "prolongim":
		vs := []string{}
		for _, a := range c.w.accs {
			if p := c.w.app.profileKeeper.GetProfile(ctx, a.addr); p != nil && p.ImLimitExtra > 0 {
				vs = append(vs, a.addr.String())
			}
		}
		oneOf(vs)
	case "rate":
		oneOf(pp.TokenRateSigners)
		m["v"] = [][]int64{{100000, 1}, {1, 3}, {3333, 10}, {7, 1}, {99, 100}}[r.Intn(5)]
	case "treq":
		m["dest"] = c.anyAcc(r)
	case "tres":
		// somebody with a pending request, decided by its referrer
		m["subj"] = c.anyAcc(r)
		m["yes"] = r.chance(3, 4)
		var cand []string
		for _, a := range c.w.accs {
			info, err := c.w.app.referralKeeper.Get(ctx, a.addr.String())
			if err == nil && info.Transition != "" {
				cand = append(cand, a.name)
			}
		}
		if len(cand) > 0 && r.chance(5, 6) {
			m["subj"] = cand[r.Intn(len(cand))]
		} else if r.chance(2, 3) {
			return nil
		}
		if info, err := c.w.app.referralKeeper.Get(ctx, c.a32(str(m["subj"]))); err == nil && info.Referrer != "" {
			oneOf([]string{info.Referrer})
		}
	case "propose", "poll":
		oneOf(c.w.app.votingKeeper.GetGovernment(ctx).Members)
		if k == "propose" {
			if c.w.app.votingKeeper.GetCurrentProposal(ctx) != nil && r.chance(5, 6) {
				return nil
			}
			m = c.genProposal(r)
		} else {
			m["name"] = fmt.Sprintf("q%d", r.Intn(1000))
			m["quorum"] = [][]int64{{}, {1, 2}, {2, 3}, {0, 1}, {1, 1}, {1, 3}}[r.Intn(6)]
			m["req"] = []int{-1, 1, 2, 3, 1}[r.Intn(5)]
		}
	case "vote":
		if c.w.app.votingKeeper.GetCurrentProposal(ctx) == nil && r.chance(9, 10) {
			return nil
		}
		g := c.w.app.votingKeeper.GetGovernment(ctx).Members
		if r.chance(3, 4) {
			voted := map[string]bool{}
			for _, x := range append(append([]string{}, c.w.app.votingKeeper.GetAgreed(ctx).Members...), c.w.app.votingKeeper.GetDisagreed(ctx).Members...) {
				voted[x] = true
			}
			var left []string
			for _, x := range g {
				if !voted[x] {
					left = append(left, x)
				}
			}
			oneOf(left)
		} else {
			oneOf(g)
		}
		m["yes"] = r.chance(4, 5)
	case "answer":
		if _, ok := c.w.app.votingKeeper.GetCurrentPoll(ctx); !ok && r.chance(9, 10) {
			return nil
		}
		m["yes"] = r.chance(2, 3)
	default:
		panic("no generator for " + k)
	}
	return tx()
}
