// +build testing

package app

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	bankT "github.com/arterynetwork/artr/x/bank/types"
	delT "github.com/arterynetwork/artr/x/delegating/types"
	earnT "github.com/arterynetwork/artr/x/earning/types"
	nodT "github.com/arterynetwork/artr/x/noding/types"
	profT "github.com/arterynetwork/artr/x/profile/types"
	refT "github.com/arterynetwork/artr/x/referral/types"
	schT "github.com/arterynetwork/artr/x/schedule/types"
	votT "github.com/arterynetwork/artr/x/voting/types"
)

// Questions put to the application's query services through ABCI, usually in the middle of a block.

type pb interface {
	Marshal() ([]byte, error)
}
type pbu interface {
	Unmarshal([]byte) error
}

func (c *chainRun) query(h int64, path string, req pb, resp pbu) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	bz, err := req.Marshal()
	if err != nil {
		return err
	}
	r := c.w.app.Query(abci.RequestQuery{Path: "/artery." + path, Data: bz, Height: h})
	if r.Code != 0 {
		return fmt.Errorf("%s", r.Log)
	}
	return resp.Unmarshal(r.Value)
}

// legacy asks through the older ("custom") interface; resp nil means the bare answer is wanted.
func (c *chainRun) legacy(h int64, path string, req interface{}, resp interface{}) (bz []byte, err error) {
	if req != nil {
		if bz, err = enc().Amino.MarshalJSON(req); err != nil {
			return nil, err
		}
	}
	r := c.w.app.Query(abci.RequestQuery{Path: "custom/" + path, Data: bz, Height: h})
	if r.Code != 0 {
		return nil, fmt.Errorf("%s", r.Log)
	}
	if resp != nil {
		return nil, enc().Amino.UnmarshalJSON(r.Value, resp)
	}
	return r.Value, nil
}

// answerOld puts the question through the older interface, if it can be put there.
func (c *chainRun) answerOld(h int64, q J) (ans interface{}, err error, ok bool) {
	a := c.a32(str(q["a"]))
	prof := func(addr string, p profT.Profile) J { return J{"who": c.w.nm(addr), "p": c.profJ(p)} }
	switch str(q["q"]) {
	case "ref":
		if boolean(q["light"]) {
			return nil, nil, false
		}
		var r refT.Info
		_, err = c.legacy(h, "referral/info", refT.GetRequest{AccAddress: a}, &r)
		ans = c.refJ(r)
	case "coins":
		var r refT.CoinsResponse
		if _, err = c.legacy(h, "referral/coins", refT.CoinsRequest{AccAddress: a, MaxDepth: uint32(num(q["depth"]))}, &r); err == nil {
			ans = J{"total": bigOf(r.Total), "deleg": bigOf(r.Delegated)}
		}
	case "check":
		var r refT.StatusCheckResult
		_, err = c.legacy(h, "referral/check-status", refT.CheckStatusRequest{AccAddress: a, Status: refT.Status(num(q["st"]))}, &r)
		ans = checkJ(r)
	case "move":
		var r refT.ValidateTransitionResponse
		_, err = c.legacy(h, "referral/validate-transition", refT.ValidateTransitionRequest{Subject: a, Target: c.a32(str(q["to"]))}, &r)
		ans = r.Ok
	case "revoking":
		var r delT.RevokingResponse
		_, err = c.legacy(h, "delegating/revoking", delT.RevokingRequest{AccAddress: a}, &r)
		ans = c.reqsJ(r.Revoking)
	case "node":
		var r nodT.Info
		_, err = c.legacy(h, "noding/info/"+a, nil, &r)
		ans = c.infoJ(r)
	case "state":
		var bz []byte
		if bz, err = c.legacy(h, "noding/state/"+a, nil, nil); err == nil {
			ans = int64(bz[0])
		}
	case "allowed":
		var r nodT.IsAllowedResponse
		_, err = c.legacy(h, "noding/allowed/"+a, nil, &r)
		ans = J{"ok": r.Verdict, "why": int64(r.Reason)}
	case "operator":
		addr := sdk.ConsAddress(consPub(str(q["k"])).Address())
		path := "noding/operator/bech32/" + addr.String()
		if boolean(q["hex"]) {
			path = "noding/operator/hex/" + strings.ToUpper(hex.EncodeToString(addr))
		}
		var bz []byte
		if bz, err = c.legacy(h, path, nil, nil); err == nil {
			ans = c.w.nm(sdk.AccAddress(bz).String())
		}
	case "proposer":
		var bz []byte
		if bz, err = c.legacy(h, fmt.Sprintf("noding/proposer/%d", num(q["n"])), nil, nil); err == nil {
			ans = c.w.nm(sdk.AccAddress(bz).String())
		}
	case "switched":
		var r []sdk.AccAddress
		_, err = c.legacy(h, "noding/switched-on", nil, &r)
		l := []string{}
		for _, x := range r {
			l = append(l, c.w.nm(x.String()))
		}
		ans = l
	case "profile":
		var r profT.GetByAddressResponse
		_, err = c.legacy(h, "profile/get_by_addr", profT.GetByAddressRequest{Address: a}, &r)
		ans = J{"who": str(q["a"]), "p": c.profJ(r.Profile)}
	case "nick":
		var r profT.GetByNicknameResponse
		if _, err = c.legacy(h, "profile/get_by_nick", profT.GetByNicknameRequest{Nickname: str(q["nick"])}, &r); err == nil {
			ans = prof(r.Address, r.Profile)
		}
	case "card":
		var r profT.GetByCardNumberResponse
		n, _ := sdk.NewIntFromString(str(q["card"]))
		if _, err = c.legacy(h, "profile/get_by_card", profT.GetByCardNumberRequest{CardNumber: n.Uint64()}, &r); err == nil {
			ans = prof(r.Address, r.Profile)
		}
	case "gov":
		var r votT.GovernmentResponse
		_, err = c.legacy(h, "voting/government", nil, &r)
		ans = c.nms(r.Members)
	default:
		return nil, nil, false
	}
	return ans, err, true
}

func (c *chainRun) refJ(info refT.Info) J {
	cnt := []uint64{}
	for _, x := range info.ActiveRefCounts {
		if x > 1000000000 {
			x = 999999999 // an underflow; TLC reads 32-bit integers
		}
		cnt = append(cnt, x)
	}
	for len(cnt) < 11 {
		cnt = append(cnt, 0)
	}
	return J{"st": int64(info.Status), "up": c.w.nm(info.Referrer), "kids": c.nms(info.Referrals), "act": info.Active,
		"coins": bigs(info.Coins), "deleg": bigs(info.Delegated), "akids": c.nms(info.ActiveReferrals), "acnt": cnt,
		"down": c.w.secp(info.StatusDowngradeAt), "comp": c.w.secp(info.CompressionAt), "ban": c.w.secp(info.BanishmentAt),
		"tr": c.w.nm(info.Transition), "gone": info.Banished}
}

func (c *chainRun) delJ(rec *delT.Record) J {
	if rec == nil {
		return J{"next": int64(-1), "req": []J{}, "missed": false}
	}
	return J{"next": c.w.secp(rec.NextAccrue), "req": c.reqsJ(rec.Requests), "missed": rec.MissedPart != nil && !rec.MissedPart.IsNullValue() && !rec.MissedPart.IsZero()}
}
func (c *chainRun) reqsJ(l []delT.RevokeRequest) []J {
	reqs := []J{}
	for _, q := range l {
		reqs = append(reqs, J{"t": c.w.sec(q.Time), "a": bigOf(q.Amount)})
	}
	return reqs
}

func (c *chainRun) kn(s string) string {
	if s == "" {
		return "none"
	}
	if n, ok := c.keyN[s]; ok {
		return n
	}
	return "?" + s
}

func (c *chainRun) infoJ(info nodT.Info) J {
	return J{"on": info.Status, "lp": info.LastPower, "pk": c.kn(info.PubKey), "lpk": c.kn(info.LastPubKey), "strokes": info.Strokes,
		"ok": info.OkBlocksInRow, "miss": info.MissedBlocksInRow, "jailed": info.Jailed, "unjail": info.UnjailAt, "prop": info.ProposedCount,
		"jc": info.JailCount, "lot": info.LotteryNo, "score": bigOf(sdk.NewInt(info.Score + 1000000)), "inf": len(info.Infractions),
		"banned": info.BannedForLife, "staff": info.Staff}
}

func (c *chainRun) profJ(p profT.Profile) J {
	return J{"autopay": p.AutoPay, "until": c.w.secp(p.ActiveUntil), "noding": p.Noding, "storage": p.Storage, "validator": p.Validator,
		"vpn": p.Vpn, "nick": p.Nickname, "nkey": strings.ToLower(strings.TrimSpace(p.Nickname)), "card": bigU(p.CardNumber),
		"stolim": bigU(p.StorageLimit), "stocur": bigU(p.StorageCurrent), "vpnlim": bigU(p.VpnLimit), "vpncur": bigU(p.VpnCurrent),
		"imx": bigU(p.ImLimitExtra), "imuntil": c.w.secp(p.ExtraImUntil), "autoim": p.AutoPayImExtra}
}

func (c *chainRun) histJ(l []votT.ProposalHistoryRecord) []J {
	hist := []J{}
	for _, h := range l {
		hh := h
		hist = append(hist, J{"p": c.propJ(&hh.Proposal), "gov": c.nms(h.Government), "agreed": c.nms(h.Agreed), "disagreed": c.nms(h.Disagreed), "started": h.Started, "finished": h.Finished})
	}
	return hist
}
func (c *chainRun) pollsJ(l []votT.PollHistoryItem) []J {
	ph := []J{}
	for _, h := range l {
		ph = append(ph, J{"p": c.pollJ(h.Poll), "yes": h.Yes, "no": h.No, "dec": int64(h.Decision)})
	}
	return ph
}
func (c *chainRun) tasksJ(l []schT.Task) []J {
	res := []J{}
	for _, t := range l {
		res = append(res, J{"t": c.w.sec(t.Time), "h": t.HandlerName, "a": c.taskAcc(t.Data)})
	}
	return res
}
func checkJ(r refT.StatusCheckResult) J {
	cr := []J{}
	for _, x := range r.Criteria {
		cr = append(cr, J{"met": x.Met, "rule": int64(x.Rule), "target": x.TargetValue, "actual": x.ActualValue, "x": x.ParameterX})
	}
	return J{"all": r.Overall, "crit": cr}
}
func (c *chainRun) earnJ(e earnT.Earner) J {
	return J{"who": c.w.nm(e.Account), "vpn": c.w.secp(e.Vpn), "sto": c.w.secp(e.Storage)}
}

// answer puts one question; the answer is in the format of the projections.
func (c *chainRun) answer(q J) (ans interface{}, err error) {
	h := int64(0)
	if back := num(q["back"]); back > 0 {
		h = c.w.app.LastBlockHeight() - back
		if h < 1 {
			return nil, fmt.Errorf("too early")
		}
	}
	acc := func() string { return c.a32(str(q["a"])) }
	if boolean(q["old"]) {
		if ans, err, ok := c.answerOld(h, q); ok {
			return ans, err
		}
	}
	switch str(q["q"]) {
	case "params":
		m := str(q["mod"])
		switch m {
		case "bank":
			var r bankT.ParamsResponse
			err = c.query(h, "bank.v1beta1.Query/Params", &bankT.ParamsRequest{}, &r)
			return c.bankPar(r.Params), err
		case "del":
			var r delT.ParamsResponse
			if err = c.query(h, "delegating.v1beta1.Query/Params", &delT.ParamsRequest{}, &r); err != nil {
				return nil, err
			}
			return c.delPar(*r.Params), err
		case "nod":
			var r nodT.ParamsResponse
			err = c.query(h, "noding.v1beta1.Query/Params", &nodT.ParamsRequest{}, &r)
			return c.nodPar(r.Params), err
		case "prof":
			var r profT.ParamsResponse
			err = c.query(h, "profile.v1beta1.Query/Params", &profT.ParamsRequest{}, &r)
			return c.profPar(r.Params), err
		case "ref":
			var r refT.ParamsResponse
			err = c.query(h, "referral.v1beta1.Query/Params", &refT.ParamsRequest{}, &r)
			return c.refPar(r.Params), err
		case "vot":
			var r votT.ParamsResponse
			err = c.query(h, "voting.v1beta1.Query/Params", &votT.ParamsRequest{}, &r)
			return c.votPar(r.Params), err
		default:
			var r earnT.ParamsResponse
			err = c.query(h, "earning.v1beta1.Query/Params", &earnT.ParamsRequest{}, &r)
			return c.earnPar(r.Params), err
		}
	case "supply":
		var r bankT.SupplyResponse
		err = c.query(h, "bank.v1beta1.Query/Supply", &bankT.SupplyRequest{}, &r)
		return coinsJ(r.Supply.Total), err
	case "balance":
		var r bankT.BalanceResponse
		err = c.query(h, "bank.v1beta1.Query/Balance", &bankT.BalanceRequest{AccAddress: acc()}, &r)
		return coinsJ(sdk.Coins(r.Balance)), err
	case "ref":
		var r refT.GetResponse
		err = c.query(h, "referral.v1beta1.Query/Get", &refT.GetRequest{AccAddress: acc(), Light: boolean(q["light"])}, &r)
		return c.refJ(r.Info), err
	case "coins":
		var r refT.CoinsResponse
		if err = c.query(h, "referral.v1beta1.Query/Coins", &refT.CoinsRequest{AccAddress: acc(), MaxDepth: uint32(num(q["depth"]))}, &r); err != nil {
			return nil, err
		}
		return J{"total": bigOf(r.Total), "deleg": bigOf(r.Delegated)}, nil
	case "check":
		var r refT.CheckStatusResponse
		err = c.query(h, "referral.v1beta1.Query/CheckStatus", &refT.CheckStatusRequest{AccAddress: acc(), Status: refT.Status(num(q["st"]))}, &r)
		return checkJ(r.Result), err
	case "move":
		var r refT.ValidateTransitionResponse
		err = c.query(h, "referral.v1beta1.Query/ValidateTransition", &refT.ValidateTransitionRequest{Subject: acc(), Target: c.a32(str(q["to"]))}, &r)
		return r.Ok, err
	case "status":
		var r refT.AllWithStatusResponse
		err = c.query(h, "referral.v1beta1.Query/AllWithStatus", &refT.AllWithStatusRequest{Status: refT.Status(num(q["st"]))}, &r)
		return c.nms(r.Accounts), err
	case "del":
		var r delT.GetResponse
		err = c.query(h, "delegating.v1beta1.Query/Get", &delT.GetRequest{AccAddress: acc()}, &r)
		return c.delJ(r.Data), err
	case "revoking":
		var r delT.RevokingResponse
		err = c.query(h, "delegating.v1beta1.Query/Revoking", &delT.RevokingRequest{AccAddress: acc()}, &r)
		return c.reqsJ(r.Revoking), err
	case "accum":
		var r delT.AccumulationResponse
		if err = c.query(h, "delegating.v1beta1.Query/Accumulation", &delT.AccumulationRequest{AccAddress: acc()}, &r); err != nil {
			return nil, err
		}
		return J{"start": c.w.sec(r.Start), "end": c.w.sec(r.End), "percent": r.Percent, "daily": c.fr(r.PercentDaily),
			"total": bigI(r.TotalUartrs), "current": bigI(r.CurrentUartrs)}, nil
	case "node":
		var r nodT.GetResponse
		err = c.query(h, "noding.v1beta1.Query/Get", &nodT.GetRequest{Account: acc()}, &r)
		return c.infoJ(r.Info), err
	case "state":
		var r nodT.StateResponse
		err = c.query(h, "noding.v1beta1.Query/State", &nodT.StateRequest{Account: acc()}, &r)
		return int64(r.State), err
	case "allowed":
		var r nodT.IsAllowedResponse
		err = c.query(h, "noding.v1beta1.Query/IsAllowed", &nodT.IsAllowedRequest{Account: acc()}, &r)
		return J{"ok": r.Verdict, "why": int64(r.Reason)}, err
	case "operator":
		addr := sdk.ConsAddress(consPub(str(q["k"])).Address())
		req := &nodT.OperatorRequest{ConsAddress: addr.String(), Format: nodT.OperatorRequest_FORMAT_BECH32}
		if boolean(q["hex"]) {
			req = &nodT.OperatorRequest{ConsAddress: strings.ToUpper(hex.EncodeToString(addr)), Format: nodT.OperatorRequest_FORMAT_HEX}
		}
		var r nodT.OperatorResponse
		if err = c.query(h, "noding.v1beta1.Query/Operator", req, &r); err != nil {
			return nil, err
		}
		return c.w.nm(r.Account), nil
	case "proposer":
		var r nodT.ProposerResponse
		if err = c.query(h, "noding.v1beta1.Query/Proposer", &nodT.ProposerRequest{Height: num(q["n"])}, &r); err != nil {
			return nil, err
		}
		return c.w.nm(r.Account), nil
	case "switched":
		var r nodT.SwitchedOnResponse
		err = c.query(h, "noding.v1beta1.Query/SwitchedOn", &nodT.SwitchedOnRequest{}, &r)
		return c.nms(r.Accounts), err
	case "queue":
		var r nodT.QueueResponse
		err = c.query(h, "noding.v1beta1.Query/Queue", &nodT.QueueRequest{}, &r)
		l := []J{}
		for _, x := range r.Queue {
			l = append(l, J{"no": x.No, "who": c.w.nm(x.Account)})
		}
		return l, err
	case "profile":
		var r profT.GetByAddressResponse
		if err = c.query(h, "profile.v1beta1.Query/GetByAddress", &profT.GetByAddressRequest{Address: acc()}, &r); err != nil {
			return nil, err
		}
		return J{"who": str(q["a"]), "p": c.profJ(r.Profile)}, nil
	case "nick":
		var r profT.GetByNicknameResponse
		if err = c.query(h, "profile.v1beta1.Query/GetByNickname", &profT.GetByNicknameRequest{Nickname: str(q["nick"])}, &r); err != nil {
			return nil, err
		}
		return J{"who": c.w.nm(r.Address), "p": c.profJ(r.Profile)}, nil
	case "card":
		var r profT.GetByCardNumberResponse
		n, _ := sdk.NewIntFromString(str(q["card"]))
		if err = c.query(h, "profile.v1beta1.Query/GetByCardNumber", &profT.GetByCardNumberRequest{CardNumber: n.Uint64()}, &r); err != nil {
			return nil, err
		}
		return J{"who": c.w.nm(r.Address), "p": c.profJ(r.Profile)}, nil
	case "earner":
		var r earnT.GetResponse
		err = c.query(h, "earning.v1beta1.Query/Get", &earnT.GetRequest{Address: acc()}, &r)
		if err != nil {
			return nil, err
		}
		return c.earnJ(r.Earner), nil
	case "earners":
		if l, ok := q["of"].([]interface{}); ok {
			var r earnT.GetMultipleResponse
			req := &earnT.GetMultipleRequest{}
			for _, x := range l {
				req.Addresses = append(req.Addresses, c.a32(str(x)))
			}
			err = c.query(h, "earning.v1beta1.Query/GetMultiple", req, &r)
			res := []J{}
			for _, e := range r.Earners {
				res = append(res, c.earnJ(e))
			}
			return res, err
		}
		// all pages, one after the other
		res := []J{}
		for page := int32(1); page < 100; page++ {
			var r earnT.ListResponse
			if err = c.query(h, "earning.v1beta1.Query/List", &earnT.ListRequest{Limit: int32(num(q["limit"])), Page: page}, &r); err != nil {
				return nil, err
			}
			for _, e := range r.List {
				res = append(res, c.earnJ(e))
			}
			if len(r.List) == 0 {
				break
			}
		}
		sort.SliceStable(res, func(i, j int) bool { return str(res[i]["who"]) < str(res[j]["who"]) })
		return res, nil
	case "gov":
		var r votT.GovernmentResponse
		err = c.query(h, "voting.v1beta1.Query/Government", &votT.GovernmentRequest{}, &r)
		return c.nms(r.Members), err
	case "proposal":
		var r votT.CurrentResponse
		err = c.query(h, "voting.v1beta1.Query/Current", &votT.CurrentRequest{}, &r)
		cur := []J{}
		if r.Proposal.Name != "" || r.Proposal.Author != "" || r.Proposal.EndTime != nil {
			cur = append(cur, c.propJ(&r.Proposal))
		}
		return J{"cur": cur, "gov": c.nms(r.Government), "agreed": c.nms(r.Agreed), "disagreed": c.nms(r.Disagreed)}, err
	case "history":
		var r votT.HistoryResponse
		err = c.query(h, "voting.v1beta1.Query/History", &votT.HistoryRequest{Limit: int32(num(q["limit"])), Page: int32(num(q["page"]))}, &r)
		return c.histJ(r.History), err
	case "poll":
		var r votT.PollResponse
		if err = c.query(h, "voting.v1beta1.Query/Poll", &votT.PollRequest{}, &r); err != nil {
			return nil, err
		}
		return J{"poll": c.pollJ(r.Poll), "yes": r.Yes, "no": r.No}, nil
	case "polls":
		var r votT.PollHistoryResponse
		err = c.query(h, "voting.v1beta1.Query/PollHistory", &votT.PollHistoryRequest{Limit: int32(num(q["limit"])), Page: int32(num(q["page"]))}, &r)
		return c.pollsJ(r.History), err
	case "tasks":
		if q["since"] == nil {
			var r schT.AllResponse
			err = c.query(h, "schedule.v1beta1.Query/All", &schT.AllRequest{}, &r)
			return c.tasksJ(r.Tasks), err
		}
		ts := func(x interface{}) string {
			return c.w.base.Add(time.Duration(num(x)) * time.Second).Format(time.RFC3339)
		}
		var r schT.GetResponse
		err = c.query(h, "schedule.v1beta1.Query/Get", &schT.GetRequest{Since: ts(q["since"]), To: ts(q["to"])}, &r)
		return c.tasksJ(r.Tasks), err
	}
	panic("unknown question " + str(q["q"]))
}

func (c *chainRun) ask(op J) {
	if c.w.app.LastBlockHeight() == 0 {
		return
	}
	res := []J{}
	for _, x := range op["qs"].([]interface{}) {
		q := jsonCopy(x.(J))
		ans, err := c.answer(q)
		q["err"] = ""
		if err != nil {
			q["err"] = clip(err.Error())
		} else {
			q["ans"] = ans
		}
		if str(q["q"]) == "card" {
			q["card"] = bigOf(sdkInt(q["card"]))
		}
		if str(q["q"]) == "nick" {
			q["nick"] = strings.ToLower(strings.TrimSpace(str(q["nick"])))
		}
		if num(q["back"]) > 0 && q["err"] == "too early" {
			continue
		}
		if q["back"] == nil {
			q["back"] = 0
		}
		res = append(res, q)
	}
	c.bal = nil
	c.emit(c.state(J{"op": "ask", "qs": res}, c.w.ctx()))
}

var questions = []string{"params", "supply", "balance", "balance", "ref", "ref", "coins", "coins", "check", "check", "move", "move", "status", "del", "revoking", "accum", "accum", "accum",
	"node", "state", "allowed", "allowed", "operator", "proposer", "switched", "queue", "profile", "nick", "nick", "card", "earner", "earners", "gov", "proposal", "history", "poll", "polls", "tasks", "tasks"}

func (c *chainRun) genAsk(r *Rng) J {
	ctx := c.w.ctx()
	qs := []interface{}{}
	for i := 0; i < 10; i++ {
		q := J{"q": questions[r.Intn(len(questions))], "a": c.anyAcc(r)}
		if str(c.opt["cfg"]) == "nod" && r.chance(1, 2) {
			q["q"] = r.pick("queue", "state", "node", "operator", "proposer", "switched", "allowed")
		}
		if r.chance(1, 4) {
			q["back"] = 1 + r.Intn(2)
		}
		if r.chance(1, 5) {
			q["old"] = true
		}
		switch str(q["q"]) {
		case "params":
			q["mod"] = r.pick("bank", "del", "nod", "prof", "ref", "vot", "earn")
		case "ref":
			q["light"] = r.chance(1, 3)
		case "accum", "del", "revoking":
			for k := 0; k < 6 && !c.w.app.bankKeeper.GetBalance(ctx, c.w.addrs[str(q["a"])]).AmountOf(util.ConfigDelegatedDenom).IsPositive(); k++ {
				q["a"] = c.realAcc(r)
			}
		case "node", "state", "allowed":
			for k := 0; k < 6 && r.chance(3, 4); k++ {
				if _, err := c.w.app.nodingKeeper.Get(ctx, c.w.addrs[str(q["a"])]); err == nil {
					break
				}
				q["a"] = c.realAcc(r)
			}
		case "coins":
			q["depth"] = r.Intn(13)
		case "check":
			q["st"] = []int{1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 9}[r.Intn(11)]
		case "move":
			q["a"], q["to"] = c.realAcc(r), c.realAcc(r)
		case "status":
			q["st"] = []int{5, 6, 7, 9}[r.Intn(4)]
		case "operator":
			q["k"], q["hex"] = fmt.Sprintf("k%d", r.Intn(nKeys)), r.chance(1, 2)
		case "proposer":
			q["n"] = c.w.h - int64(r.Intn(6))
		case "nick":
			s := chainNicks[r.Intn(len(chainNicks))]
			if p := c.w.app.profileKeeper.GetProfile(ctx, c.w.addrs[c.realAcc(r)]); p != nil && p.Nickname != "" && r.chance(3, 4) {
				s = p.Nickname
			}
			q["nick"] = []string{s, strings.ToUpper(s), strings.ToLower(s), " " + s + " "}[r.Intn(4)]
		case "card":
			q["card"] = sdk.NewIntFromUint64(uint64(r.Intn(40))).String()
			if p := c.w.app.profileKeeper.GetProfile(ctx, c.w.addrs[c.realAcc(r)]); p != nil && r.chance(4, 5) {
				q["card"] = sdk.NewIntFromUint64(p.CardNumber).String()
			}
		case "earners":
			if r.chance(1, 2) {
				q["of"] = []interface{}{c.realAcc(r), c.realAcc(r), c.realAcc(r)}
			} else {
				q["limit"] = 1 + r.Intn(4)
			}
		case "history", "polls":
			q["limit"], q["page"] = 1+r.Intn(4), 1+r.Intn(3)
		case "tasks":
			if r.chance(3, 4) {
				now := c.w.sec(c.w.now)
				since := now + r.rangeI(-2, 40)*c.day()/4
				to := since + r.rangeI(0, 40)*c.day()/2
				if l := c.pTasks(ctx); len(l) > 0 && r.chance(3, 4) {
					if r.chance(1, 2) {
						since = num(l[r.Intn(len(l))]["t"])
					}
					to = num(l[r.Intn(len(l))]["t"])
					if r.chance(1, 3) {
						to++
					}
				}
				if to < since {
					since, to = to, since
				}
				q["since"], q["to"] = since, to
			}
		}
		qs = append(qs, q)
	}
	return J{"op": "ask", "qs": qs}
}

// ------------------------------------------------------------------ parameters

func (c *chainRun) bankPar(b bankT.Params) J {
	return J{"minsend": bigI(b.MinSend), "dust": bigI(b.DustDelegation), "fee": c.fr(b.TransactionFee), "maxfee": bigI(b.MaxTransactionFee),
		"prop": c.fr(b.TransactionFeeSplitRatios.ForProposer), "comp": c.fr(b.TransactionFeeSplitRatios.ForCompany),
		"company": c.w.nm(b.CompanyAccount), "blocked": c.nms(b.BlockedSenders)}
}
func (c *chainRun) delPar(d delT.Params) J {
	rows := []J{}
	for _, x := range d.AccruePercentageTable {
		pc := [][]int64{}
		for _, y := range x.PercentList {
			pc = append(pc, c.fr(y))
		}
		rows = append(rows, J{"start": bigU(x.Start), "pc": pc})
	}
	return J{"min": bigI(d.MinDelegate), "rev": J{"period": d.Revoke.Period, "burn": c.fr(d.Revoke.Burn)},
		"xrev": J{"period": d.ExpressRevoke.Period, "burn": c.fr(d.ExpressRevoke.Burn)}, "table": rows}
}
func (c *chainRun) nodPar(n nodT.Params) J {
	sl := []J{}
	for _, x := range n.VotingPower.Slices {
		sl = append(sl, J{"part": c.fr(x.Part), "vp": x.VotingPower})
	}
	return J{"max": n.MaxValidators, "jailafter": n.JailAfter, "unjailafter": n.UnjailAfter, "lottery": n.LotteryValidators,
		"status": int64(n.MinCriteria.Status), "self": bigU(n.MinCriteria.SelfStake), "total": bigU(n.MinCriteria.TotalStake),
		"slices": sl, "lucky": n.VotingPower.LuckiesVotingPower}
}
func (c *chainRun) profPar(p profT.Params) J {
	return J{"creators": c.nms(p.Creators), "rename": bigI(p.RenamePrice), "magic": bigU(p.CardMagic), "stosig": c.nms(p.StorageSigners),
		"vpnsig": c.nms(p.VpnSigners), "rate": c.fr(p.TokenRate), "price": bigU(uint64(p.SubscriptionPrice)), "vpngb": bigU(uint64(p.VpnGbPrice)),
		"stogb": bigU(uint64(p.StorageGbPrice)), "basevpn": p.BaseVpnGb, "basesto": p.BaseStorageGb, "ratesig": c.nms(p.TokenRateSigners)}
}
func (c *chainRun) refPar(r refT.Params) J {
	return J{"price": bigU(r.TransitionPrice), "company": c.w.nm(r.CompanyAccounts.ForSubscription)}
}
func (c *chainRun) votPar(v votT.Params) J   { return J{"period": v.VotingPeriod, "poll": v.PollPeriod} }
func (c *chainRun) earnPar(e earnT.Params) J { return J{"signers": c.nms(e.Signers)} }

// params are those of all modules.
func (c *chainRun) params(ctx sdk.Context) J {
	a := c.w.app
	return J{
		"bank": c.bankPar(a.bankKeeper.GetParams(ctx)),
		"del":  c.delPar(a.delegatingKeeper.GetParams(ctx)),
		"nod":  c.nodPar(a.nodingKeeper.GetParams(ctx)),
		"prof": c.profPar(a.profileKeeper.GetParams(ctx)),
		"ref":  c.refPar(a.referralKeeper.GetParams(ctx)),
		"vot":  c.votPar(a.votingKeeper.GetParams(ctx)),
		"upg":  c.upgradeJ(ctx),
		"earn": c.earnPar(a.earningKeeper.GetParams(ctx)),
	}
}

var _ = util.ConfigMainDenom
