// +build testing

package app

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	bankT "github.com/arterynetwork/artr/x/bank/types"
	delT "github.com/arterynetwork/artr/x/delegating/types"
	earnK "github.com/arterynetwork/artr/x/earning/keeper"
	earnT "github.com/arterynetwork/artr/x/earning/types"
	nodT "github.com/arterynetwork/artr/x/noding/types"
	profT "github.com/arterynetwork/artr/x/profile/types"
	refK "github.com/arterynetwork/artr/x/referral/keeper"
	refT "github.com/arterynetwork/artr/x/referral/types"
	votT "github.com/arterynetwork/artr/x/voting/types"
)

// Driver "chain": the whole application driven through ABCI. Every transaction, block boundary and scheduled task is
// recorded together with what the modules' state looks like afterwards.

func init() {
	drivers["chain"] = func(t *testing.T, job Job) {
		rec := NewRecorder(job.Out)
		defer rec.Close()
		opt := J{}
		if len(job.Opt) > 0 {
			if err := json.Unmarshal(job.Opt, &opt); err != nil {
				t.Fatal(err)
			}
		}
		c := newChain(rec, opt)
		c.scratch = filepath.Dir(job.Out)
		defer c.disband()
		drive(job, c)
	}
}

const nKeys = 8

type chainRun struct {
	rec  *Recorder
	opt  J
	w    *World
	proj map[string]bool
	bal  [][]interface{}
	par  string
	cfg  J

	vals map[string]int64   // consensus set that validates the current block
	pend []map[string]int64 // sets of the next two blocks
	keyN map[string]string  // cons address / proto key / bech32 -> "k1"
	dead bool
	big  bool

	reps  []*replica
	opens []J
	scratch string
	seed  int64

	inTask bool
	pendEv J
	mode   int
}

func newChain(rec *Recorder, opt J) *chainRun {
	c := &chainRun{rec: rec, opt: opt, proj: map[string]bool{}, keyN: map[string]string{}}
	if l, ok := opt["proj"].([]interface{}); ok {
		for _, x := range l {
			c.proj[str(x)] = true
		}
	}
	for i := 0; i < nKeys; i++ {
		n := fmt.Sprintf("k%d", i)
		pk := consKey(i).PubKey()
		c.keyN[string(pk.Address())] = n
		c.keyN[sdk.MustBech32ifyPubKey(sdk.Bech32PubKeyTypeConsPub, pk)] = n
		tm, err := cryptocodec.ToTmProtoPublicKey(pk)
		if err != nil {
			panic(err)
		}
		c.keyN[tm.String()] = n
	}
	return c
}

func keyIdx(n string) int {
	var i int
	fmt.Sscanf(n, "k%d", &i)
	return i
}
func consPub(n string) cryptotypes.PubKey { return consKey(keyIdx(n)).PubKey() }

// ------------------------------------------------------------------ events

func (c *chainRun) emit(ev J) {
	if c.bal == nil {
		ev["bal"] = []interface{}{}
	} else {
		ev["bal"] = c.bal
	}
	c.bal = nil
	ev["h"] = c.w.h
	ev["now"] = c.w.sec(c.w.now)
	c.rec.Emit(ev)
}

// state adds the projections and, if they changed, the parameters.
func (c *chainRun) state(ev J, ctx sdk.Context) J {
	ev["s"] = c.project(ctx)
	p := c.params(ctx)
	bz, _ := json.Marshal(p)
	if string(bz) != c.par || str(ev["op"]) == "reset" {
		c.par = string(bz)
		ev["par"] = p
	}
	return ev
}

func (c *chainRun) onBal(ctx sdk.Context, addr sdk.AccAddress) {
	// (observation is free of gas)
	b := c.w.app.bankKeeper.GetBalance(ctx.WithGasMeter(sdk.NewInfiniteGasMeter()), addr)
	c.bal = append(c.bal, []interface{}{c.w.nm(addr.String()), coinsJ(b)})
}

func coinsJ(b sdk.Coins) J {
	r := J{"m": bigOf(b.AmountOf(util.ConfigMainDenom)), "d": bigOf(b.AmountOf(util.ConfigDelegatedDenom)), "r": bigOf(b.AmountOf(util.ConfigRevokingDenom))}
	for _, x := range b {
		if x.Denom != util.ConfigMainDenom && x.Denom != util.ConfigDelegatedDenom && x.Denom != util.ConfigRevokingDenom {
			r["x"] = x.Denom
		}
	}
	return r
}

// flush completes the event whose outcome is only visible to what comes next.
func (c *chainRun) flush(ctx sdk.Context) {
	if c.pendEv != nil {
		ev := c.pendEv
		c.pendEv = nil
		c.emit(c.state(ev, ctx.WithGasMeter(sdk.NewInfiniteGasMeter())))
	}
}

func (c *chainRun) hook() {
	c.w.onBal = c.onBal
	c.w.onTask = func(ctx sdk.Context, name string, data []byte, at time.Time, run func()) {
		c.flush(ctx)
		ev := J{"op": "task", "hook": name, "acc": c.taskAcc(data), "at": c.w.sec(at), "panic": ""}
		c.pendEv = ev
		func() {
			defer func() {
				if r := recover(); r != nil {
					s := fmt.Sprint(r)
					if len(s) > 200 {
						s = s[:200]
					}
					ev["panic"] = s
					panic(r)
				}
			}()
			run()
		}()
	}
}

func (c *chainRun) taskAcc(data []byte) string {
	if len(data) == 0 {
		return "none"
	}
	if n, ok := c.w.names[sdk.AccAddress(data).String()]; ok {
		return n
	}
	if n, ok := c.w.names[string(data)]; ok {
		return n
	}
	return "x" + hex.EncodeToString(data)
}

// ------------------------------------------------------------------ run

func (c *chainRun) Start(cfg J) {
	c.cfg = cfg
	bz, _ := json.Marshal(cfg["gen"])
	var g GenCfg
	if err := json.Unmarshal(bz, &g); err != nil {
		panic(err)
	}
	c.dead, c.bal, c.par, c.pendEv = false, nil, "", nil
	c.vals, c.pend = map[string]int64{}, []map[string]int64{{}, {}}
	g.RealStore = boolean(c.opt["rep"]) || boolean(c.opt["real"])
	c.seed = int64(binary.BigEndian.Uint32(shaOf(bz)))
	c.w = NewWorld(g)
	c.fork(g)
	c.hook()
	c.w.Begin(c.w.base, BeginArgs{})
	c.pendEv, c.bal = nil, nil
	names := []string{}
	for _, a := range c.w.accs {
		names = append(names, a.name)
	}
	c.emit(c.state(J{"op": "reset", "accs": names, "day": c.day()}, c.w.ctx()))
}

func (c *chainRun) day() int64 {
	return int64(c.w.app.scheduleKeeper.OneDay(c.w.ctx()) / time.Second)
}

func (c *chainRun) Finish() {}

func (c *chainRun) Exec(op J) {
	if c.dead {
		return
	}
	switch str(op["op"]) {
	case "block":
		c.block(op)
	case "tx":
		c.tx(op)
	case "ask":
		c.ask(op)
	case "restart":
		c.endBlock()
		if c.dead {
			return
		}
		hash := c.w.Commit()
		c.replicate(hash)
		c.w.Restart()
		c.hook()
		info := c.w.app.Info(abci.RequestInfo{})
		c.opens = append(c.opens, J{"when": "between", "height": info.LastBlockHeight, "hash": hex.EncodeToString(info.LastBlockAppHash)})
		c.emit(c.state(J{"op": "restart", "err": "", "same": bytes.Equal(hash, info.LastBlockAppHash)}, c.w.ctx()))
		c.beginBlock(op)
	case "reimport":
		c.endBlock()
		if c.dead {
			return
		}
		c.replicate(c.w.Commit())
		before := c.storesJ(c.w.ctx())
		exp1, _ := c.w.ExportJSON()
		var e string
		if err := c.w.Reimport(); err != nil {
			e = err.Error()
			if os.Getenv("VERIF_STACK") != "" {
				fmt.Fprintln(os.Stderr, "REIMPORT", e)
			}
			if len(e) > 300 {
				e = e[:300]
			}
			c.dead = true
		}
		c.hook()
		ev := J{"op": "reimport", "err": e, "stores": before}
		if c.proj["exp"] {
			ev["exp"] = expJ(exp1)
		}
		if len(c.reps) > 0 {
			h := sha256.Sum256(exp1)
			ev["nodes"] = append([]J{{"n": "main", "exp": hex.EncodeToString(h[:8]), "err": e != "", "upd": c.updJ(c.w.initUpd)}}, c.reforks(c.w.now, c.w.h)...)
		}
		if e == "" {
			if c.proj["exp"] {
				ev["exp2"] = expJ(c.w.exportNow())
			}
			c.vals, c.pend = map[string]int64{}, []map[string]int64{{}, {}}
			c.valset(c.w.initUpd, true)
			ev["upd"] = c.updJ(c.w.initUpd)
			c.bal = nil
			c.state(ev, c.w.ctx())
			ev["stores2"] = c.storesJ(c.w.ctx())
		}
		c.emit(ev)
		if c.dead {
			return
		}
		c.beginBlock(op)
	default:
		panic("unknown op " + str(op["op"]))
	}
}

func (c *chainRun) block(op J) {
	c.endBlock()
	if c.dead {
		return
	}
	c.replicate(c.w.Commit())
	c.beginBlock(op)
}

func (c *chainRun) updJ(upd []abci.ValidatorUpdate) []J {
	res := []J{}
	for _, u := range upd {
		n := c.keyN[u.PubKey.String()]
		if n == "" {
			n = "?"
		}
		res = append(res, J{"k": n, "p": u.Power})
	}
	return res
}

func (c *chainRun) valset(upd []abci.ValidatorUpdate, initial bool) {
	apply := func(m map[string]int64) map[string]int64 {
		r := map[string]int64{}
		for k, v := range m {
			r[k] = v
		}
		for _, u := range upd {
			n := c.keyN[u.PubKey.String()]
			if u.Power == 0 {
				delete(r, n)
			} else {
				r[n] = u.Power
			}
		}
		return r
	}
	if initial {
		c.vals = apply(c.vals)
		c.pend = []map[string]int64{c.vals, c.vals}
		return
	}
	c.pend = append(c.pend, apply(c.pend[len(c.pend)-1]))
}

func (c *chainRun) endBlock() {
	ev := J{"op": "end"}
	func() {
		defer func() {
			if r := recover(); r != nil {
				ev["op"] = "halt"
				ev["where"] = "EndBlock"
				ev["panic"] = clip(fmt.Sprint(r))
				c.dead = true
			}
		}()
		upd := c.w.End()
		ev["upd"] = c.updJ(upd)
		c.valset(upd, false)
	}()
	if c.dead {
		c.emit(ev)
		return
	}
	c.emit(c.state(ev, c.w.ctx()))
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

// valsAt is the validator set that signs the block being finished.
func (c *chainRun) beginBlock(op J) {
	// votes are about the previous block: made by the set that was in charge of it
	prev := c.vals
	c.vals = c.pend[0]
	c.pend = c.pend[1:]
	miss := map[string]bool{}
	if l, ok := op["miss"].([]interface{}); ok {
		for _, x := range l {
			miss[str(x)] = true
		}
	}
	var a BeginArgs
	ev := J{"op": "begin", "prop": "none"}
	votes := []J{}
	keys := []string{}
	for k := range prev {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if prev[keys[i]] != prev[keys[j]] {
			return prev[keys[i]] > prev[keys[j]]
		}
		return keys[i] < keys[j]
	})
	for _, k := range keys {
		a.Votes = append(a.Votes, abci.VoteInfo{Validator: abci.Validator{Address: consPub(k).Address(), Power: prev[k]}, SignedLastBlock: !miss[k]})
		votes = append(votes, J{"k": k, "ok": !miss[k]})
	}
	if p := str(op["prop"]); p != "" {
		a.Proposer = consPub(p).Address()
		ev["prop"] = p
	}
	evs := []string{}
	if l, ok := op["ev"].([]interface{}); ok {
		for _, x := range l {
			k := str(x)
			a.Evidence = append(a.Evidence, abci.Evidence{Type: abci.EvidenceType_DUPLICATE_VOTE, Height: c.w.h, Time: c.w.now,
				TotalVotingPower: 10, Validator: abci.Validator{Address: consPub(k).Address(), Power: 10}})
			evs = append(evs, k)
		}
	}
	ev["votes"], ev["ev"] = votes, evs
	c.pendEv = ev
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.dead = true
				c.pendEv = nil
				c.emit(J{"op": "halt", "where": "BeginBlock", "panic": clip(fmt.Sprint(r))})
			}
		}()
		c.w.Begin(c.w.now.Add(time.Duration(num(op["dt"]))*time.Second), a)
	}()
	if c.dead {
		return
	}
	c.flush(c.w.ctx())
}

// ------------------------------------------------------------------ transactions

func (c *chainRun) a32(n string) string {
	a, ok := c.w.addrs[n]
	if !ok {
		panic("unknown account " + n)
	}
	return a.String()
}
func sdkInt(x interface{}) sdk.Int {
	i, ok := sdk.NewIntFromString(str(x))
	if !ok {
		panic(fmt.Sprintf("bad number %v", x))
	}
	return i
}
func (c *chainRun) tsp(x interface{}) *time.Time {
	if x == nil || num(x) < 0 {
		return nil
	}
	t := c.w.base.Add(time.Duration(num(x)) * time.Second)
	return &t
}
func frac(x interface{}) util.Fraction {
	l := x.([]interface{})
	return util.NewFraction(num(l[0]), num(l[1]))
}

func (c *chainRun) msg(by string, m J) sdk.Msg {
	b := c.a32(by)
	acc := func(f string) string { return c.a32(str(m[f])) }
	switch str(m["m"]) {
	case "send":
		coins := sdk.Coins{}
		for _, x := range m["coins"].([]interface{}) {
			l := x.([]interface{})
			coins = append(coins, sdk.Coin{Denom: str(l[0]), Amount: sdkInt(l[1])})
		}
		return &bankT.MsgSend{FromAddress: b, ToAddress: acc("to"), Amount: coins}
	case "burn":
		return &bankT.MsgBurn{Account: b, Amount: sdkInt(m["amt"]).Uint64()}
	case "delegate":
		return &delT.MsgDelegate{Address: b, MicroCoins: sdkInt(m["amt"])}
	case "revoke":
		return &delT.MsgRevoke{Address: b, MicroCoins: sdkInt(m["amt"])}
	case "xrevoke":
		return &delT.MsgExpressRevoke{Address: b, MicroCoins: sdkInt(m["amt"])}
	case "earn":
		var es []earnT.Earner
		for _, x := range m["list"].([]interface{}) {
			e := x.(J)
			es = append(es, earnT.Earner{Account: c.a32(str(e["acc"])), Vpn: c.tsp(e["vpn"]), Storage: c.tsp(e["sto"])})
		}
		if boolean(m["multi"]) {
			return earnT.NewMsgSetMultiple(c.w.addrs[by], es)
		}
		return earnT.NewMsgSet(c.w.addrs[by], es[0])
	case "on":
		return nodT.NewMsgOn(c.w.addrs[by], consPub(str(m["key"])))
	case "off":
		return nodT.NewMsgOff(c.w.addrs[by])
	case "unjail":
		return nodT.NewMsgUnjail(c.w.addrs[by])
	case "upd":
		msg := &profT.MsgUpdateProfile{Address: b}
		for _, x := range m["upd"].([]interface{}) {
			u := x.(J)
			f := profT.MsgUpdateProfile_Update_Field(profT.MsgUpdateProfile_Update_Field_value["FIELD_"+str(u["f"])])
			if str(u["f"]) == "NICKNAME" {
				msg.Updates = append(msg.Updates, profT.MsgUpdateProfile_Update{Field: f, Value: &profT.MsgUpdateProfile_Update_String_{String_: str(u["v"])}})
			} else {
				msg.Updates = append(msg.Updates, profT.MsgUpdateProfile_Update{Field: f, Value: &profT.MsgUpdateProfile_Update_Bool{Bool: boolean(u["v"])}})
			}
		}
		return msg
	case "create":
		msg := &profT.MsgCreateAccount{Creator: b, Address: acc("addr"), Referrer: acc("ref")}
		if p, ok := m["prof"].(J); ok {
			msg.Profile = &profT.Profile{AutoPay: boolean(p["autopay"]), AutoPayImExtra: boolean(p["autoim"]), Noding: boolean(p["noding"]), Storage: boolean(p["storage"]), Validator: boolean(p["validator"]),
				Vpn: boolean(p["vpn"]), Nickname: str(p["nick"]), ActiveUntil: c.tsp(p["until"]), CardNumber: uint64(num(p["card"])),
				StorageLimit: uint64(num(p["stolim"])), VpnLimit: uint64(num(p["vpnlim"])), ImLimitExtra: uint64(num(p["imx"])), ExtraImUntil: c.tsp(p["imuntil"]),
				StorageCurrent: uint64(num(p["stocur"])), VpnCurrent: uint64(num(p["vpncur"]))}
		}
		return msg
	case "stocur":
		return &profT.MsgSetStorageCurrent{Sender: b, Address: acc("addr"), Value: sdkInt(m["v"]).Uint64()}
	case "vpncur":
		return &profT.MsgSetVpnCurrent{Sender: b, Address: acc("addr"), Value: sdkInt(m["v"]).Uint64()}
	case "tariff":
		return &profT.MsgPayTariff{Address: b, StorageAmount: uint32(num(m["gb"]))}
	case "buysto":
		return &profT.MsgBuyStorage{Address: b, ExtraStorage: uint32(num(m["gb"]))}
	case "givesto":
		return &profT.MsgGiveStorageUp{Address: b, Amount: uint32(num(m["gb"]))}
	case "buyvpn":
		return &profT.MsgBuyVpn{Address: b, ExtraTraffic: uint32(num(m["gb"]))}
	case "buyim":
		return &profT.MsgBuyImExtraStorage{Address: b, ExtraStorage: uint32(num(m["gb"]))}
	case "giveim":
		return &profT.MsgGiveUpImExtra{Address: b, Amount: uint32(num(m["gb"]))}
	case "prolongim":
		return &profT.MsgProlongImExtra{Address: b}
	case "rate":
		return &profT.MsgSetRate{Sender: b, Value: frac(m["v"])}
	case "treq":
		return refT.NewMsgRequestTransition(b, acc("dest"))
	case "tres":
		return refT.NewMsgResolveTransition(b, acc("subj"), boolean(m["yes"]))
	case "propose":
		return &votT.MsgPropose{Proposal: c.proposal(by, m)}
	case "vote":
		return &votT.MsgVote{Voter: b, Agree: boolean(m["yes"])}
	case "poll":
		p := votT.Poll{Author: b, Name: str(m["name"]), Question: "q"}
		if q, ok := m["quorum"].([]interface{}); ok && len(q) == 2 {
			f := frac(q)
			p.Quorum = &f
		}
		switch num(m["req"]) {
		case -1:
			p.Requirements = &votT.Poll_CanValidate{CanValidate: &votT.Poll_Unit{}}
		case 0:
		default:
			p.Requirements = &votT.Poll_MinStatus{MinStatus: refT.Status(num(m["req"]))}
		}
		return &votT.MsgStartPoll{Poll: p}
	case "answer":
		return &votT.MsgAnswerPoll{Respondent: b, Yes: boolean(m["yes"])}
	}
	panic("unknown message " + str(m["m"]))
}

func (c *chainRun) proposal(by string, m J) votT.Proposal {
	p := votT.Proposal{Name: str(m["name"]), Author: c.a32(by), Type: votT.ProposalType(votT.ProposalType_value["PROPOSAL_TYPE_"+str(m["type"])])}
	switch str(m["kind"]) {
	case "price":
		p.Args = &votT.Proposal_Price{Price: &votT.PriceArgs{Price: uint32(num(m["v"]))}}
	case "addr":
		p.Args = &votT.Proposal_Address{Address: &votT.AddressArgs{Address: c.a32(str(m["v"]))}}
	case "min":
		p.Args = &votT.Proposal_MinAmount{MinAmount: &votT.MinAmountArgs{MinAmount: num(m["v"])}}
	case "count":
		p.Args = &votT.Proposal_Count{Count: &votT.CountArgs{Count: uint32(num(m["v"]))}}
	case "crit":
		v := m["v"].(J)
		p.Args = &votT.Proposal_MinCriteria{MinCriteria: &votT.MinCriteriaArgs{MinCriteria: &nodT.MinCriteria{
			Status: refT.Status(num(v["status"])), SelfStake: sdkInt(v["self"]).Uint64(), TotalStake: sdkInt(v["total"]).Uint64()}}}
	case "portion":
		p.Args = &votT.Proposal_Portion{Portion: &votT.PortionArgs{Fraction: frac(m["v"])}}
	case "portions":
		l := m["v"].([]interface{})
		p.Args = &votT.Proposal_Portions{Portions: &votT.PortionsArgs{Fractions: []util.Fraction{frac(l[0]), frac(l[1])}}}
	case "revoke":
		v := m["v"].(J)
		p.Args = &votT.Proposal_Revoke{Revoke: &votT.RevokeArgs{Revoke: &delT.Revoke{Period: uint32(num(v["period"])), Burn: frac(v["burn"])}}}
	case "vp":
		v := m["v"].(J)
		d := nodT.Distribution{LuckiesVotingPower: num(v["lucky"])}
		for _, x := range v["slices"].([]interface{}) {
			s := x.(J)
			d.Slices = append(d.Slices, nodT.Distribution_Slice{Part: frac(s["part"]), VotingPower: num(s["vp"])})
		}
		p.Args = &votT.Proposal_VotingPower{VotingPower: &d}
	case "table":
		var rows []delT.PercentageListRange
		for _, x := range m["v"].([]interface{}) {
			r := x.(J)
			row := delT.PercentageListRange{Start: sdkInt(r["start"]).Uint64()}
			for _, y := range r["pc"].([]interface{}) {
				row.PercentList = append(row.PercentList, frac(y))
			}
			rows = append(rows, row)
		}
		p.Args = &votT.Proposal_AccruePercentageTable{AccruePercentageTable: &votT.AccruePercentageTableArgs{AccruePercentageTable: rows}}
	case "upgrade":
		t := c.w.base.Add(time.Duration(num(m["v"])) * time.Second)
		p.Args = &votT.Proposal_SoftwareUpgrade{SoftwareUpgrade: &votT.SoftwareUpgradeArgs{Name: "upg", Time: &t, Info: "i"}}
	case "none":
	default:
		panic("unknown proposal kind " + str(m["kind"]))
	}
	return p
}

var bigFields = map[string]bool{"amt": true, "v": true}

// msgJ is what the specifications see of a message.
func (c *chainRun) msgJ(by string, m J) J {
	r := J{}
	for k, v := range m {
		r[k] = v
	}
	if s, ok := m["amt"].(string); ok {
		r["amt"] = bigOf(sdkInt(s))
	}
	switch str(m["m"]) {
	case "stocur", "vpncur":
		r["v"] = bigOf(sdkInt(m["v"]))
	case "send":
		cs := []interface{}{}
		for _, x := range m["coins"].([]interface{}) {
			l := x.([]interface{})
			cs = append(cs, J{"d": l[0], "a": bigOf(sdkInt(l[1]))})
		}
		r["coins"] = cs
	case "propose":
		pr := c.proposal(by, m)
		r["args"] = clipHash(&pr)
		switch str(m["kind"]) {
		case "min":
			r["v"] = bigOf(sdk.NewInt(num(m["v"])))
		case "price":
			r["v"] = bigU(uint64(num(m["v"])))
		case "crit":
			v := m["v"].(J)
			r["v"] = J{"status": v["status"], "self": bigOf(sdkInt(v["self"])), "total": bigOf(sdkInt(v["total"]))}
		case "table":
			rows := []J{}
			for _, x := range m["v"].([]interface{}) {
				q := x.(J)
				rows = append(rows, J{"start": bigOf(sdkInt(q["start"])), "pc": q["pc"]})
			}
			r["v"] = rows
		case "none":
			r["v"] = 0
		}
	case "tariff", "buysto", "givesto", "buyvpn", "buyim", "giveim":
		r["gb"] = bigU(uint64(uint32(num(m["gb"]))))
	case "create":
		if p, ok := m["prof"].(J); ok {
			q := J{"nick": str(p["nick"])}
			for _, f := range []string{"autopay", "noding", "storage", "validator", "vpn", "autoim"} {
				q[f] = boolean(p[f])
			}
			for _, f := range []string{"until", "imuntil"} {
				q[f] = int64(-1)
				if p[f] != nil {
					q[f] = num(p[f])
				}
			}
			q["card"] = bigU(uint64(num(p["card"])))
			for _, f := range []string{"stolim", "vpnlim", "imx", "stocur", "vpncur"} {
				q[f] = bigU(uint64(num(p[f])))
			}
			q["nkey"] = strings.ToLower(strings.TrimSpace(str(p["nick"])))
			r["prof"] = q
		} else {
			delete(r, "prof")
		}
		r["hasprof"] = m["prof"] != nil
	case "earn":
		l := []J{}
		for _, x := range m["list"].([]interface{}) {
			e := x.(J)
			q := J{"acc": e["acc"], "vpn": int64(-1), "sto": int64(-1)}
			if e["vpn"] != nil {
				q["vpn"] = num(e["vpn"])
			}
			if e["sto"] != nil {
				q["sto"] = num(e["sto"])
			}
			l = append(l, q)
		}
		r["list"] = l
	case "poll":
		if q, ok := m["quorum"].([]interface{}); !ok || len(q) != 2 {
			r["quorum"] = []int64{}
		}
	case "upd":
		l := []J{}
		for _, x := range m["upd"].([]interface{}) {
			u := x.(J)
			if str(u["f"]) == "NICKNAME" {
				l = append(l, J{"f": u["f"], "b": false, "v": str(u["v"]), "nkey": strings.ToLower(strings.TrimSpace(str(u["v"])))})
			} else {
				l = append(l, J{"f": u["f"], "b": boolean(u["v"]), "v": "", "nkey": ""})
			}
		}
		r["upd"] = l
	}
	return r
}

func (c *chainRun) tx(op J) {
	by := str(op["by"])
	sig := by
	if s := str(op["sig"]); s != "" {
		sig = s
	}
	fee := num(op["fee"])
	var msgs []sdk.Msg
	mj := []J{}
	for _, x := range op["msgs"].([]interface{}) {
		m := x.(J)
		mb := by
		if s := str(m["by"]); s != "" {
			mb = s
		}
		msgs = append(msgs, c.msg(mb, m))
		q := c.msgJ(mb, m)
		q["by"] = mb
		mj = append(mj, q)
	}
	ev := J{"op": "tx", "by": by, "fee": bigI(fee), "msgs": mj, "sig": sig == by, "mode": str(op["mode"])}
	for _, m := range mj {
		if str(m["by"]) != by {
			ev["sig"] = false
		}
	}
	c.bal = nil
	gas := uint64(100000000)
	if g := num(op["gas"]); g > 0 {
		gas = uint64(g)
	}
	ev["gas"] = num(op["gas"])
	var st0 J
	if c.proj["stores"] {
		st0 = c.storesJ(c.w.ctx())
	}
	bz := c.w.TxBytesAs(by, sig, fee, gas, msgs...)
	if st0 != nil && str(op["mode"]) == "" {
		ev["paid"], ev["storesA"], ev["storesM"] = c.control(bz, msgs)
		c.bal = nil
	}
	switch str(op["mode"]) {
	case "check":
		r := c.w.app.CheckTx(abci.RequestCheckTx{Tx: bz, Type: abci.CheckTxType_New})
		ev["ok"], ev["err"], ev["ante"] = r.Code == 0, clip(r.Log), false
		c.bal = nil
	case "sim":
		_, _, err := c.w.app.Simulate(bz)
		ev["ok"], ev["err"], ev["ante"] = err == nil, "", false
		if err != nil {
			ev["err"] = clip(err.Error())
		}
		c.bal = nil
	default:
		s0 := c.w.seq(by)
		_, _, r := c.w.engine(abci.RequestDeliverTx{Tx: bz})
		ev["ok"], ev["err"] = r.Code == 0, errText(r)
		ev["used"] = r.GasUsed
		ev["ante"] = c.w.seq(by) > s0
		if r.Code != 0 {
			n := 0
			if boolean(ev["ante"]) && fee > 0 {
				n = 2
			}
			if len(c.bal) > n {
				c.bal = c.bal[:n]
			}
		}
	}
	c.state(ev, c.w.ctx())
	if c.proj["stores"] {
		ev["stores0"] = st0
	}
	c.emit(ev)
}

// ------------------------------------------------------------------ projections

func (c *chainRun) fr(f util.Fraction) []int64 {
	if f.IsNullValue() {
		return []int64{}
	}
	s := f.String()
	var n, d int64
	if strings.HasSuffix(s, "%") {
		fmt.Sscanf(s, "%d%%", &n)
		d = 100
	} else if strings.Contains(s, "/") {
		fmt.Sscanf(s, "%d/%d", &n, &d)
	} else {
		fmt.Sscanf(s, "%d", &n)
		d = 1
	}
	return []int64{n, d}
}
func (c *chainRun) nms(l []string) []string {
	res := []string{}
	for _, x := range l {
		res = append(res, c.w.nm(x))
	}
	return res
}

func (c *chainRun) upgradeJ(ctx sdk.Context) []J {
	p, ok := c.w.app.upgradeKeeper.GetUpgradePlan(ctx)
	if !ok {
		return []J{}
	}
	return []J{{"name": p.Name, "t": c.w.sec(p.Time), "info": p.Info, "h": p.Height}}
}

func (c *chainRun) project(ctx sdk.Context) J {
	s := J{}
	for k := range c.proj {
		switch k {
		case "bank":
			s[k] = c.pBank(ctx)
		case "ref":
			s[k] = c.pRef(ctx)
		case "refix":
			s[k] = c.pRefIx(ctx)
		case "del":
			s[k] = c.pDel(ctx)
		case "nod":
			s[k] = c.pNod(ctx)
		case "idx":
			x := J{}
			for kn, v := range c.pNod(ctx)["idx"].(J) {
				x[kn] = v.(J)["acc"]
			}
			s[k] = x
		case "prof":
			s[k] = c.pProf(ctx)
		case "earn":
			s[k] = c.pEarn(ctx)
		case "vot":
			s[k] = c.pVot(ctx)
		case "tasks":
			s[k] = c.pTasks(ctx)
		case "auth":
			s[k] = c.pAuth(ctx)
		case "exp":
		case "stores":
			s[k] = c.storesJ(ctx)
		case "q":
		default:
			panic("unknown projection " + k)
		}
	}
	return s
}

func (c *chainRun) allNames() []string {
	res := []string{}
	for _, a := range c.w.accs {
		res = append(res, a.name)
	}
	return res
}

func (c *chainRun) pBank(ctx sdk.Context) J {
	acc := J{}
	unknown := int64(0)
	for n := range c.w.addrs {
		acc[n] = coinsJ(sdk.Coins{})
	}
	c.w.app.bankKeeper.IterateAllBalances(ctx, func(a sdk.AccAddress, b sdk.Coins) bool {
		n, ok := c.w.names[a.String()]
		if !ok {
			if !b.IsZero() {
				unknown++
			}
			return false
		}
		acc[n] = coinsJ(b)
		return false
	})
	ex := []string{}
	for n, a := range c.w.addrs {
		if c.w.app.accountKeeper.GetAccount(ctx, a) != nil {
			ex = append(ex, n)
		}
	}
	sort.Strings(ex)
	return J{"acc": acc, "supply": coinsJ(c.w.app.bankKeeper.GetSupply(ctx).Total), "unknown": unknown, "exist": ex}
}

func bigs(l []sdk.Int) [][]int64 {
	res := [][]int64{}
	for _, x := range l {
		res = append(res, bigOf(x))
	}
	for len(res) < 11 {
		res = append(res, []int64{})
	}
	return res
}

// pRefIx: the accounts listed under the higher statuses.
func (c *chainRun) pRefIx(ctx sdk.Context) J {
	res := J{}
	q := refK.QueryServer(*c.w.app.referralKeeper)
	for _, st := range []refT.Status{5, 6, 7, 9} {
		l := []string{}
		if r, err := q.AllWithStatus(sdk.WrapSDKContext(ctx), &refT.AllWithStatusRequest{Status: st}); err == nil {
			for _, a := range r.Accounts {
				l = append(l, c.w.nm(a))
			}
		}
		res[fmt.Sprint(int(st))] = l
	}
	return res
}

func (c *chainRun) pRef(ctx sdk.Context) J {
	res := J{}
	k := c.w.app.referralKeeper
	for _, n := range append(c.allNames(), "co_sub", "co_fee") {
		info, err := k.Get(ctx, c.a32(n))
		if err != nil || (info.Status == 0 && info.Referrer == "" && !info.Banished) {
			continue
		}
		res[n] = c.refJ(info)
	}
	return res
}

func (c *chainRun) pDel(ctx sdk.Context) J {
	res := J{}
	for _, n := range append(c.allNames(), "co_sub", "co_fee") {
		res[n] = c.delJ(c.w.app.delegatingKeeper.Get(ctx, c.w.addrs[n]))
	}
	return res
}

func (c *chainRun) isQual(ctx sdk.Context, a sdk.AccAddress) (q bool, stake sdk.Int, err error) {
	stake = sdk.ZeroInt()
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	q, stake, _, err = c.w.app.nodingKeeper.IsQualified(ctx, a)
	if err != nil || stake.IsNil() {
		stake = sdk.ZeroInt()
	}
	return
}

func (c *chainRun) pNod(ctx sdk.Context) J {
	res := J{}
	k := c.w.app.nodingKeeper
	prop := k.GetBlocksProposedByAll(ctx)
	for _, n := range c.allNames() {
		a := c.w.addrs[n]
		info, err := k.Get(ctx, a)
		if err != nil {
			continue
		}
		q, stake, qerr := c.isQual(ctx, a)
		bl := append([]uint64{}, prop[a.String()]...)
		st := bigOf(stake)
		res[n] = merge(c.infoJ(info), J{"qual": q && qerr == nil, "stake": st,
			"state": int64(k.GetValidatorState(ctx, a)), "blocks": bl})
	}
	idx := J{}
	for i := 0; i < nKeys; i++ {
		kn := fmt.Sprintf("k%d", i)
		acc, found, active, err := k.GetValidatorByConsAddr(ctx, sdk.ConsAddress(consPub(kn).Address()))
		if err != nil || !found {
			idx[kn] = J{"acc": "none", "active": false}
			continue
		}
		idx[kn] = J{"acc": c.w.nm(acc.String()), "active": active}
	}
	act := []string{}
	l, _ := k.GetActiveValidators(ctx)
	for _, v := range l {
		act = append(act, c.w.nm(v.Account))
	}
	sort.Strings(act)
	return J{"v": res, "idx": idx, "active": act}
}

func (c *chainRun) pProf(ctx sdk.Context) J {
	res := J{}
	k := c.w.app.profileKeeper
	nicks := J{}
	cards := J{}
	seen := map[string]bool{}
	for _, n := range c.allNames() {
		p := k.GetProfile(ctx, c.w.addrs[n])
		if p == nil {
			continue
		}
		ac := c.w.app.accountKeeper.GetAccount(ctx, c.w.addrs[n])
		num := int64(-1)
		if ac != nil {
			num = int64(ac.GetAccountNumber())
		}
		res[n] = merge(c.profJ(*p), J{"num": num})
		seen[p.Nickname] = true
		a := k.GetProfileAccountByCardNumber(ctx, p.CardNumber)
		cards[n] = c.w.nm(a.String())
	}
	for _, s := range chainNicks {
		seen[s] = true
	}
	for s := range seen {
		for _, x := range []string{strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace(s), " " + s + "\t"} {
			seen[x] = true
		}
	}
	for s := range seen {
		key := strings.ToLower(strings.TrimSpace(s))
		if key == "" {
			continue
		}
		a := k.GetProfileAccountByNickname(ctx, s)
		got := "none"
		if a != nil {
			got = c.w.nm(a.String())
		}
		if was, ok := nicks[key]; ok && was != got {
			got = "ambiguous"
		}
		nicks[key] = got
	}
	// card numbers that were never given to anybody
	given := map[uint64]bool{}
	for _, n := range c.allNames() {
		if p := k.GetProfile(ctx, c.w.addrs[n]); p != nil {
			given[p.CardNumber] = true
		}
	}
	none := []string{}
	magic := k.GetParams(ctx).CardMagic
	for i := uint64(0); i < 64; i++ {
		for _, x := range []uint64{i, i ^ magic, i << 56} {
			if a := k.GetProfileAccountByCardNumber(ctx, x); a != nil && !given[x] {
				none = append(none, c.w.nm(a.String()))
			}
		}
	}
	return J{"p": res, "nicks": nicks, "cards": cards, "nocards": none}
}

func (c *chainRun) pEarn(ctx sdk.Context) J {
	k := c.w.app.earningKeeper
	cc, _ := ctx.CacheContext()
	list := J{}
	n := 0
	for _, e := range k.GetEarners(cc) {
		n++
		list[c.w.nm(e.Account)] = J{"vpn": c.w.secp(e.Vpn), "sto": c.w.secp(e.Storage)}
	}
	act := J{}
	c2, _ := cc.CacheContext()
	for _, nm := range c.allNames() {
		v, s, err := k.IsActiveEarner(c2, c.w.addrs[nm])
		act[nm] = J{"vpn": v, "sto": s, "err": err != nil}
	}
	// the same through the query service, page by page
	qs := earnK.QueryServer(k)
	q, get := J{}, J{}
	for page := int32(1); page < 50; page++ {
		r, err := qs.List(sdk.WrapSDKContext(cc), &earnT.ListRequest{Page: page, Limit: 3})
		if err != nil {
			q["error"] = err.Error()
			break
		}
		for _, e := range r.List {
			nm := c.w.nm(e.Account)
			if q[nm] != nil {
				nm += "-again"
			}
			q[nm] = J{"vpn": c.w.secp(e.Vpn), "sto": c.w.secp(e.Storage)}
		}
		if len(r.List) < 3 {
			break
		}
	}
	for _, nm := range c.allNames() {
		r, err := qs.Get(sdk.WrapSDKContext(cc), &earnT.GetRequest{Address: c.a32(nm)})
		if err != nil {
			get[nm] = J{"err": err.Error()}
		} else {
			get[nm] = J{"vpn": c.w.secp(r.Earner.Vpn), "sto": c.w.secp(r.Earner.Storage)}
		}
	}
	return J{"list": list, "n": n, "act": act, "q": q, "get": get}
}

func (c *chainRun) pollJ(p votT.Poll) J {
	req := int64(0)
	switch r := p.Requirements.(type) {
	case *votT.Poll_CanValidate:
		req = -1
	case *votT.Poll_MinStatus:
		req = int64(r.MinStatus)
	}
	q := []int64{}
	if p.Quorum != nil {
		q = c.fr(*p.Quorum)
	}
	return J{"name": p.Name, "author": c.w.nm(p.Author), "start": c.w.secp(p.StartTime), "end": c.w.secp(p.EndTime), "quorum": q, "req": req}
}
func (c *chainRun) propJ(p *votT.Proposal) J {
	return J{"name": p.Name, "author": c.w.nm(p.Author), "type": strings.TrimPrefix(p.Type.String(), "PROPOSAL_TYPE_"), "end": c.w.secp(p.EndTime), "args": clipHash(p)}
}
func clipHash(p *votT.Proposal) string {
	q := *p
	q.EndTime = nil
	q.EndBlock = 0
	bz, err := q.Marshal()
	if err != nil {
		return "err"
	}
	h := sha256.Sum256(bz)
	return hex.EncodeToString(h[:6])
}

func (c *chainRun) pVot(ctx sdk.Context) J {
	k := c.w.app.votingKeeper
	r := J{"gov": c.nms(k.GetGovernment(ctx).Members), "cur": []J{}, "agreed": c.nms(k.GetAgreed(ctx).Members),
		"disagreed": c.nms(k.GetDisagreed(ctx).Members), "start": int64(0), "poll": []J{}, "answers": []J{}, "yes": 0, "no": 0}
	if p := k.GetCurrentProposal(ctx); p != nil {
		r["cur"] = []J{c.propJ(p)}
		r["start"] = k.GetStartBlock(ctx)
	}
	r["hist"] = c.histJ(k.GetHistory(ctx, 1000, 1))
	if p, ok := k.GetCurrentPoll(ctx); ok {
		r["poll"] = []J{c.pollJ(p)}
		y, n := k.GetPollStatus(ctx)
		r["yes"], r["no"] = y, n
	}
	ans := J{}
	cnt := 0
	_ = k.IterateThroughCurrentPollAnswers(ctx, func(acc string, a bool) bool {
		ans[c.w.nm(acc)] = a
		cnt++
		return false
	})
	r["answers"] = ans
	r["nans"] = cnt
	r["polls"] = c.pollsJ(k.GetPollHistoryAll(ctx))
	ent := J{}
	for _, n := range c.allNames() {
		q, _, err := c.isQual(ctx, c.w.addrs[n])
		st, err2 := c.w.app.referralKeeper.GetStatus(ctx, c.a32(n))
		if err2 != nil {
			st = 0
		}
		iv, _ := c.w.app.nodingKeeper.IsValidator(ctx, c.w.addrs[n])
		ent[n] = J{"qual": q && err == nil, "st": int64(st), "val": iv, "err": err != nil || err2 != nil}
	}
	r["ent"] = ent
	return r
}

func (c *chainRun) pTasks(ctx sdk.Context) []J {
	return c.tasksJ(c.w.app.scheduleKeeper.GetTasks(ctx, time.Unix(0, 0), c.w.base.AddDate(200, 0, 0)))
}

func (c *chainRun) pAuth(ctx sdk.Context) J {
	res := J{}
	for n, a := range c.w.addrs {
		if acc := c.w.app.accountKeeper.GetAccount(ctx, a); acc != nil {
			res[n] = acc.GetSequence()
		}
	}
	return res
}

func shaOf(bz []byte) []byte {
	h := sha256.Sum256(bz)
	return h[:]
}

// expJ is a digest of each module's part of an export.
func expJ(exp json.RawMessage) J {
	var m map[string]interface{}
	if err := json.Unmarshal(exp, &m); err != nil {
		panic(err)
	}
	res := J{}
	for k, v := range m {
		res[k] = digest(v)
	}
	return res
}

// storesJ is a digest of each module's raw store.
func (c *chainRun) storesJ(ctx sdk.Context) J { return storesW(c.w, ctx) }

func storesW(w *World, ctx sdk.Context) J {
	res := J{}
	for name, key := range w.app.keys {
		h := sha256.New()
		it := ctx.KVStore(key).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			fmt.Fprintf(h, "%d:%d:", len(it.Key()), len(it.Value()))
			h.Write(it.Key())
			h.Write(it.Value())
		}
		it.Close()
		res[name] = hex.EncodeToString(h.Sum(nil)[:8])
	}
	return res
}
