// +build testing

// Conformance harness core: builds the real application from a generated genesis, drives it
// through the ABCI interface (InitChain / BeginBlock / DeliverTx / EndBlock / Commit) and records
// what happens as newline-delimited JSON for the TLA+ trace specifications in /verif/spec.
// It is laid over package app with `go test -overlay`; nothing of it lives in /repo.
package app

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"runtime/debug"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"
	"unsafe"

	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/log"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	dbm "github.com/tendermint/tm-db"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authTypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/util"
)

type J = map[string]interface{}

// Job is what the runner asks for: which driver, which seed, how long, where to write.
type Job struct {
	Driver string          `json:"driver"`
	Seed   int64           `json:"seed"`
	Runs   int             `json:"runs"`
	Steps  int             `json:"steps"`
	Out    string          `json:"out"`    // ndjson trace
	OpsOut string          `json:"ops_out"` // replay script
	Ops    string          `json:"ops"`    // replay this script instead of generating
	Opt    json.RawMessage `json:"opt"`
}

var drivers = map[string]func(t *testing.T, job Job){}

func TestVerif(t *testing.T) {
	path := os.Getenv("VERIF_JOB")
	if path == "" {
		t.Skip("VERIF_JOB is not set")
	}
	bz, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var job Job
	if err := json.Unmarshal(bz, &job); err != nil {
		t.Fatal(err)
	}
	d := drivers[job.Driver]
	if d == nil {
		t.Fatalf("no driver %q", job.Driver)
	}
	d(t, job)
	fmt.Println("VERIF-DRIVER-DONE")
}

// ---------------------------------------------------------------------------------------------
// big numbers: non-negative integers as little-endian base-10^4 digit lists (see spec/Big.tla)

func bigOf(x sdk.Int) []int64 {
	res := []int64{}
	if x.IsNil() {
		return res
	}
	if x.IsNegative() {
		// cannot be represented on purpose: the specs have naturals only
		return []int64{-1}
	}
	s := x.String()
	for len(s) > 4 {
		var d int64
		fmt.Sscanf(s[len(s)-4:], "%d", &d)
		res = append(res, d)
		s = s[:len(s)-4]
	}
	var d int64
	fmt.Sscanf(s, "%d", &d)
	res = append(res, d)
	for len(res) > 0 && res[len(res)-1] == 0 {
		res = res[:len(res)-1]
	}
	return res
}
func bigI(x int64) []int64  { return bigOf(sdk.NewInt(x)) }
func bigU(x uint64) []int64 { return bigOf(sdk.NewIntFromUint64(x)) }

// ---------------------------------------------------------------------------------------------
// recorder

type Recorder struct {
	f   *os.File
	enc *json.Encoder
	n   int
}

func NewRecorder(path string) *Recorder {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	return &Recorder{f: f, enc: enc}
}
func (r *Recorder) Emit(e J) {
	r.n++
	if err := r.enc.Encode(e); err != nil {
		panic(err)
	}
}
func (r *Recorder) Close() { _ = r.f.Close() }

// ---------------------------------------------------------------------------------------------
// world

type acct struct {
	name string
	priv cryptotypes.PrivKey
	addr sdk.AccAddress
}

type World struct {
	app   *ArteryApp
	db    dbm.DB
	accs  []acct
	names map[string]string // bech32 -> short name
	addrs map[string]sdk.AccAddress
	base  time.Time
	now   time.Time
	h     int64
	hdr   tmproto.Header
	inBlk bool
	gen   GenCfg

	onTask  func(ctx sdk.Context, name string, data []byte, at time.Time, run func())
	onBal   func(ctx sdk.Context, addr sdk.AccAddress)
	initUpd []abci.ValidatorUpdate

	keep  bool // record the calls of the engine
	calls []call
}

const chainID = "verif-1"

var encCfg *EncodingConfig

func enc() EncodingConfig {
	if encCfg == nil {
		ec := NewEncodingConfig()
		encCfg = &ec
	}
	return *encCfg
}

func testKey(kind string, i int) cryptotypes.PrivKey {
	return secp256k1.GenPrivKeyFromSecret([]byte(fmt.Sprintf("verif/%s/%d", kind, i)))
}
func consKey(i int) cryptotypes.PrivKey {
	return ed25519.GenPrivKeyFromSecret([]byte(fmt.Sprintf("verif/cons/%d", i)))
}

// GenCfg describes a genesis; the zero value of each field means "default".
type GenAcc struct {
	Parent      int    `json:"parent"` // index of the referrer, -1 for a top level account
	Main        string `json:"main"`
	Deleg       string `json:"deleg"`
	ActiveUntil int64  `json:"active_until"` // seconds after genesis, 0: no subscription
	Nick        string `json:"nick"`
	Status      int    `json:"status"`  // status held until StatusEnd (seconds after genesis), whatever the requirements say
	StatusEnd   int64  `json:"status_end"`
}
type GenCfg struct {
	Accs       []GenAcc        `json:"accs"`
	Extra      int             `json:"extra"` // key pairs without an account
	DaySec     int64           `json:"day_sec"`
	Bank       J               `json:"bank"`
	Delegating J               `json:"delegating"`
	Earning    J               `json:"earning"`
	Noding     J               `json:"noding"`
	Profile    J               `json:"profile"`
	Referral   J               `json:"referral"`
	Voting     J               `json:"voting"`
	Gov        []int           `json:"gov"`
	Tasks      []J             `json:"tasks"`
	RealStore  bool            `json:"real_store"`
	Raw        json.RawMessage `json:"raw"`
}

func merge(dst J, src J) J {
	for k, v := range src {
		dst[k] = v
	}
	return dst
}

func genesisBase() time.Time { return time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC) }

const rfc = "2006-01-02T15:04:05.999999999Z"

func accName(i int) string { return fmt.Sprintf("a%d", i) }

func (w *World) initNames(cfg GenCfg) {
	w.names = map[string]string{}
	w.addrs = map[string]sdk.AccAddress{}
	w.accs = nil
	for i := 0; i < len(cfg.Accs)+cfg.Extra; i++ {
		k := testKey("acc", i)
		a := acct{name: accName(i), priv: k, addr: sdk.AccAddress(k.PubKey().Address())}
		w.accs = append(w.accs, a)
		w.names[a.addr.String()] = a.name
		w.addrs[a.name] = a.addr
	}
	for i, n := range []string{"co_sub", "co_fee"} {
		a := sdk.AccAddress(testKey("company", i).PubKey().Address())
		w.names[a.String()] = n
		w.addrs[n] = a
	}
	for _, n := range [][2]string{{"m_fee", authTypes.FeeCollectorName}, {"m_split", util.SplittableFeeCollectorName}} {
		a := authTypes.NewModuleAddress(n[1])
		w.names[a.String()] = n[0]
		w.addrs[n[0]] = a
	}
}

func (w *World) nm(bech32 string) string {
	if bech32 == "" {
		return "none"
	}
	if n, ok := w.names[bech32]; ok {
		return n
	}
	return "?" + bech32
}

func (w *World) genesisJSON(cfg GenCfg) []byte {
	b32 := func(i int) string { return w.accs[i].addr.String() }
	day := cfg.DaySec
	if day == 0 {
		day = 86400
	}
	var auth, bal, profiles, tops, others []interface{}
	auth = []interface{}{}
	tops = []interface{}{}
	others = []interface{}{}
	compressions := []interface{}{}
	tasks := []interface{}{}
	downgrades := []interface{}{}
	delegs := []interface{}{}
	kids := map[int][]string{}
	prof := merge(J{
		"base_storage_gb": 5, "base_vpn_gb": 7, "card_magic": "112233592347", "creators": []string{b32(0)},
		"rename_price": "1000000", "storage_gb_price": 10, "storage_signers": []string{b32(0)},
		"subscription_price": 1990, "token_rate": "100000", "token_rate_signers": []string{b32(0)},
		"vpn_gb_price": 10, "vpn_signers": []string{b32(0)},
	}, w.subst(cfg.Profile))
	addAuth := func(b string) {
		auth = append(auth, J{"@type": "/cosmos.auth.v1beta1.BaseAccount", "address": b, "account_number": fmt.Sprint(len(auth)), "sequence": "0"})
	}
	for i, a := range cfg.Accs {
		addAuth(b32(i))
		coins := []interface{}{}
		if a.Main != "" && a.Main != "0" {
			coins = append(coins, J{"denom": "uartr", "amount": a.Main})
		}
		if a.Deleg != "" && a.Deleg != "0" {
			coins = append(coins, J{"denom": "uartrd", "amount": a.Deleg})
			t := w.base.Add(time.Duration(day) * time.Second).Format(rfc)
			delegs = append(delegs, J{"address": b32(i), "next_accrue": t})
			tasks = append(tasks, J{"handler_name": "delegating/accrue", "time": t, "data": []byte(w.accs[i].addr)})
		}
		if a.Status > 1 {
			t := w.base.Add(time.Duration(a.StatusEnd) * time.Second).Format(rfc)
			downgrades = append(downgrades, J{"account": b32(i), "current": a.Status, "time": t})
			tasks = append(tasks, J{"handler_name": "referral/downgrade", "time": t, "data": []byte(b32(i))})
		}
		if len(coins) > 0 {
			bal = append(bal, J{"address": b32(i), "coins": coins})
		}
		p := J{}
		if a.Nick != "" {
			p["nickname"] = a.Nick
		}
		if a.ActiveUntil != 0 {
			at := w.base.Add(time.Duration(a.ActiveUntil) * time.Second).Format(rfc)
			p["active_until"] = at
			gb := func(f string) string {
				var n uint64
				fmt.Sscan(fmt.Sprint(prof[f]), &n)
				return fmt.Sprint(n * util.GBSize)
			}
			p["storage_limit"], p["vpn_limit"] = gb("base_storage_gb"), gb("base_vpn_gb")
			tasks = append(tasks, J{"handler_name": "profile/refresh", "time": at, "data": []byte(w.accs[i].addr)})
		}
		if a.ActiveUntil == 0 && a.Parent >= 0 {
			// the way the application itself leaves an account that has not been active yet
			t := w.base.Add(time.Duration(60*day+int64(i)) * time.Second).Format(rfc)
			compressions = append(compressions, J{"account": b32(i), "time": t})
			tasks = append(tasks, J{"handler_name": "referral/compression", "time": t, "data": []byte(b32(i))})
		}
		profiles = append(profiles, J{"address": b32(i), "profile": p})
		if a.Parent < 0 {
			tops = append(tops, b32(i))
		} else {
			kids[a.Parent] = append(kids[a.Parent], b32(i))
		}
	}
	for _, t := range cfg.Tasks {
		tasks = append(tasks, t)
	}
	var order []int
	for i := range kids {
		order = append(order, i)
	}
	sort.Ints(order)
	for _, i := range order {
		others = append(others, J{"referrer": b32(i), "referrals": kids[i]})
	}
	for _, n := range []string{"co_sub", "co_fee"} {
		addAuth(w.addrs[n].String())
	}
	gov := []string{}
	for _, i := range cfg.Gov {
		gov = append(gov, b32(i))
	}
	if len(gov) == 0 {
		gov = []string{b32(0)}
	}
	bank := merge(J{
		"min_send": "1000", "dust_delegation": "0",
		"transaction_fee": "3/1000", "max_transaction_fee": "10000000",
		"transaction_fee_split_ratios": J{"for_proposer": "1", "for_company": "0"},
		"company_account":              w.addrs["co_fee"].String(), "blocked_senders": []string{},
	}, w.subst(cfg.Bank))
	deleg := merge(J{
		"min_delegate": "1000",
		"revoke":       J{"period": 14, "burn": "5%"}, "express_revoke": J{"period": 7, "burn": "10%"},
		"accrue_percentage_table": []J{
			{"start": "0", "percent_list": []string{"21%", "0%", "1%", "0%", "0%"}},
			{"start": "1000000000", "percent_list": []string{"24%", "0%", "1%", "0%", "0%"}},
			{"start": "10000000000", "percent_list": []string{"27%", "0%", "1%", "0%", "0%"}},
			{"start": "100000000000", "percent_list": []string{"30%", "0%", "1%", "0%", "0%"}},
		},
	}, w.subst(cfg.Delegating))
	earn := merge(J{"signers": []string{b32(0)}}, w.subst(cfg.Earning))
	past, nodp := interface{}([]interface{}{}), J{}
	for k, v := range cfg.Noding {
		if k == "non_active" {
			past = w.substAny(v)
		} else {
			nodp[k] = v
		}
	}
	nod := merge(J{
		"jail_after": 2, "max_validators": 100, "unjail_after": 120, "lottery_validators": 0,
		"min_criteria": J{"status": "STATUS_LEADER", "self_stake": "10000000000", "total_stake": "50000000000"},
		"voting_power": J{"slices": []J{{"part": "15%", "voting_power": 15}, {"part": "85%", "voting_power": 10}}, "luckies_voting_power": 10},
	}, w.subst(nodp))
	ref := merge(J{
		"company_accounts": J{"for_subscription": w.addrs["co_sub"].String()}, "transition_price": "10000000",
	}, w.subst(cfg.Referral))
	vot := merge(J{"voting_period": 18, "poll_period": 18}, w.subst(cfg.Voting))
	if bal == nil {
		bal = []interface{}{}
	}
	state := J{
		"artrbank": J{"balances": bal, "params": bank},
		"auth": J{"accounts": auth, "params": J{"max_memo_characters": "256", "sig_verify_cost_ed25519": "590",
			"sig_verify_cost_secp256k1": "1000", "tx_sig_limit": "7", "tx_size_cost_per_byte": "10"}},
		"delegating": J{"accounts": delegs, "params": deleg},
		"earning":    J{"params": earn},
		"noding":     J{"active": []interface{}{}, "non_active": past, "params": nod},
		"profile":    J{"params": prof, "profiles": profiles},
		"referral":   J{"params": ref, "top_level_accounts": tops, "other_accounts": others, "compressions": compressions, "downgrades": downgrades},
		"schedule":   J{"params": J{"day_nanos": fmt.Sprint(day * 1000000000)}, "tasks": tasks},
		"voting":     J{"government": gov, "params": vot},
	}
	bz, err := json.Marshal(state)
	if err != nil {
		panic(err)
	}
	return bz
}

// subst replaces "@name" strings by the bech32 address of the named account, recursively.
func (w *World) subst(x J) J {
	if x == nil {
		return J{}
	}
	return w.substAny(x).(J)
}
func (w *World) substAny(x interface{}) interface{} {
	switch v := x.(type) {
	case map[string]interface{}:
		r := J{}
		for k, y := range v {
			r[k] = w.substAny(y)
		}
		return r
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, y := range v {
			r[i] = w.substAny(y)
		}
		return r
	case []string:
		r := make([]interface{}, len(v))
		for i, y := range v {
			r[i] = w.substAny(y)
		}
		return r
	case string:
		if strings.HasPrefix(v, "@") {
			a, ok := w.addrs[v[1:]]
			if !ok {
				panic("unknown account " + v)
			}
			return a.String()
		}
		return v
	default:
		return v
	}
}

func newApp(db dbm.DB, real bool) *ArteryApp {
	if real {
		return NewArteryApp(log.NewNopLogger(), db, nil, true, 0, enc())
	}
	return NewArteryApp(log.NewNopLogger(), db, nil, true, 0, enc(), fauxMerkleModeOpt)
}

var consParams = &abci.ConsensusParams{
	Block:     &abci.BlockParams{MaxBytes: 22020096, MaxGas: -1},
	Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 100000, MaxAgeDuration: 172800000000000, MaxBytes: 1048576},
	Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{"ed25519"}},
}

// NewWorld starts a chain from genesis.
func NewWorld(cfg GenCfg) *World { return newWorldOn(cfg, dbm.NewMemDB()) }

func newWorldOn(cfg GenCfg, db dbm.DB) *World {
	w := &World{gen: cfg, base: genesisBase(), db: db}
	w.initNames(cfg)
	w.app = newApp(w.db, cfg.RealStore)
	w.now = w.base
	w.app.InitChain(abci.RequestInitChain{
		Time: w.base, ChainId: chainID, ConsensusParams: consParams,
		AppStateBytes: w.genesisJSON(cfg), InitialHeight: 1,
	})
	w.inBlk = true // the genesis state lives in the deliver state until the first commit
	w.wrap()
	return w
}

// wrap installs observation callbacks: balance changes and scheduled task executions.
func (w *World) wrap() {
	w.app.bankKeeper.AddHook("SetCoins", "zz-verif-observer", func(ctx sdk.Context, addr sdk.AccAddress) error {
		if w.onBal != nil {
			w.onBal(ctx, addr)
		}
		return nil
	})
	v := reflect.ValueOf(&w.app.scheduleKeeper).Elem()
	want := reflect.TypeOf(map[string]func(sdk.Context, []byte, time.Time){})
	found := false
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() != want {
			continue
		}
		m := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(map[string]func(sdk.Context, []byte, time.Time))
		found = true
		for name, fn := range m {
			name, fn := name, fn
			w.app.scheduleKeeper.AddHook(name, func(ctx sdk.Context, data []byte, at time.Time) {
				w.observeTask(ctx, name, data, at, func() { fn(ctx, data, at) })
			})
		}
	}
	if !found {
		panic("VERIF-INFRA: the scheduler's hook table was not found")
	}
}

func (w *World) observeTask(ctx sdk.Context, name string, data []byte, at time.Time, run func()) {
	if w.onTask == nil {
		run()
		return
	}
	w.onTask(ctx, name, data, at, run)
}

// ctx returns a read-only view of the state as it is right now.
func (w *World) ctx() sdk.Context {
	c, _ := w.rawCtx().CacheContext()
	return c
}

// rawCtx writes through to the state of the block being built.
func (w *World) rawCtx() sdk.Context {
	return w.app.BaseApp.NewContext(!w.inBlk, w.hdr).WithBlockTime(w.now).WithBlockHeight(w.h)
}

// sec is a time in seconds since genesis.
func (w *World) sec(t time.Time) int64 { return int64(t.Sub(w.base) / time.Second) }
func (w *World) secp(t *time.Time) int64 {
	if t == nil {
		return -1
	}
	return w.sec(*t)
}

type BeginArgs struct {
	Votes    []abci.VoteInfo
	Proposer []byte
	Evidence []abci.Evidence
}

func (w *World) Begin(t time.Time, a BeginArgs) {
	w.h++
	w.now = t
	w.hdr = tmproto.Header{ChainID: chainID, Height: w.h, Time: t, ProposerAddress: a.Proposer}
	w.inBlk = true
	w.engine(abci.RequestBeginBlock{Header: w.hdr,
		LastCommitInfo: abci.LastCommitInfo{Votes: a.Votes}, ByzantineValidators: a.Evidence})
}

func (w *World) End() (upd []abci.ValidatorUpdate) {
	_, upd, _ = w.engine(abci.RequestEndBlock{Height: w.h})
	return upd
}
func (w *World) Commit() []byte {
	r := w.app.Commit()
	w.inBlk = false
	return r.Data
}

// Tx signs and delivers a message.
func (w *World) Tx(signer string, fee int64, msgs ...sdk.Msg) abci.ResponseDeliverTx {
	return w.TxGas(signer, fee, 100000000, msgs...)
}
func (w *World) TxGas(signer string, fee int64, gas uint64, msgs ...sdk.Msg) abci.ResponseDeliverTx {
	bz := w.TxBytes(signer, fee, gas, msgs...)
	return w.app.DeliverTx(abci.RequestDeliverTx{Tx: bz})
}
func (w *World) TxBytes(signer string, fee int64, gas uint64, msgs ...sdk.Msg) []byte {
	return w.TxBytesAs(signer, signer, fee, gas, msgs...)
}

func (w *World) seq(name string) uint64 {
	if acc := w.app.accountKeeper.GetAccount(w.ctx(), w.addrs[name]); acc != nil {
		return acc.GetSequence()
	}
	return 0
}

// TxBytesAs builds a transaction of `signer` signed with the key of `key`.
func (w *World) TxBytesAs(signer, key string, fee int64, gas uint64, msgs ...sdk.Msg) []byte {
	var priv cryptotypes.PrivKey
	for _, a := range w.accs {
		if a.name == key {
			priv = a.priv
		}
	}
	if key == "co_sub" {
		priv = testKey("company", 0)
	} else if key == "co_fee" {
		priv = testKey("company", 1)
	}
	var num, seq uint64
	if acc := w.app.accountKeeper.GetAccount(w.ctx(), w.addrs[signer]); acc != nil {
		num, seq = acc.GetAccountNumber(), acc.GetSequence()
	}
	feeC := sdk.Coins{}
	if fee > 0 {
		feeC = sdk.NewCoins(sdk.NewCoin("uartr", sdk.NewInt(fee)))
	}
	cfg := enc().TxConfig
	mode := cfg.SignModeHandler().DefaultMode()
	tb := cfg.NewTxBuilder()
	if err := tb.SetMsgs(msgs...); err != nil {
		panic(err)
	}
	sg := signing.SignatureV2{PubKey: priv.PubKey(), Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: seq}
	if err := tb.SetSignatures(sg); err != nil {
		panic(err)
	}
	tb.SetFeeAmount(feeC)
	tb.SetGasLimit(gas)
	sb, err := cfg.SignModeHandler().GetSignBytes(mode, authsign.SignerData{ChainID: chainID, AccountNumber: num, Sequence: seq}, tb.GetTx())
	if err != nil {
		panic(err)
	}
	raw, err := priv.Sign(sb)
	if err != nil {
		panic(err)
	}
	sg.Data.(*signing.SingleSignatureData).Signature = raw
	if err := tb.SetSignatures(sg); err != nil {
		panic(err)
	}
	tx := tb.GetTx()
	bz, err := enc().TxConfig.TxEncoder()(tx)
	if err != nil {
		panic(err)
	}
	return bz
}

// Restart drops the application object and reopens it from the committed store.
func (w *World) Restart() {
	w.app = newApp(w.db, w.gen.RealStore)
	w.inBlk = false
	w.wrap()
}

// ExportJSON is the exported genesis.
func (w *World) ExportJSON() (res json.RawMessage, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v%s", r, trace())
		}
	}()
	exp, err := w.app.ExportAppStateAndValidators(false, nil)
	return exp.AppState, err
}

// exportNow is the export of the state as it is right now.
func (w *World) exportNow() json.RawMessage {
	bz, err := json.Marshal(w.app.mm.ExportGenesis(w.ctx(), w.app.ec.Marshaler))
	if err != nil {
		panic(err)
	}
	return bz
}

// Reimport exports the committed state and starts another application from it.
func (w *World) Reimport() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v%s", r, trace())
		}
	}()
	exp, err := w.app.ExportAppStateAndValidators(false, nil)
	if err != nil {
		return err
	}
	_, err = w.importOn(dbm.NewMemDB(), exp.AppState)
	return err
}

// importOn starts a chain from an export, at the next height.
func (w *World) importOn(db dbm.DB, state []byte) (upd []abci.ValidatorUpdate, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v%s", r, trace())
		}
	}()
	app := newApp(db, w.gen.RealStore)
	init := app.InitChain(abci.RequestInitChain{
		Time: w.now, ChainId: chainID, ConsensusParams: consParams,
		AppStateBytes: state, InitialHeight: w.h + 1,
	})
	w.app, w.db = app, db
	w.initUpd = init.Validators
	w.inBlk = true
	w.wrap()
	return init.Validators, nil
}

// ---------------------------------------------------------------------------------------------
// small random helpers

type Rng struct{ *rand.Rand }

func newRng(seed int64) *Rng { return &Rng{rand.New(rand.NewSource(seed))} }
func (r *Rng) pick(xs ...string) string { return xs[r.Intn(len(xs))] }
func (r *Rng) chance(num, den int) bool { return r.Intn(den) < num }
func (r *Rng) rangeI(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + r.Int63n(hi-lo+1)
}

func errText(r abci.ResponseDeliverTx) string {
	if r.Code == 0 {
		return ""
	}
	s := r.Log
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func str(x interface{}) string {
	if s, ok := x.(string); ok {
		return s
	}
	return ""
}
func num(x interface{}) int64 {
	switch v := x.(type) {
	case float64:
		return int64(v)
	case int64:
		return v
	case int:
		return int64(v)
	case json.Number:
		n, _ := v.Int64()
		return n
	}
	return 0
}
func boolean(x interface{}) bool { b, _ := x.(bool); return b }

// ---------------------------------------------------------------------------------------------
// scripts: a script is a list of runs; a run is a header (configuration) and a list of operations.

type Script struct {
	Cfg J   `json:"cfg"`
	Ops []J `json:"ops"`
}

func loadScripts(path string) []Script {
	bz, err := ioutil.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var res []Script
	if err := json.Unmarshal(bz, &res); err != nil {
		panic(err)
	}
	return res
}
func saveScripts(path string, s []Script) {
	if path == "" {
		return
	}
	bz, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(path, bz, 0644); err != nil {
		panic(err)
	}
}

// runScripts is the common main loop of the drivers. `start` opens a run for a configuration,
// `next` picks the next operation (nil ends the run), `exec` performs and records it.
type runner interface {
	Config(r *Rng, run int) J
	Start(cfg J)
	Next(r *Rng, step int) J
	Exec(op J)
	Finish()
}

func jsonCopy(x J) J {
	bz, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var r J
	if err := json.Unmarshal(bz, &r); err != nil {
		panic(err)
	}
	return r
}

func drive(job Job, r runner) {
	var scripts []Script
	if job.Ops != "" {
		for _, s := range loadScripts(job.Ops) {
			r.Start(s.Cfg)
			for _, op := range s.Ops {
				r.Exec(op)
			}
			r.Finish()
		}
		return
	}
	for i := 0; i < job.Runs; i++ {
		rng := newRng(job.Seed*1000003 + int64(i)*7919)
		s := Script{Cfg: jsonCopy(r.Config(rng, i))}
		r.Start(s.Cfg)
		for k := 0; k < job.Steps; k++ {
			op := r.Next(rng, k)
			if op == nil {
				break
			}
			op = jsonCopy(op)
			s.Ops = append(s.Ops, op)
			scripts = append(scripts[:i], s)
			saveEvery(job, scripts, k)
			r.Exec(op)
		}
		scripts = append(scripts[:i], s)
		r.Finish()
	}
	saveScripts(job.OpsOut, scripts)
}

func saveEvery(job Job, s []Script, k int) {}

// trace is the stack of a panic, if asked for.
func trace() string {
	if os.Getenv("VERIF_STACK") == "" {
		return ""
	}
	return "\n" + string(debug.Stack())
}
