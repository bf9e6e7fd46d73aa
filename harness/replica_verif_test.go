// +build testing

package app

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"
)

// Replicas: other nodes that are given the same blocks as the main one. "r1" does nothing else. "r2" is stopped and opened
// again at any moment (its unfinished block is replayed), checks and simulates transactions in between, and lives in
// another time zone with a wrong clock.

type replica struct {
	name  string
	w     *World // a node in this process, or
	p     *proc  // one in another
	opens []J
}

// one call of the engine, and a digest of what matters in the answer
type call struct {
	req interface{}
	ans string
}

func (w *World) engine(req interface{}) (ans string, upd []abci.ValidatorUpdate, tx abci.ResponseDeliverTx) {
	switch q := req.(type) {
	case abci.RequestBeginBlock:
		w.h, w.now, w.hdr, w.inBlk = q.Header.Height, q.Header.Time, q.Header, true
		ans = "b" + told(w.app.BeginBlock(q).Events)
	case abci.RequestDeliverTx:
		tx = w.app.DeliverTx(q)
		ans = fmt.Sprintf("t%d/%d/%d/%x/%s", tx.Code, tx.GasWanted, tx.GasUsed, tx.Data, told(tx.Events))
	case abci.RequestEndBlock:
		r := w.app.EndBlock(q)
		upd = r.ValidatorUpdates
		ans = "e" + told(r.Events)
		for _, u := range upd {
			ans += fmt.Sprintf("%s=%d;", u.PubKey.String(), u.Power)
		}
		if r.ConsensusParamUpdates != nil {
			ans += r.ConsensusParamUpdates.String()
		}
	}
	if w.keep {
		w.calls = append(w.calls, call{req, ans})
	}
	return
}

// told is a digest of reported events, in order
func told(l []abci.Event) string {
	if len(l) == 0 {
		return ""
	}
	h := sha256.New()
	for i := range l {
		bz, err := l[i].Marshal()
		if err != nil {
			panic(err)
		}
		h.Write(bz)
		h.Write([]byte{0})
	}
	return hex.EncodeToString(h.Sum(nil)[:6])
}

func (c *chainRun) replicate(hash []byte) {
	defer func() { c.w.calls = nil }()
	if len(c.reps) == 0 {
		return
	}
	r := newRng(c.w.h*7919 + c.seed)
	main := J{"n": "main", "hash": hex.EncodeToString(hash), "stores": digest(c.storesOf(c.w)), "opens": c.opens, "ans": answers(c.w.calls)}
	c.opens = []J{}
	nodes := []J{main}
	for _, p := range c.reps {
		nodes = append(nodes, c.replay(p, c.w.calls, r))
	}
	c.emit(J{"op": "agree", "height": c.w.h, "nodes": nodes, "s": J{}})
}

func answers(l []call) []string {
	res := []string{}
	for _, x := range l {
		res = append(res, x.ans)
	}
	return res
}

func digest(x interface{}) string {
	bz, _ := json.Marshal(x)
	h := sha256.Sum256(bz)
	return hex.EncodeToString(h[:8])
}

func (c *chainRun) storesOf(w *World) J { return storesW(w, w.ctx()) }

func (p *replica) open(when string) {
	r := p.p.reopen()
	p.opens = append(p.opens, J{"when": when, "height": r.Height, "hash": r.Hash})
}

func (p *replica) noise(req interface{}, r *Rng) {
	q, ok := req.(abci.RequestDeliverTx)
	if !ok {
		return
	}
	if r.chance(1, 3) {
		p.p.ask(nodeReq{K: "check", Bz: q.Tx})
	}
	if r.chance(1, 3) {
		p.p.ask(nodeReq{K: "sim", Bz: q.Tx})
	}
}

func (c *chainRun) replay(p *replica, calls []call, r *Rng) J {
	p.opens = []J{}
	ans := []string{}
	if p.p == nil {
		for _, x := range calls {
			ans = append(ans, callSafe(p.w, x.req))
		}
		hash := p.w.Commit()
		return J{"n": p.name, "hash": hex.EncodeToString(hash), "stores": digest(c.storesOf(p.w)), "opens": p.opens, "ans": ans}
	}
	stop := -1
	if p.p.h > 0 {
		switch r.Intn(6) {
		case 0:
			p.open("between")
		case 1:
			stop = r.Intn(len(calls))
		}
	}
	for i := 0; i < len(calls); i++ {
		p.noise(calls[i].req, r)
		ans = append(ans, p.p.call(calls[i].req))
		if i == stop {
			p.open("within")
			stop, i, ans = -1, -1, []string{}
		}
	}
	res := p.p.ask(nodeReq{K: "commit"})
	p.p.h = res.Height
	if r.chance(1, 8) {
		p.open("after")
	}
	return J{"n": p.name, "hash": res.Hash, "stores": res.Stores, "opens": p.opens, "ans": ans}
}

func callSafe(w *World, req interface{}) (ans string) {
	defer func() {
		if r := recover(); r != nil {
			ans = "panic: " + clip(fmt.Sprint(r))
		}
	}()
	ans, _, _ = w.engine(req)
	return ans
}

// fork makes the replicas of a freshly started chain.
func (c *chainRun) fork(g GenCfg) {
	c.disband()
	c.opens = []J{}
	if !boolean(c.opt["rep"]) {
		return
	}
	c.reps = append(c.reps, &replica{name: "r1", w: NewWorld(g)})
	p := startProc(c.scratch, g)
	if r := p.start(); r.Err != "" {
		panic("VERIF-INFRA: a second node does not start: " + r.Err)
	}
	c.reps = append(c.reps, &replica{name: "r2", p: p})
	c.w.keep, c.w.calls = true, nil
}

func (c *chainRun) disband() {
	for _, p := range c.reps {
		if p.p != nil {
			p.p.drop()
		}
	}
	c.reps = nil
}

// reforks lets the replicas export and import too.
func (c *chainRun) reforks(now time.Time, height int64) []J {
	res := []J{}
	for _, p := range c.reps {
		var exp []byte
		var upd []abci.ValidatorUpdate
		e := ""
		if p.p != nil {
			exp, upd, e = p.p.again(now, height)
		} else {
			exp, _ = p.w.ExportJSON()
			if err := p.w.Reimport(); err != nil {
				e = clip(err.Error())
			}
			upd = p.w.initUpd
		}
		h := sha256.Sum256(exp)
		res = append(res, J{"n": p.name, "exp": hex.EncodeToString(h[:8]), "err": e != "", "upd": c.updJ(upd)})
	}
	return res
}

// ------------------------------------------------------------------ the wall clock

var clockShift int64
var clockPatched bool

func shiftedNow() time.Time {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return time.Unix(tv.Sec+atomic.LoadInt64(&clockShift), tv.Usec*1000)
}

// patchClock makes time.Now go through shiftedNow (amd64 only; elsewhere the replica's clock is right).
func patchClock() {
	if clockPatched {
		return
	}
	clockPatched = true
	f := shiftedNow
	from := reflect.ValueOf(time.Now).Pointer()
	to := *(*uintptr)(unsafe.Pointer(&f)) // the closure object
	page := from &^ uintptr(syscall.Getpagesize()-1)
	mem := (*[1 << 20]byte)(unsafe.Pointer(page))[: 2*syscall.Getpagesize() : 2*syscall.Getpagesize()]
	if err := syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); err != nil {
		return
	}
	code := []byte{0x48, 0xBA, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0x22} // mov rdx, to; jmp [rdx]
	for i := 0; i < 8; i++ {
		code[2+i] = byte(to >> (8 * uint(i)))
	}
	copy((*[64]byte)(unsafe.Pointer(from))[:len(code)], code)
	_ = syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_EXEC)
}

// ------------------------------------------------------------------ what a transaction should do at most

// control says what becomes of the state if only the transaction's fee and sequence number are taken, and, after that, if
// its messages take effect one by one. Both are worked out on the side.
func (c *chainRun) control(bz []byte, msgs []sdk.Msg) (paid bool, ante J, all J) {
	ctx, _ := c.w.rawCtx().CacheContext()
	ctx = ctx.WithTxBytes(bz).WithConsensusParams(consParams)
	tx, err := enc().TxConfig.TxDecoder()(bz)
	if err != nil {
		return false, J{}, J{}
	}
	for _, m := range msgs {
		if m.ValidateBasic() != nil {
			return false, J{}, J{}
		}
	}
	inside := func(name string) interface{} {
		f := reflect.ValueOf(c.w.app.BaseApp).Elem().FieldByName(name)
		return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
	}
	handler := inside("anteHandler").(sdk.AnteHandler)
	router := inside("router").(sdk.Router)
	quiet := c.w.onBal
	c.w.onBal = nil
	defer func() { c.w.onBal = quiet }()
	try := func(do func() error) (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		return do() == nil
	}
	if !try(func() error { _, e := handler(ctx, tx, false); return e }) {
		return false, J{}, J{}
	}
	ante = c.storesJ(ctx)
	if len(msgs) < 2 {
		return true, ante, J{}
	}
	mctx, _ := ctx.CacheContext()
	mctx = mctx.WithGasMeter(sdk.NewInfiniteGasMeter())
	for _, m := range msgs {
		m := m
		if !try(func() error {
			h := router.Route(mctx, m.Route())
			one, write := mctx.CacheContext()
			_, e := h(one, m)
			if e == nil {
				write()
			}
			return e
		}) {
			return true, ante, J{}
		}
	}
	return true, ante, c.storesJ(mctx)
}
