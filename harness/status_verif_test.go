// +build testing

package app

import (
	"fmt"
	"testing"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/x/referral"
	"github.com/arterynetwork/artr/x/referral/keeper"
	"github.com/arterynetwork/artr/x/referral/types"
)

// Driver "status": statuses far up the ladder, for which a chain would need thousands of accounts. The records of a leader
// and of its referrals are written as a chain would have left them; then the real keeper answers which statuses it is
// entitled to, re-examines it, and performs the downgrade that it scheduled.

func init() {
	drivers["status"] = func(t *testing.T, job Job) {
		rec := NewRecorder(job.Out)
		defer rec.Close()
		drive(job, &statusRun{rec: rec})
	}
}

type statusRun struct {
	rec *Recorder
	w   *World
}

var ladder = []types.Status{1, 2, 3, 4, 5, 6, 7, 9}
var wantCoins = []int64{20000, 50000, 150000, 300000, 700000, 1500000, 3000000}
var wantTeam = []int64{10, 50, 100, 300, 600}

func (s *statusRun) Config(r *Rng, run int) J { return J{} }
func (s *statusRun) Start(cfg J) {
	s.w = NewWorld(GenCfg{Accs: []GenAcc{{Parent: -1, Main: "1000000", Deleg: "5000000"}}, Extra: 8})
	s.w.Begin(s.w.base.Add(time.Second), BeginArgs{})
	s.rec.Emit(J{"op": "reset"})
}
func (s *statusRun) Finish() {}

func (s *statusRun) Next(r *Rng, i int) J {
	// delegations by level, in units: the sum over some of the levels lands on or next to a threshold
	deleg := make([]string, 10)
	lines := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}[r.Intn(10)]
	want := wantCoins[r.Intn(len(wantCoins))]*1000000 + []int64{-1, 0, 1, 1000000, -5000000, 123456789}[r.Intn(6)]
	if r.chance(1, 4) {
		want = 4000000 * 1000000
	}
	want -= 5000000 // its own
	left := want
	for l := 1; l <= 10; l++ {
		var x int64
		if l < lines {
			x = left / int64(1+r.Intn(5))
			if x < 0 {
				x = 0
			}
			left -= x
		} else if l == lines {
			x = left
		} else if r.chance(1, 2) {
			x = int64(r.Intn(1000000)) * int64(r.Intn(1000000))
		}
		if x < 0 {
			x = 0
		}
		deleg[l-1] = fmt.Sprint(x)
	}
	kids := []J{}
	n := r.Intn(7)
	if r.chance(1, 2) {
		n = 3 + r.Intn(2)
	}
	team := wantTeam[r.Intn(len(wantTeam))]
	for k := 0; k < n; k++ {
		first := int64(r.Intn(5))
		if r.chance(1, 2) {
			first = 3
		}
		self := int64(1)
		if r.chance(1, 8) {
			self = 0
		}
		rest := team + []int64{-1, 0, 0, 1, 200, -5}[r.Intn(6)] - first - self
		if r.chance(1, 6) {
			rest = 0
		}
		cnt := make([]int64, 11)
		cnt[0], cnt[1] = self, first
		for l := 2; l <= 10 && rest > 0; l++ {
			x := rest
			if l < 10 && r.chance(2, 3) {
				x = int64(r.Intn(int(rest) + 1))
			}
			cnt[l] = x
			rest -= x
		}
		kids = append(kids, J{"act": self == 1, "acnt": cnt})
	}
	op := J{"op": "probe", "st": int(ladder[r.Intn(8)]), "deleg": deleg, "kids": kids, "pending": r.chance(1, 4)}
	return op
}

func (s *statusRun) Exec(op J) {
	k, ctx := s.w.app.referralKeeper, s.w.ctx()
	a0 := s.w.addrs["a0"]
	store := ctx.KVStore(s.w.app.keys[referral.StoreKey])
	info, err := k.Get(ctx, a0.String())
	if err != nil {
		panic(err)
	}
	put := func(acc string, x types.Info) {
		store.Set([]byte(acc), enc().Marshaler.MustMarshalBinaryBare(&x))
	}
	idx := ctx.KVStore(s.w.app.keys[types.IndexStoreKey])
	for st := byte(0); st < 16; st++ {
		idx.Delete(append([]byte{st}, a0.String()...))
	}
	info.Status = types.Status(num(op["st"]))
	if info.Status >= types.STATUS_BUSINESSMAN {
		idx.Set(append([]byte{byte(info.Status)}, a0.String()...), []byte{1})
	}
	info.StatusDowngradeAt = nil
	if boolean(op["pending"]) {
		t := s.w.now.Add(time.Hour)
		info.StatusDowngradeAt = &t
	}
	info.Referrals, info.ActiveReferrals = nil, nil
	for i, d := range op["deleg"].([]interface{}) {
		v, ok := sdk.NewIntFromString(str(d))
		if !ok {
			panic(d)
		}
		info.Delegated[i+1] = v
	}
	for i := 0; i < 11; i++ {
		info.ActiveRefCounts[i] = 0
	}
	kids := []J{}
	for i, x := range op["kids"].([]interface{}) {
		x := x.(J)
		acc := s.w.addrs[accName(i+1)].String()
		ki := types.NewInfo(a0.String(), sdk.ZeroInt(), sdk.ZeroInt())
		ki.Active = boolean(x["act"])
		cnt := []int64{}
		for l, c := range x["acnt"].([]interface{}) {
			ki.ActiveRefCounts[l] = uint64(num(c))
			cnt = append(cnt, num(c))
			if l < 10 {
				info.ActiveRefCounts[l+1] += uint64(num(c))
			}
		}
		put(acc, ki)
		info.Referrals = append(info.Referrals, acc)
		if ki.Active {
			info.ActiveReferrals = append(info.ActiveReferrals, acc)
		}
		kids = append(kids, J{"act": ki.Active, "acnt": cnt})
	}
	put(a0.String(), info)
	deleg := [][]int64{}
	for _, d := range info.Delegated {
		deleg = append(deleg, bigOf(d))
	}
	ev := J{"op": "probe", "st": op["st"], "deleg": deleg, "kids": kids, "pending": op["pending"]}
	met := J{}
	for _, st := range ladder {
		res, err := k.AreStatusRequirementsFulfilled(ctx, a0.String(), st)
		if err != nil {
			met[fmt.Sprint(int(st))] = err.Error()
		} else {
			met[fmt.Sprint(int(st))] = fmt.Sprint(res.Overall)
		}
	}
	ev["met"] = met
	see := func(tag string) {
		x, err := k.Get(ctx, a0.String())
		if err != nil {
			panic(err)
		}
		down := int64(-1)
		if x.StatusDowngradeAt != nil {
			down = int64(x.StatusDowngradeAt.Sub(s.w.now) / time.Second)
		}
		ev["st"+tag], ev["down"+tag] = int(x.Status), down
	}
	if err := k.OnBalanceChanged(ctx, a0.String()); err != nil {
		panic(err)
	}
	see("1")
	late := ctx.WithBlockTime(s.w.now.Add(48*time.Hour + 1))
	k.PerformDowngrade(ctx, []byte(a0.String()), s.w.now) // too early
	see("2")
	k.PerformDowngrade(late, []byte(a0.String()), late.BlockTime())
	see("3")
	q := keeper.QueryServer(*s.w.app.referralKeeper)
	at := []int{}
	for _, st := range ladder {
		if res, err := q.AllWithStatus(sdk.WrapSDKContext(ctx), &types.AllWithStatusRequest{Status: st}); err == nil {
			for _, acc := range res.Accounts {
				if acc == a0.String() {
					at = append(at, int(st))
				}
			}
		}
	}
	ev["at"] = at
	s.rec.Emit(ev)
}
