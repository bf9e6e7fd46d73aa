// +build testing

package app

import (
	"testing"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"strings"
)

// Driver "sched": the scheduler of the whole application, run through BeginBlock.
// Tasks are identified by (due time, hook, payload); hooks perform nested operations taken from
// the payload table, and may crash afterwards.

func init() {
	drivers["sched"] = func(t *testing.T, job Job) {
		rec := NewRecorder(job.Out)
		defer rec.Close()
		drive(job, &schedRun{rec: rec})
	}
}

type schedRun struct {
	rec  *Recorder
	w    *World
	unit time.Duration
	eff  map[string]J // payload -> effect
	nid  int
	in   bool
	cur  int64
}

var schedHooks = []string{"verif/a", "verif/b", "verif/c"}

func (s *schedRun) Config(r *Rng, run int) J {
	return J{"unit": []int64{1, 1000, int64(time.Second), int64(time.Hour)}[r.Intn(4)]}
}

func (s *schedRun) Start(cfg J) {
	s.unit = time.Duration(num(cfg["unit"]))
	s.w = NewWorld(GenCfg{Accs: []GenAcc{{Parent: -1, Main: "1000000"}}, RealStore: true})
	s.eff = map[string]J{}
	s.nid = 0
	s.cur = 0
	s.w.Begin(s.w.base, BeginArgs{})
	s.in = true
	s.hooks()
	s.rec.Emit(J{"op": "reset", "now": 0})
}

func (s *schedRun) hooks() {
	for _, h := range schedHooks {
		h := h
		s.w.app.scheduleKeeper.AddHook(h, func(ctx sdk.Context, data []byte, at time.Time) {
			dt := string(data)
			s.rec.Emit(J{"op": "run", "tm": s.tick(at), "hk": h, "dt": dt})
			e := s.eff[dt]
			if e == nil {
				return
			}
			if nested, ok := e["do"].([]interface{}); ok {
				for _, x := range nested {
					s.apply(ctx, x.(J), false)
				}
			}
			if boolean(e["crash"]) {
				panic("verif: scheduled crash")
			}
		})
	}
}

func (s *schedRun) tick(t time.Time) int64 { return int64(t.Sub(s.w.base) / s.unit) }
func (s *schedRun) at(n int64) time.Time   { return s.w.base.Add(time.Duration(n) * s.unit) }

func (s *schedRun) queue(ctx sdk.Context) []J {
	res := []J{}
	for _, t := range s.w.app.scheduleKeeper.GetTasks(ctx, time.Unix(0, 0), s.w.base.AddDate(100, 0, 0)) {
		if !strings.HasPrefix(t.HandlerName, "verif/") {
			continue
		}
		res = append(res, J{"tm": s.tick(t.Time), "hk": t.HandlerName, "dt": string(t.Data)})
	}
	return res
}

func (s *schedRun) apply(ctx sdk.Context, op J, top bool) {
	k := s.w.app.scheduleKeeper
	tm, hk, dt := num(op["tm"]), str(op["hk"]), str(op["dt"])
	ev := J{"op": op["op"], "tm": tm, "hk": hk, "dt": dt}
	switch str(op["op"]) {
	case "sched":
		if e, ok := op["eff"].(J); ok {
			s.eff[dt] = e
		}
		k.ScheduleTask(ctx, s.at(tm), hk, []byte(dt))
	case "del":
		k.Delete(ctx, s.at(tm), hk, []byte(dt))
	case "delall":
		k.DeleteAll(ctx, s.at(tm), hk)
	}
	if top {
		ev["q"] = s.queue(ctx)
	}
	s.rec.Emit(ev)
}

func (s *schedRun) Exec(op J) {
	switch str(op["op"]) {
	case "block":
		s.close()
		now := num(op["now"])
		s.cur = now
		s.begin(now)
	case "restart", "reimport":
		s.close()
		var e string
		if str(op["op"]) == "restart" {
			s.w.Restart()
			s.w.h = s.w.app.LastBlockHeight()
		} else if err := s.w.Reimport(); err != nil {
			e = err.Error()
		}
		s.hooks()
		s.rec.Emit(J{"op": str(op["op"]), "err": e, "q": s.queue(s.w.ctx())})
		if str(op["op"]) == "reimport" && e == "" {
			// the imported genesis has to be committed before anything else can be done to it
			s.begin(s.cur)
		}
	default:
		if !s.in {
			s.begin(s.cur)
		}
		s.apply(s.w.rawCtx(), op, true)
	}
}

func (s *schedRun) begin(now int64) {
	s.rec.Emit(J{"op": "begin", "now": now})
	s.w.Begin(s.at(now), BeginArgs{})
	s.in = true
	s.rec.Emit(J{"op": "end", "q": s.queue(s.w.rawCtx())})
}
func (s *schedRun) close() {
	if s.in {
		s.w.End()
		s.w.Commit()
		s.in = false
	}
}
func (s *schedRun) Finish() { s.close() }

func (s *schedRun) genOp(r *Rng, depth int) J {
	tm := s.cur + r.rangeI(0, 6)
	if r.chance(1, 12) && s.cur > 0 {
		tm = s.cur - r.rangeI(0, 2)
		if tm < 0 {
			tm = 0
		}
	}
	hk := schedHooks[r.Intn(len(schedHooks))]
	x := r.Intn(10)
	if x < 7 {
		s.nid++
		dt := "t" + itoa(s.nid)
		if r.chance(1, 10) && s.nid > 3 {
			dt = "t" + itoa(1+r.Intn(s.nid)) // a duplicate payload
		}
		op := J{"op": "sched", "tm": tm, "hk": hk, "dt": dt}
		e := J{}
		if depth < 3 && r.chance(1, 2) {
			n := r.Intn(3)
			var do []interface{}
			for i := 0; i < n; i++ {
				do = append(do, s.genOp(r, depth+1))
			}
			e["do"] = do
		}
		if r.chance(1, 5) {
			e["crash"] = true
		}
		op["eff"] = e
		return op
	}
	q := s.queue(s.w.ctx())
	if len(q) > 0 && r.chance(3, 4) {
		t := q[r.Intn(len(q))]
		if r.chance(2, 3) {
			return J{"op": "del", "tm": t["tm"], "hk": t["hk"], "dt": t["dt"]}
		}
		return J{"op": "delall", "tm": t["tm"], "hk": t["hk"]}
	}
	return J{"op": "del", "tm": tm, "hk": hk, "dt": "t1"}
}

func (s *schedRun) Next(r *Rng, step int) J {
	switch x := r.Intn(20); {
	case x < 12:
		return s.genOp(r, 0)
	case x < 18:
		d := []int64{0, 1, 1, 1, 2, 2, 3, 5}[r.Intn(8)]
		return J{"op": "block", "now": s.cur + d}
	case x == 18:
		return J{"op": "restart"}
	default:
		return J{"op": "reimport"}
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
