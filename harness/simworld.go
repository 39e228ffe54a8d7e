package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// simWorld: one scenario over a simulated database in virtual time.
type simWorld struct {
	rec   *Recorder
	db    *simDB
	ctl   *Controller
	t0    time.Time
	rnd   *rng
	sched string
	goes  int

	last      int // when something was recorded last
	disturbed int // when the last injected fault stopped having an effect
}

func newSimWorld(ddl []string, sched string, seed int, faults []*dbFault) *simWorld {
	w := &simWorld{rec: &Recorder{}, sched: sched, rnd: newRng(uint64(seed) + 17)}
	w.ctl = &Controller{}
	w.db = newSimDB(ddl, w.ctl)
	w.db.faults = faults
	w.db.onFault = func(f *dbFault, kind string) {
		w.disturbed = w.now() + f.Ms
		w.log(M{"op": "fault", "i": f.Actor, "k": f.Kind, "s": kind})
	}
	w.db.onKill = func(actor string) { w.log(M{"op": "crash", "i": actor}) }
	// start on a whole second
	w.t0 = time.Now()
	if d := w.t0.Truncate(time.Second).Add(time.Second).Sub(w.t0); d < time.Second {
		sleep(d)
		w.t0 = time.Now()
	}
	if sched != "" {
		w.ctl.wake = make(chan struct{}, 1)
		w.ctl.Enable()
	}
	return w
}

func (w *simWorld) now() int { return int(time.Since(w.t0) / time.Millisecond) }
func (w *simWorld) at(v interface{}) int {
	switch t := v.(type) {
	case time.Time:
		return int(t.Sub(w.t0).Round(time.Millisecond) / time.Millisecond)
	case string:
		x, err := time.Parse("2006-01-02 15:04:05.000", t)
		if err != nil {
			x, err = time.Parse("2006-01-02 15:04:05", t)
			if err != nil {
				return -999999999
			}
		}
		return w.at(x)
	}
	return -999999999
}
func (w *simWorld) log(m M) {
	m["t"] = w.now()
	w.last = w.now()
	w.rec.Log(m)
}

// settled lets everything that can happen at this instant happen.
func (w *simWorld) settled() {
	for {
		settle()
		if w.sched == "man" || !w.ctl.ReleaseRandom(w.rnd) {
			return
		}
	}
}

// run lets virtual time pass.
func (w *simWorld) run(d time.Duration) {
	end := time.Now().Add(d)
	for {
		w.settled()
		left := time.Until(end)
		if left <= 0 {
			return
		}
		if w.sched == "" || w.sched == "man" {
			sleep(left)
			continue
		}
		t := time.NewTimer(left)
		select {
		case <-t.C:
		case <-w.ctl.wake:
		}
		t.Stop()
	}
}

func (w *simWorld) close() {
	w.ctl.Disable()
	settle()
	w.db.Close()
}

// planFaults chooses the fault points of a scenario from the statements a run without faults executed.
func planFaults(p *faultPlan, stmts []stmtRec, rnd *rng) []*dbFault {
	out := []*dbFault{}
	for _, k := range p.Kinds {
		cand := []stmtRec{}
		for _, s := range stmts {
			if p.Actor != "" && s.Actor != p.Actor {
				continue
			}
			if s.Kind == "rollback" {
				continue
			}
			if p.Lives != "" && strings.HasPrefix(k, "crash") && strings.HasPrefix(s.Actor, p.Lives) {
				continue
			}
			if p.Stmt != "" && s.Kind != p.Stmt {
				continue
			}
			if p.Mod && !s.Mod && s.Kind != "begin" {
				continue
			}
			if (k == "errafter" || k == "crashafter") && s.Kind != "commit" {
				continue
			}
			cand = append(cand, s)
		}
		max := p.Max
		if max == 0 || len(cand) <= max {
			max = len(cand)
		} else {
			// prefer the statements that matter, spread over the rest
			sort.SliceStable(cand, func(i, j int) bool { return cand[i].Mod && !cand[j].Mod })
			mods := 0
			for _, c := range cand {
				if c.Mod {
					mods++
				}
			}
			shuffle := func(a []stmtRec) {
				for i := len(a) - 1; i > 0; i-- {
					j := rnd.n(i + 1)
					a[i], a[j] = a[j], a[i]
				}
			}
			shuffle(cand[:mods])
			shuffle(cand[mods:])
			if mods > max*3/4 && mods < len(cand) { // leave room for reads
				keep := append([]stmtRec{}, cand[:max*3/4]...)
				cand = append(keep, cand[mods:]...)
			}
		}
		if max > len(cand) {
			max = len(cand)
		}
		for _, s := range cand[:max] {
			f := &dbFault{Actor: s.Actor, N: s.N, Kind: k}
			if k == "stall" {
				f.Ms = p.Ms[rnd.n(len(p.Ms))]
			}
			out = append(out, f)
		}
	}
	return out
}

func faultID(f *dbFault) string { return fmt.Sprintf("#%s-%s-%d", f.Kind, f.Actor, f.N) }
