package harness

import (
	"context"
	"errors"
	"sort"
	"time"

	timersql "github.com/bytedance/dddfirework/d_timer/sql"
	"github.com/go-logr/logr"
)

// Timers in a database table, fired by several instances that poll it.
type timerScen struct {
	Fam    string                 `json:"fam"`
	ID     string                 `json:"id"`
	Seed   int                    `json:"seed"`
	Sched  string                 `json:"sched"`
	RI     int                    `json:"ri"`
	Steps  [][]interface{}        `json:"steps"`
	Cron   map[string]interface{} `json:"cron"` // schedule -> [valid, period, offset, delay]
	Cb     map[string]interface{} `json:"cb"`   // key -> list of [ms, result]
	Faults []*dbFault             `json:"dbfaults"`
	Enum   *faultPlan             `json:"enum,omitempty"`
	Case   string                 `json:"case,omitempty"`
}

var timerDDL = []string{
	"CREATE TABLE `ddd_timer` (`id` integer PRIMARY KEY AUTOINCREMENT, `service` varchar(30) CHECK (length(`service`) <= 30), `key` varchar(30) NOT NULL UNIQUE CHECK (length(`key`) <= 30)," +
		" `cron` varchar(30) CHECK (length(`cron`) <= 30), `next_time` datetime NOT NULL, `status` tinyint, `msg` varchar(128) CHECK (length(`msg`) <= 128), `payload` text, `created_at` datetime)",
	// DATETIME without fraction: rounded to the second
	"CREATE TRIGGER rnd_i AFTER INSERT ON ddd_timer BEGIN UPDATE ddd_timer SET next_time = strftime('%Y-%m-%d %H:%M:%S', new.next_time, '+0.5 seconds') || '.000' WHERE id = new.id; END",
	"CREATE TRIGGER rnd_u AFTER UPDATE OF next_time ON ddd_timer BEGIN UPDATE ddd_timer SET next_time = strftime('%Y-%m-%d %H:%M:%S', new.next_time, '+0.5 seconds') || '.000' WHERE id = new.id; END",
}

type timerProc struct {
	name string
	t    *timersql.DBTimer
}

type timerWorld struct {
	*simWorld
	s     *timerScen
	procs map[string]*timerProc
	rows  map[string]string
	cseq  int
	nth   map[string]int
	hand  map[string]chan string // process -> callback that ends by hand
}

func (w *timerWorld) lk() func() { w.db.mu.Lock(); return w.db.mu.Unlock }

func (w *timerWorld) proc(n, svc string) *timerProc {
	if p := w.procs[n]; p != nil {
		return p
	}
	p := &timerProc{name: n}
	p.t = timersql.NewDBTimer(svc, w.db.Gorm(n), func(o *timersql.Options) { o.RunInterval, o.Logger = ms(w.s.RI), logr.Discard() })
	p.t.RegisterTimerHandler(func(ctx context.Context, key, cron string, data []byte) error {
		return w.callback(p, key, cron, string(data))
	})
	w.procs[n] = p
	w.log(M{"op": "proc", "i": n, "svc": svc})
	return p
}

// note records something a process does; a dead process does nothing any more.
func (w *timerWorld) note(n string, m M) {
	w.db.mu.Lock()
	if w.db.dead[n] {
		w.db.park()
	}
	w.log(m)
	w.db.mu.Unlock()
}

func (w *timerWorld) callback(p *timerProc, key, cron, data string) error {
	w.note(p.name, M{"op": "fire", "i": p.name, "key": key, "cron": cron, "data": data})
	w.db.mu.Lock()
	n := w.nth[key]
	w.nth[key]++
	w.db.mu.Unlock()
	d, r := 0, "ok"
	if l, ok := w.s.Cb[key].([]interface{}); ok && len(l) > 0 {
		b := l[n%len(l)].([]interface{})
		d, r = num(b[0]), str(b[1])
	}
	if d < 0 { // until the scenario says so
		ch := make(chan string)
		w.db.mu.Lock()
		w.hand[p.name] = ch
		w.db.mu.Unlock()
		r = <-ch
	} else if d > 0 {
		sleep(ms(d))
	}
	w.note(p.name, M{"op": "fired", "i": p.name, "key": key, "r": r})
	if r == "ok" {
		return nil
	}
	return errors.New("callback failed")
}

func (w *timerWorld) snap(actor string) {
	cur := map[string]string{}
	full := map[string]M{}
	for _, r := range w.db.Query("SELECT `key`, service, id, next_time, status, cron, payload FROM ddd_timer ORDER BY `key`") {
		k := str2(r[0])
		st := map[int]string{1: "run", 2: "done", 3: "failed"}[int(r[4].(int64))]
		m := M{"key": k, "svc": str2(r[1]), "id": r[2], "next": w.at(r[3]), "st": st, "cron": str2(r[5]), "data": str2(r[6])}
		cur[k] = string(mustJSON(m))
		full[k] = m
	}
	ks := []string{}
	for k := range w.rows {
		if _, ok := cur[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w.log(M{"op": "gone", "i": actor, "key": k})
	}
	ks = nil
	for k := range cur {
		if w.rows[k] != cur[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := full[k]
		m["op"], m["i"] = "row", actor
		w.log(m)
	}
	w.rows = cur
}

// call runs an API call of a process in the background.
func (w *timerWorld) call(p *timerProc, k, key, cron, data string, at int, f func() error) {
	cr, valid, fit := M{"p": 1000, "o": 0, "e": 0}, true, len(key) <= 30
	if k == "cron" {
		c, ok := w.s.Cron[cron].([]interface{})
		valid = ok && num(c[0]) > 0
		fit = fit && ok && num(c[0]) == 1 // 2: understood, but not storable
		if valid {
			cr = M{"p": num(c[1]), "o": num(c[2]), "e": num(c[3])}
		}
	}
	w.db.mu.Lock()
	if w.db.dead[p.name] {
		w.db.mu.Unlock()
		return
	}
	w.cseq++
	c := w.cseq
	w.log(M{"op": "call", "c": c, "i": p.name, "k": k, "key": key, "cron": cron, "cr": cr, "valid": valid, "fit": fit, "at": at, "data": data})
	w.db.mu.Unlock()
	go func() {
		err := f()
		r := "ok"
		if err != nil {
			r = "err"
		}
		w.note(p.name, M{"op": "ret", "c": c, "r": r})
	}()
}

func (w *timerWorld) step(st []interface{}) {
	arg := func(i int) string {
		if i < len(st) {
			return str(st[i])
		}
		return ""
	}
	switch arg(0) {
	case "boot": // i, service
		p := w.proc(arg(1), arg(2))
		w.note(p.name, M{"op": "boot", "i": p.name})
		p.t.Start(context.Background())
		if len(st) > 3 { // started more than once
			p.t.Start(context.Background())
		}
	case "cron": // i, service, key, schedule, data
		p := w.proc(arg(1), arg(2))
		w.call(p, "cron", arg(3), arg(4), arg(5), 0, func() error { return p.t.RunCron(arg(3), arg(4), []byte(arg(5))) })
	case "once": // i, service, key, in how many ms, data
		p := w.proc(arg(1), arg(2))
		at := time.Now().Add(ms(num(st[4])))
		w.call(p, "once", arg(3), "", arg(5), w.at(at), func() error { return p.t.RunOnce(arg(3), at, []byte(arg(5))) })
	case "cancel": // i, service, key
		p := w.proc(arg(1), arg(2))
		w.call(p, "cancel", arg(3), "", "", 0, func() error { return p.t.Cancel(arg(3)) })
	case "crash":
		w.db.mu.Lock()
		if !w.db.dead[arg(1)] && w.procs[arg(1)] != nil {
			w.log(M{"op": "crash", "i": arg(1)})
			w.db.kill(arg(1))
		}
		w.db.mu.Unlock()
	case "fin": // i, result
		w.db.mu.Lock()
		ch := w.hand[arg(1)]
		delete(w.hand, arg(1))
		w.db.mu.Unlock()
		if ch != nil {
			ch <- arg(2)
		}
	case "go":
		w.advance(arg(1))
	case "par":
		for _, x := range st[1:] {
			w.step(x.([]interface{}))
		}
		return
	case "wait":
		w.run(ms(num(st[1])))
		w.db.mu.Lock()
		w.log(M{"op": "tick"})
		w.db.mu.Unlock()
	case "end": // whatever is held back proceeds
		w.s.Cb = nil
		ns := []string{}
		w.db.mu.Lock()
		for n := range w.hand {
			ns = append(ns, n)
		}
		w.db.mu.Unlock()
		sort.Strings(ns)
		w.ctl.Disable()
		for _, n := range ns {
			w.step([]interface{}{"fin", n, "ok"})
		}
		settle()
		w.db.mu.Lock()
		w.log(M{"op": "calm"})
		w.db.mu.Unlock()
	default:
		panic("unknown timer step " + arg(0))
	}
}

// advance releases the statements of one transaction (or one statement outside) of an actor.
func (w *timerWorld) advance(n string) {
	settle()
	for k := 0; k < 20; k++ {
		if !w.ctl.Release(n) {
			return
		}
		settle()
		w.db.mu.Lock()
		inTx := false
		for _, c := range w.db.conns {
			if c.actor == n && c.tx != nil {
				inTx = true
			}
		}
		if w.hand[n] != nil {
			inTx = false
		}
		w.db.mu.Unlock()
		if !inTx {
			return
		}
	}
}

func RunTimerScenario(s *timerScen) ([]M, []stmtRec) {
	w := &timerWorld{s: s, procs: map[string]*timerProc{}, rows: map[string]string{}, nth: map[string]int{}, hand: map[string]chan string{}}
	n := time.Now()
	sleep(n.Truncate(time.Hour).Add(time.Hour).Sub(n)) // schedules are counted from a full hour
	w.simWorld = newSimWorld(timerDDL, s.Sched, s.Seed, s.Faults)
	defer w.close()
	w.db.onCommit = w.snap
	slack := 50
	for _, f := range s.Faults {
		slack += f.Ms
	}
	w.log(M{"op": "cfg", "ri": s.RI, "slack": slack, "calm": s.Sched != "man"})
	for _, st := range s.Steps {
		w.step(st)
		w.settled()
	}
	return w.rec.Lines(), w.db.stmts
}

func (s *timerScen) run() ([]M, []stmtRec)   { return RunTimerScenario(s) }
func (s *timerScen) enum() (*faultPlan, int) { p := s.Enum; s.Enum = nil; return p, s.Seed }
func (s *timerScen) fault(f *dbFault)        { s.Faults = append(s.Faults, f) }
