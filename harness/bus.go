package harness

import (
	"context"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"
	"github.com/go-logr/logr"
	"gorm.io/gorm"
)

// ---------------------------------------------------------------- scenario

type busEvSpec struct {
	N   string `json:"n"`
	St  string `json:"st"`  // "", fifo, lax
	Snd string `json:"snd"` // sender
	ID  string `json:"id"`  // explicit event id
	Pad int    `json:"pad"` // payload size
}

type busSvc struct {
	N      string `json:"n"`
	Retry  string `json:"retry"` // int, lim, cus, cusopt, own, def
	Ms     int    `json:"ms"`
	Limit  int    `json:"limit"`
	List   []int  `json:"list"`
	Conc   int    `json:"conc"`
	Batch  int    `json:"batch"`
	Run    int    `json:"run"`    // polling interval
	Retain int    `json:"retain"` // retention time
	Clean  string `json:"clean"`
	TX     int    `json:"tx"` // tx check timeout
}

type faultPlan struct {
	Kinds []string `json:"kinds"`
	Max   int      `json:"max"`
	Ms    []int    `json:"ms"`
	Mod   bool     `json:"mod"` // only statements that matter for what is stored
	Actor string   `json:"a"`
	Stmt  string   `json:"stmt"`  // only statements of this kind
	Lives string   `json:"lives"` // processes with this prefix do not die
}

type busScen struct {
	Fam    string              `json:"fam"`
	ID     string              `json:"id"`
	Seed   int                 `json:"seed"`
	Sched  string              `json:"sched"` // "" or "rnd"
	Svcs   []busSvc            `json:"svcs"`
	Steps  [][]interface{}     `json:"steps"`
	Res    map[string][]string `json:"res"`
	Ans    map[string][]string `json:"ans"`
	Faults []*dbFault          `json:"dbfaults"`
	Enum   *faultPlan          `json:"enum,omitempty"`
	Case   string              `json:"case,omitempty"`
}

type busEv struct {
	N   string
	Pad string
}

func (e *busEv) GetType() dddfirework.EventType { return "T" }
func (e *busEv) GetSender() string              { return e.N[:strings.Index(e.N+"@", "@")] }

var busDDL = []string{
	"CREATE TABLE `ddd_domain_event` (`id` integer PRIMARY KEY AUTOINCREMENT, `event_id` varchar(64) NOT NULL CHECK(length(event_id)<=64), `sender` varchar(255), `event` text NOT NULL CHECK(length(CAST(event AS BLOB))<=65535), `trans_id` integer, `event_created_at` datetime, `created_at` datetime)",
	"CREATE TABLE `ddd_event_transaction` (`id` integer PRIMARY KEY AUTOINCREMENT, `service` varchar(30) NOT NULL, `events` text CHECK(length(CAST(events AS BLOB))<=65535), `due_time` datetime, `created_at` datetime)",
	"CREATE TABLE `ddd_eventbus_service` (`name` varchar(30) NOT NULL PRIMARY KEY, `created_at` datetime, `updated_at` datetime)",
	"CREATE TABLE `ddd_domain_service_event` (`id` integer PRIMARY KEY AUTOINCREMENT, `service` varchar(30), `event_id` bigint NOT NULL, `retry_count` int, `status` tinyint, `failed_message` text CHECK(length(CAST(failed_message AS BLOB))<=65535), `event_created_at` datetime NOT NULL, `next_time` datetime NOT NULL, `run_at` datetime DEFAULT '1970-01-01 00:00:01', UNIQUE(service,event_id))",
}

// ---------------------------------------------------------------- world

type busInst struct {
	name, svc string
	bus       *busmysql.EventBus
	eng       *dddfirework.Engine
	tx        map[string]context.Context
	txev      map[string][]string
}

type busWorld struct {
	*simWorld
	s     *busScen
	insts map[string]*busInst
	evs   map[string]*dddfirework.DomainEvent
	tries map[string]int
	asks  map[string]int
	hseq  int
	cseq  int
	// last snapshot
	ev, del, xs map[string]M
	svcs        map[string]bool
	oper        *gorm.DB
	raw         string
}

type ownRetry struct{ ms, limit int }

func (o *ownRetry) Next(i *busmysql.RetryInfo) *busmysql.RetryInfo {
	if i.RetryCount >= o.limit {
		return nil
	}
	return &busmysql.RetryInfo{ID: i.ID, RetryCount: i.RetryCount + 1, RetryTime: time.Now().Add(time.Duration((i.RetryCount+1)*o.ms) * time.Millisecond)}
}
func (o *ownRetry) RetryCount() int { return o.limit }

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

type nopExec struct{}

func (nopExec) Begin(ctx context.Context) (context.Context, error) { return ctx, nil }
func (nopExec) Commit(ctx context.Context) error                   { return nil }
func (nopExec) RollBack(ctx context.Context) error                 { return nil }
func (nopExec) Entity2Model(e, p dddfirework.IEntity, op dddfirework.OpType) (dddfirework.IModel, error) {
	return nil, dddfirework.ErrEntityNotRegister
}
func (nopExec) Model2Entity(m dddfirework.IModel, e dddfirework.IEntity) error { return nil }
func (nopExec) Exec(ctx context.Context, a *dddfirework.Action) error          { return nil }

// quietBus keeps the driver's handler and checker registered when an engine runs a command.
type quietBus struct{ *busmysql.EventBus }

func (quietBus) RegisterEventHandler(cb dddfirework.DomainEventHandler)     {}
func (quietBus) RegisterEventTXChecker(cb dddfirework.DomainEventTXChecker) {}

func (w *busWorld) svc(n string) *busSvc {
	for i := range w.s.Svcs {
		if w.s.Svcs[i].N == n {
			return &w.s.Svcs[i]
		}
	}
	panic("no service " + n)
}

func (w *busWorld) up(inst, svc string, start bool) {
	c := w.svc(svc)
	g := w.db.Gorm(inst)
	b := busmysql.NewEventBus(svc, g, func(o *busmysql.Options) {
		o.Logger = logr.Discard()
		if c.Run > 0 {
			o.RunInterval = ms(c.Run)
		}
		if c.Conc > 0 {
			o.ConsumeConcurrent = c.Conc
		}
		if c.Batch > 0 {
			o.LimitPerRun = c.Batch
		}
		if c.Retain > 0 {
			o.RetentionTime = ms(c.Retain)
		}
		if c.Clean != "" {
			o.CleanCron = c.Clean
		}
		if c.TX > 0 {
			o.TXCheckTimeout = ms(c.TX)
		}
		list := []time.Duration{}
		for _, x := range c.List {
			list = append(list, ms(x))
		}
		switch c.Retry {
		case "int":
			o.RetryInterval, o.RetryLimit = ms(c.Ms), c.Limit
		case "ints":
			o.RetryStrategy = &busmysql.IntervalRetry{Interval: ms(c.Ms), Limit: c.Limit}
		case "lim":
			o.RetryStrategy = &busmysql.LimitRetry{Limit: c.Limit}
		case "cus":
			o.RetryStrategy = &busmysql.CustomRetry{Intervals: list}
		case "cusopt":
			o.CustomRetry = list
		case "own":
			o.RetryStrategy = &ownRetry{c.Ms, c.Limit}
		}
	})
	e := dddfirework.NewEngine(nil, nopExec{}, append(b.Options(), dddfirework.WithEventBus(quietBus{b}))...)
	n := &busInst{name: inst, svc: svc, bus: b, eng: e, tx: map[string]context.Context{}, txev: map[string][]string{}}
	w.insts[inst] = n
	b.RegisterEventHandler(func(ctx context.Context, evt *dddfirework.DomainEvent) error { return w.handle(n, evt) })
	b.RegisterEventTXChecker(func(evt *dddfirework.DomainEvent) dddfirework.TXStatus { return w.answer(n, evt) })
	w.log(M{"op": "up", "i": inst, "svc": svc, "start": start})
	if start {
		b.Start(context.Background())
	}
}

func evName(p []byte) string {
	x := busEv{}
	_ = json.Unmarshal(p, &x)
	return x.N
}

// alive locks the world for a step of instance n; the calls of a dead process go nowhere.
func (w *busWorld) alive(n *busInst) {
	w.db.mu.Lock()
	if w.db.dead[n.name] {
		w.db.park()
	}
}

func (w *busWorld) handle(n *busInst, evt *dddfirework.DomainEvent) (err error) {
	name := evName(evt.Payload)
	o := w.evs[name]
	same := o != nil && o.ID == evt.ID && o.Type == evt.Type && o.SendType == evt.SendType && o.Sender == evt.Sender &&
		string(o.Payload) == string(evt.Payload) && o.CreatedAt.Equal(evt.CreatedAt)
	w.alive(n)
	w.hseq++
	h := w.hseq
	key := n.svc + "/" + name
	k := w.tries[key]
	w.tries[key]++
	w.log(M{"op": "hs", "i": n.name, "n": name, "h": h, "same": same})
	w.db.mu.Unlock()
	r := "ok"
	if l := w.s.Res[key]; len(l) > 0 {
		last := len(l) - 1
		if l[last] == "..." && k >= last {
			r = l[last-1]
		} else if k <= last {
			r = l[k]
		}
	}
	if i := strings.Index(r, ":"); i >= 0 {
		var d int
		fmt.Sscan(r[i+1:], &d)
		r = r[:i]
		time.Sleep(ms(d))
	}
	if r == "crash" {
		w.alive(n)
		w.log(M{"op": "crash", "i": n.name})
		w.db.kill(n.name)
		w.db.park()
	}
	w.alive(n)
	tok := k + 1
	w.log(M{"op": "he", "i": n.name, "n": name, "h": h, "r": map[bool]string{true: "ok", false: "bad"}[r == "ok"], "m": tok})
	w.db.mu.Unlock()
	msg := fmt.Sprintf("<%d> bad", tok)
	switch r {
	case "err":
		return fmt.Errorf("%s", msg)
	case "errlong":
		return fmt.Errorf("%s %s", msg, strings.Repeat("x", 70000))
	case "errwide":
		return fmt.Errorf("%s%s", msg, strings.Repeat("错", 30000))
	case "errbytes":
		return fmt.Errorf("%s \xff\xfe", msg)
	case "pan":
		panic(msg)
	case "panerr":
		panic(fmt.Errorf("%s", msg))
	}
	return nil
}

func (w *busWorld) answer(n *busInst, evt *dddfirework.DomainEvent) dddfirework.TXStatus {
	name := evName(evt.Payload)
	o := w.evs[name]
	same := o != nil && o.ID == evt.ID && string(o.Payload) == string(evt.Payload) && o.Type == evt.Type
	w.alive(n)
	k := w.asks[name]
	w.asks[name]++
	w.log(M{"op": "ask", "i": n.name, "n": name, "same": same})
	w.db.mu.Unlock()
	r := "commit"
	if l := w.s.Ans[name]; len(l) > 0 {
		if k >= len(l) {
			k = len(l) - 1
		}
		r = l[k]
	}
	if i := strings.Index(r, ":"); i >= 0 {
		var d int
		fmt.Sscan(r[i+1:], &d)
		r = r[:i]
		time.Sleep(ms(d))
	}
	w.alive(n)
	w.log(M{"op": "ans", "i": n.name, "n": name, "r": r})
	w.db.mu.Unlock()
	switch r {
	case "commit":
		return dddfirework.TXCommit
	case "rollback":
		return dddfirework.TXRollBack
	}
	return dddfirework.TXUnknown
}

// snap reads the tables and logs what the commit of actor changed (db.mu held).
func (w *busWorld) snap(actor string) {
	ev, del, xs, svcs := map[string]M{}, map[string]M{}, map[string]M{}, map[string]bool{}
	evRows := w.db.Query("SELECT id, sender, event, event_created_at FROM ddd_domain_event ORDER BY id")
	dRows := w.db.Query("SELECT service, event_id, status, retry_count, next_time, event_created_at, failed_message, id FROM ddd_domain_service_event")
	xRows := w.db.Query("SELECT id, service, events, due_time FROM ddd_event_transaction")
	sRows := w.db.Query("SELECT name FROM ddd_eventbus_service")
	raw := strings.Builder{}
	for _, rows := range [][][]driver.Value{evRows, dRows, xRows, sRows} {
		for _, r := range rows {
			for _, v := range r {
				if t, ok := v.(time.Time); ok {
					v = t.UnixNano()
				}
				if n, ok := v.(int64); ok {
					raw.WriteString(strconv.FormatInt(n, 36))
				} else {
					raw.WriteString(str2(v))
				}
				raw.WriteByte(0)
			}
		}
		raw.WriteByte(1)
	}
	if raw.String() == w.raw {
		return
	}
	w.raw = raw.String()
	for _, r := range evRows {
		d := dddfirework.DomainEvent{}
		_ = json.Unmarshal([]byte(str2(r[2])), &d)
		id := fmt.Sprint(r[0])
		ev[id] = M{"id": int(r[0].(int64)), "n": evName(d.Payload), "snd": str2(r[1]), "c": w.at(r[3])}
	}
	for _, r := range dRows {
		k := fmt.Sprintf("%v/%v", r[0], r[1])
		msg := str2(r[6])
		m := 0
		if i := strings.Index(msg, "<"); i >= 0 && strings.Contains(msg, "> bad") {
			fmt.Sscan(msg[i+1:], &m)
		} else if msg != "" {
			m = -1
		}
		del[k] = M{"svc": str2(r[0]), "ev": int(r[1].(int64)), "st": int(r[2].(int64)), "rc": int(r[3].(int64)), "next": w.at(r[4]), "c": w.at(r[5]), "m": m}
	}
	for _, r := range xRows {
		ds := []*dddfirework.DomainEvent{}
		_ = json.Unmarshal([]byte(str2(r[2])), &ds)
		ns := []string{}
		for _, d := range ds {
			ns = append(ns, evName(d.Payload))
		}
		xs[fmt.Sprint(r[0])] = M{"x": int(r[0].(int64)), "svc": str2(r[1]), "ns": ns, "due": w.at(r[3])}
	}
	for _, r := range sRows {
		svcs[str2(r[0])] = true
	}
	m := M{"op": "db", "i": actor}
	any := false
	diff := func(key string, old, cur map[string]M, upd bool) {
		add, up, gone := []M{}, []M{}, []M{}
		for _, k := range sortedKeys(cur) {
			if o, ok := old[k]; !ok {
				add = append(add, cur[k])
			} else if string(mustJSON(o)) != string(mustJSON(cur[k])) {
				up = append(up, cur[k])
			}
		}
		for _, k := range sortedKeys(old) {
			if _, ok := cur[k]; !ok {
				gone = append(gone, old[k])
			}
		}
		m[key+"Add"], m[key+"Upd"], m[key+"Del"] = add, up, gone
		any = any || len(add)+len(up)+len(gone) > 0
	}
	diff("ev", w.ev, ev, true)
	diff("d", w.del, del, true)
	diff("x", w.xs, xs, true)
	sv := []string{}
	for k := range svcs {
		if !w.svcs[k] {
			sv = append(sv, k)
		}
	}
	sort.Strings(sv)
	m["svcAdd"] = sv
	any = any || len(sv) > 0
	w.ev, w.del, w.xs, w.svcs = ev, del, xs, svcs
	if any {
		w.log(m)
	}
}

func str2(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		return string(x)
	case string:
		return x
	case nil:
		return ""
	}
	return fmt.Sprint(v)
}

func sortedKeys(m map[string]M) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (w *busWorld) mkEvents(v interface{}) ([]*dddfirework.DomainEvent, []M, []string) {
	specs := []busEvSpec{}
	if err := json.Unmarshal(mustJSON(v), &specs); err != nil {
		panic(err)
	}
	evs, ms, ns := []*dddfirework.DomainEvent{}, []M{}, []string{}
	for _, s := range specs {
		st := dddfirework.SendTypeNormal
		switch s.St {
		case "fifo":
			st = dddfirework.SendTypeFIFO
		case "lax":
			st = dddfirework.SendTypeLaxFIFO
		case "tx":
			st = dddfirework.SendTypeTransaction
		}
		e := dddfirework.NewDomainEvent(&busEv{N: s.N, Pad: strings.Repeat("p", s.Pad)}, dddfirework.WithSendType(st))
		e.Sender = s.Snd
		if s.ID != "" {
			e.ID = s.ID
		}
		w.evs[s.N] = e
		evs = append(evs, e)
		k := s.St
		if k == "" || k == "tx" {
			k = "n"
		}
		ms = append(ms, M{"n": s.N, "st": k, "snd": s.Snd, "c": w.at(e.CreatedAt)})
		ns = append(ns, s.N)
	}
	return evs, ms, ns
}

// call runs an API call of an instance in its own goroutine.
func (w *busWorld) call(n *busInst, k string, evs []M, ns []string, f func() error) {
	w.cseq++
	c := w.cseq
	w.db.mu.Lock()
	if w.db.dead[n.name] {
		w.db.mu.Unlock()
		return
	}
	w.log(M{"op": "call", "i": n.name, "k": k, "c": c, "evs": evs, "ns": ns})
	w.db.mu.Unlock()
	w.goes++
	go func() {
		err := f()
		w.db.mu.Lock()
		defer w.db.mu.Unlock()
		if w.db.dead[n.name] {
			return
		}
		w.log(M{"op": "ret", "i": n.name, "c": c, "ok": err == nil, "k": k})
	}()
}

func (w *busWorld) step(st []interface{}) {
	op := str(st[0])
	arg := func(i int) string {
		if i < len(st) {
			return str(st[i])
		}
		return ""
	}
	inst := func() *busInst {
		n := w.insts[arg(1)]
		if n == nil || n.bus == nil || w.db.Dead(n.name) {
			return nil
		}
		return n
	}
	switch op {
	case "up", "reg":
		if w.insts[arg(1)] == nil {
			w.goes++
			w.insts[arg(1)] = &busInst{name: arg(1)}
			go w.up(arg(1), arg(2), op == "up")
		}
	case "disp":
		if n := inst(); n != nil {
			evs, m, ns := w.mkEvents(st[2])
			w.call(n, "disp", m, ns, func() error { return n.bus.Dispatch(context.Background(), evs...) })
		}
	case "begin":
		if n := inst(); n != nil {
			evs, m, ns := w.mkEvents(st[3])
			x := arg(2)
			n.txev[x] = ns
			w.call(n, "begin", m, ns, func() error {
				ctx, err := n.bus.DispatchBegin(context.Background(), evs...)
				if err == nil {
					n.tx[x] = ctx
				}
				return err
			})
		}
	case "commit", "rollback":
		if n := inst(); n != nil && n.tx[arg(2)] != nil {
			ctx := n.tx[arg(2)]
			w.call(n, op, []M{}, n.txev[arg(2)], func() error {
				if op == "commit" {
					return n.bus.Commit(ctx)
				}
				return n.bus.Rollback(ctx)
			})
		}
	case "poke":
		if n := inst(); n != nil {
			w.goes++
			go n.eng.Run(context.Background(), func(ctx context.Context, repo *dddfirework.Repository) error { return nil })
		}
	case "crash":
		if n := inst(); n != nil {
			w.db.mu.Lock()
			w.log(M{"op": "crash", "i": n.name})
			w.db.kill(n.name)
			w.db.mu.Unlock()
		}
	case "expire":
		if w.insts["operator"] == nil {
			w.insts["operator"] = &busInst{name: "operator"}
			w.oper = w.db.Gorm("operator")
		}
		for _, r := range w.db.Query("SELECT id, event FROM ddd_domain_event") {
			d := dddfirework.DomainEvent{}
			_ = json.Unmarshal([]byte(str2(r[1])), &d)
			if evName(d.Payload) == arg(2) {
				id := r[0]
				w.goes++
				go w.oper.Exec("UPDATE ddd_domain_service_event SET status=31 WHERE service=? AND event_id=? AND status=21", arg(1), id)
			}
		}
	case "par":
		for _, x := range st[1:] {
			w.step(x.([]interface{}))
		}
	case "wait":
		w.run(ms(num(st[1])))
	case "drain":
		clean := len(st) > 3 && truth(st[3])
		w.drain(num(st[1]), num(st[2]), clean)
	default:
		panic("unknown bus step " + op)
	}
}

// drain lets an undisturbed period pass: at least until nothing is left to do for a while,
// at most total ms, but never less than g ms after the last disturbance.
func (w *busWorld) drain(total, g int, clean bool) {
	from, slice := w.now(), 100
	for _, c := range w.s.Svcs {
		if c.Run > slice {
			slice = c.Run
		}
	}
	// nothing can happen any more once nothing happened for longer than any interval
	most := 0
	for _, c := range w.s.Svcs {
		x := c.Ms
		if c.Retry == "own" {
			x = c.Ms * (c.Limit + 1)
		}
		if c.Retry == "def" || c.Retry == "" {
			x = 3000
		}
		for _, l := range c.List {
			if l > x {
				x = l
			}
		}
		if c.TX > x {
			x = c.TX
		}
		if c.Retain > 0 && c.Retain > x {
			x = c.Retain
		}
		if x > most {
			most = x
		}
	}
	end, quiet := from+total, 0
	for quiet < 6 {
		if w.disturbed > from {
			from = w.disturbed
			if from+g > end {
				end = from + g
			}
		}
		if w.now() >= end || !clean && w.now()-from > g && w.now()-w.last > most+g {
			break
		}
		w.run(ms(slice))
		if w.idle(clean) {
			quiet++
		} else {
			quiet = 0
		}
	}
	w.db.mu.Lock()
	if w.disturbed > from {
		from = w.disturbed
	}
	w.log(M{"op": "drain", "from": from, "g": g, "clean": clean})
	w.db.mu.Unlock()
}

func (w *busWorld) idle(clean bool) bool {
	n := func(q string) bool { return len(w.db.Query(q+" LIMIT 1")) > 0 }
	if n("SELECT 1 FROM ddd_domain_service_event WHERE status=0") || n("SELECT 1 FROM ddd_event_transaction") {
		return false
	}
	return !clean || !n("SELECT 1 FROM ddd_domain_event")
}

func RunBusScenario(s *busScen) ([]M, []stmtRec) {
	w := &busWorld{s: s, insts: map[string]*busInst{}, evs: map[string]*dddfirework.DomainEvent{}, tries: map[string]int{}, asks: map[string]int{}}
	w.simWorld = newSimWorld(busDDL, s.Sched, s.Seed, s.Faults)
	w.db.onCommit = w.snap
	defer w.close()
	cfg := []M{}
	for _, c := range s.Svcs {
		l := c.List
		if l == nil {
			l = []int{}
		}
		k := c.Retry
		m, lim := c.Ms, c.Limit
		switch k {
		case "ints":
			k = "int"
		case "lim":
			k, m = "int", 0
		case "cusopt":
			k = "cus"
		case "def", "":
			k, m, lim = "int", 3000, 5
		}
		tx, rt, run := c.TX, c.Retain, c.Run
		if tx == 0 {
			tx = 60000
		}
		if rt == 0 {
			rt = 48 * 3600 * 1000
		}
		if run == 0 {
			run = 100
		}
		cfg = append(cfg, M{"n": c.N, "k": k, "ms": m, "limit": lim, "list": l, "tx": tx, "retain": rt, "run": run})
	}
	w.log(M{"op": "cfg", "svcs": cfg})
	for _, st := range s.Steps {
		w.step(st)
		w.settled()
	}
	return w.rec.Lines(), w.db.stmts
}
