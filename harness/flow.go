package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"
	mysqlexec "github.com/bytedance/dddfirework/executor/mysql"
	lockdb "github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"
	"gorm.io/gorm"
)

// The whole stack: engine, SQL executor, SQL event bus and database lock of
// several processes on one database.

type flowCmd struct {
	C     string         `json:"c"`
	Shape string         `json:"shape"` // func, main
	Ds    map[string]int `json:"ds"`    // account -> what is added
	Items int            `json:"items"` // children added to each account
	Drop  bool           `json:"drop"`  // removes the children it finds
	Evs   []string       `json:"evs"`
	Txs   []string       `json:"txs"`
	Fail  string         `json:"fail"` // "", err, brk, pan
	Save  bool           `json:"save"` // saves in between
	Wait  int            `json:"wait"`
	Dead  int            `json:"dl"` // the caller's context ends after so many ms
}

type flowScen struct {
	Fam    string              `json:"fam"`
	ID     string              `json:"id"`
	Seed   int                 `json:"seed"`
	Sched  string              `json:"sched"`
	Run    int                 `json:"run"`
	Lat    int                 `json:"lat"` // statements take up to so many ms
	TX     int                 `json:"tx"`
	TTL    int                 `json:"ttl"`
	Init   map[string]int      `json:"init"`
	Chain  map[string]flowCmd  `json:"chain"` // service/event -> the command its handler runs
	Res    map[string][]string `json:"res"`
	Steps  [][]interface{}     `json:"steps"`
	Faults []*dbFault          `json:"dbfaults"`
	Enum   *faultPlan          `json:"enum,omitempty"`
	Case   string              `json:"case,omitempty"`
}

func (s *flowScen) run() ([]M, []stmtRec)   { return RunFlowScenario(s) }
func (s *flowScen) enum() (*faultPlan, int) { p := s.Enum; s.Enum = nil; return p, s.Seed }
func (s *flowScen) fault(f *dbFault)        { s.Faults = append(s.Faults, f) }

// ---- what is stored

type flowAcc struct {
	ddd.BaseEntity
	Val   int
	By    string
	Items []*flowItem
}
type flowItem struct {
	ddd.BaseEntity
	By string
}
type flowAccPO struct {
	ID  string `gorm:"primaryKey"`
	Val int
	By  string
}
type flowItemPO struct {
	ID  string `gorm:"primaryKey"`
	Acc string
	By  string
}
type flowLogPO struct {
	ID string `gorm:"primaryKey"`
	By string
}

func (p *flowAccPO) GetID() string      { return p.ID }
func (p *flowAccPO) TableName() string  { return "acc" }
func (p *flowItemPO) GetID() string     { return p.ID }
func (p *flowItemPO) TableName() string { return "item" }
func (p *flowLogPO) GetID() string      { return p.ID }
func (p *flowLogPO) TableName() string  { return "evlog" }

var flowDDL = []string{
	"CREATE TABLE `acc` (`id` varchar(64) NOT NULL PRIMARY KEY, `val` integer, `by` varchar(64))",
	"CREATE TABLE `item` (`id` varchar(64) NOT NULL PRIMARY KEY, `acc` varchar(64), `by` varchar(64))",
	"CREATE TABLE `evlog` (`id` varchar(64) NOT NULL PRIMARY KEY, `by` varchar(64))",
}
var flowLockDDL = []string{
	"CREATE TABLE `resource_lock` (`id` integer PRIMARY KEY AUTOINCREMENT, `resource` varchar(255) NOT NULL UNIQUE, `locker_id` varchar(255), `created_at` datetime, `updated_at` datetime)",
}

func init() {
	mysqlexec.RegisterEntity2Model(&flowAcc{}, func(e, p ddd.IEntity, op ddd.OpType) (mysqlexec.IModel, error) {
		a := e.(*flowAcc)
		return &flowAccPO{ID: a.GetID(), Val: a.Val, By: a.By}, nil
	}, func(po mysqlexec.IModel, e ddd.IEntity) error {
		a, m := e.(*flowAcc), po.(*flowAccPO)
		a.SetID(m.ID)
		a.Val, a.By = m.Val, m.By
		return nil
	})
	mysqlexec.RegisterEntity2Model(&flowItem{}, func(e, p ddd.IEntity, op ddd.OpType) (mysqlexec.IModel, error) {
		a := e.(*flowItem)
		m := &flowItemPO{ID: a.GetID(), By: a.By}
		if p != nil {
			m.Acc = p.GetID()
		}
		return m, nil
	}, func(po mysqlexec.IModel, e ddd.IEntity) error {
		a, m := e.(*flowItem), po.(*flowItemPO)
		a.SetID(m.ID)
		a.By = m.By
		return nil
	})
}

// ---- world

type flowInst struct {
	name, svc string
	bus       *busmysql.EventBus
	eng       *ddd.Engine
	g         *gorm.DB
}

type flowWorld struct {
	*simWorld
	s     *flowScen
	insts map[string]*flowInst
	by    map[string]string // event -> its command
	data  map[string]string // event -> payload
	tries map[string]int
	hseq  int
	idseq int64
	live  int // commands under way in processes that live
	acc   map[string]string
	item  map[string]string
	elog  map[string]string
	svcs  map[string]bool
}

type flowIDs struct{ w *flowWorld }

func (f flowIDs) NewID() (string, error) {
	return fmt.Sprintf("id%d", atomic.AddInt64(&f.w.idseq, 1)), nil
}

func (w *flowWorld) up(inst, svc string) {
	g := w.db.Gorm(inst)
	b := busmysql.NewEventBus(svc, w.db.GormIn(inst, "bus"), func(o *busmysql.Options) {
		o.Logger = logr.Discard()
		o.RunInterval = ms(w.s.Run)
		o.TXCheckTimeout = ms(w.s.TX)
		o.RetryInterval, o.RetryLimit = ms(700), 40
	})
	lk := lockdb.NewDBLock(w.db.GormIn(inst, "lock"), ms(w.s.TTL), func(o *lockdb.Options) { o.RenewInterval, o.Logger = ms(500), logr.Discard() })
	opts := append(b.Options(), ddd.WithEventBus(quietBus{b}), ddd.WithIDGenerator(flowIDs{w}), ddd.WithLogger(logr.Discard()),
		ddd.WithEventPersist(func(evt *ddd.DomainEvent) (ddd.IModel, error) {
			n := evName(evt.Payload)
			return &flowLogPO{ID: n, By: w.owner(n)}, nil
		}))
	n := &flowInst{name: inst, svc: svc, bus: b, eng: ddd.NewEngine(lk, mysqlexec.NewExecutor(g), opts...), g: g}
	w.insts[inst] = n
	b.RegisterEventHandler(func(ctx context.Context, evt *ddd.DomainEvent) error { return w.handle(n, evt) })
	b.RegisterEventTXChecker(func(evt *ddd.DomainEvent) ddd.TXStatus { return w.answer(n, evt) })
	w.log(M{"op": "up", "i": inst, "svc": svc})
	b.Start(context.Background())
}

func (w *flowWorld) owner(ev string) string {
	if i := strings.LastIndex(ev, "."); i >= 0 {
		return ev[:i]
	}
	return "?"
}

func (w *flowWorld) alive(n *flowInst) {
	w.db.mu.Lock()
	if w.db.dead[n.name] {
		w.db.park()
	}
}

// ---- commands

type flowMain struct {
	w *flowWorld
	n *flowInst
	c *flowCmd
}

func (m *flowMain) keys() []string {
	ks := []string{}
	for k := range m.c.Ds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i := range ks { // the order of declaration must not matter
		j := (i + len(m.c.C)) % len(ks)
		ks[i], ks[j] = ks[j], ks[i]
	}
	return ks
}

func (m *flowMain) Init(ctx context.Context) ([]string, error) { return m.keys(), nil }

var errFlow = errors.New("command refuses")

func (m *flowMain) Main(ctx context.Context, repo *ddd.Repository) error {
	c := m.c
	var first *flowAcc
	for i, k := range m.keys() {
		a := &flowAcc{}
		a.SetID(k)
		if err := repo.Get(ctx, a, &a.Items); err != nil {
			return err
		}
		if c.Wait > 0 {
			time.Sleep(ms(c.Wait))
		}
		if c.Drop {
			a.Items = nil
		}
		for j := 0; j < c.Items; j++ {
			a.Items = append(a.Items, &flowItem{By: c.C})
		}
		a.Val += c.Ds[k]
		a.By = c.C
		a.Dirty()
		if i == 0 {
			first = a
		}
		if c.Save && i == 0 {
			if err := repo.Save(ctx); err != nil {
				return err
			}
		}
	}
	for i := 0; i < len(c.Evs)+len(c.Txs); i++ {
		n, st := "", ddd.SendTypeNormal
		if i < len(c.Evs) {
			n = c.Evs[i]
		} else {
			n, st = c.Txs[i-len(c.Evs)], ddd.SendTypeTransaction
		}
		first.AddEvent(&busEv{N: n}, ddd.WithSendType(st))
	}
	switch c.Fail {
	case "err":
		return errFlow
	case "brk":
		return ddd.ErrBreak
	case "pan":
		panic(errFlow)
	}
	return nil
}

// cmd runs a command in process n and reports how it ended.
func (w *flowWorld) cmd(n *flowInst, c *flowCmd) (err error) {
	w.alive(n)
	ds := []M{}
	for _, k := range sortedInts(c.Ds) {
		ds = append(ds, M{"k": k, "d": c.Ds[k]})
	}
	for _, e := range append(append([]string{}, c.Evs...), c.Txs...) {
		w.by[e] = c.C
	}
	w.log(M{"op": "call", "i": n.name, "c": c.C, "ds": ds, "items": c.Items, "drop": c.Drop, "evs": strs(c.Evs), "txs": strs(c.Txs), "fail": c.Fail, "cx": c.Dead > 0})
	w.db.mu.Unlock()
	m := &flowMain{w, n, c}
	r := "pan"
	func() {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("%v", p)
			}
		}()
		ctx := context.Background()
		if c.Dead > 0 {
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, ms(c.Dead))
			defer cancel()
		}
		var res *ddd.Result
		if c.Shape == "func" && len(c.Ds) > 0 {
			res = n.eng.NewStage().Lock(m.keys()...).Main(m.Main).Save(ctx)
		} else {
			res = n.eng.Run(ctx, m)
		}
		switch {
		case res.Error != nil:
			r, err = "err", res.Error
		case res.Break:
			r = "brk"
		default:
			r = "ok"
		}
	}()
	w.alive(n)
	w.log(M{"op": "ret", "i": n.name, "c": c.C, "r": r})
	w.db.mu.Unlock()
	return err
}

func strs(l []string) []string {
	if l == nil {
		return []string{}
	}
	return l
}

func sortedInts(m map[string]int) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- what the bus asks for

func (w *flowWorld) handle(n *flowInst, evt *ddd.DomainEvent) error {
	name := evName(evt.Payload)
	w.alive(n)
	w.hseq++
	h := w.hseq
	key := n.svc + "/" + name
	k := w.tries[key]
	w.tries[key]++
	w.log(M{"op": "hs", "i": n.name, "svc": n.svc, "n": name, "h": h})
	w.db.mu.Unlock()
	r := "ok"
	if l := w.s.Res[key]; k < len(l) {
		r = l[k]
	}
	if i := strings.Index(r, ":"); i >= 0 {
		var d int
		fmt.Sscan(r[i+1:], &d)
		r = r[:i]
		time.Sleep(ms(d))
	}
	if c, ok := w.s.Chain[key]; ok {
		c.C = fmt.Sprintf("%s'%d", name, h)
		evs := func(l []string) []string {
			out := []string{}
			for _, x := range l {
				out = append(out, c.C+"."+x)
			}
			return out
		}
		c.Evs, c.Txs = evs(c.Evs), evs(c.Txs)
		if err := w.cmd(n, &c); err != nil {
			r = "err"
		}
	}
	w.alive(n)
	w.log(M{"op": "he", "i": n.name, "svc": n.svc, "n": name, "h": h, "r": r})
	w.db.mu.Unlock()
	if r != "ok" {
		return errors.New("handler fails")
	}
	return nil
}

// answer looks whether the work the message belongs to is stored.
func (w *flowWorld) answer(n *flowInst, evt *ddd.DomainEvent) ddd.TXStatus {
	w.alive(n)
	w.db.mu.Unlock()
	var k int64
	if err := n.g.Model(&flowLogPO{}).Where("id = ?", evName(evt.Payload)).Count(&k).Error; err != nil {
		return ddd.TXUnknown
	}
	if k > 0 {
		return ddd.TXCommit
	}
	return ddd.TXRollBack
}

// ---- what is committed

func (w *flowWorld) snap(actor string) {
	read := func(q string) map[string]string {
		out := map[string]string{}
		for _, r := range w.db.Query(q) {
			l := []string{}
			for _, v := range r[1:] {
				l = append(l, str2(v))
			}
			out[str2(r[0])] = strings.Join(l, "|")
		}
		return out
	}
	acc, item, elog := read("SELECT id, val, `by` FROM acc"), read("SELECT id, acc, `by` FROM item"), read("SELECT id, `by` FROM evlog")
	diff := func(old, cur map[string]string) (set, gone []M) {
		set, gone = []M{}, []M{}
		for _, k := range sortedStrs(cur) {
			if o, ok := old[k]; !ok || o != cur[k] {
				f := strings.Split(cur[k], "|")
				m := M{"k": k, "by": f[len(f)-1], "x": f[0], "was": ok}
				set = append(set, m)
			}
		}
		for _, k := range sortedStrs(old) {
			if _, ok := cur[k]; !ok {
				f := strings.Split(old[k], "|")
				gone = append(gone, M{"k": k, "x": f[0]})
			}
		}
		return
	}
	as, ag := diff(w.acc, acc)
	is, ig := diff(w.item, item)
	es, eg := diff(w.elog, elog)
	for _, a := range as {
		var v int
		fmt.Sscan(a["x"].(string), &v)
		a["v"] = v
	}
	sv := []string{}
	for _, r := range w.db.QueryIn("bus", "SELECT name FROM ddd_eventbus_service") {
		if !w.svcs[str2(r[0])] {
			w.svcs[str2(r[0])] = true
			sv = append(sv, str2(r[0]))
		}
	}
	sort.Strings(sv)
	w.acc, w.item, w.elog = acc, item, elog
	if len(sv) > 0 {
		w.log(M{"op": "svc", "s": sv})
	}
	if len(as)+len(ag)+len(is)+len(ig)+len(es)+len(eg) > 0 {
		w.log(M{"op": "db", "i": actor, "acc": as, "accGone": len(ag), "items": is, "itemsGone": ig, "log": es, "logGone": len(eg)})
	}
}

func sortedStrs(m map[string]string) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- steps

func (w *flowWorld) step(st []interface{}) {
	arg := func(i int) string { return str(st[i]) }
	switch str(st[0]) {
	case "up":
		if w.insts[arg(1)] == nil {
			w.insts[arg(1)] = &flowInst{name: arg(1)}
			w.goes++
			go w.up(arg(1), arg(2))
		}
	case "cmd":
		n := w.insts[arg(1)]
		if n == nil || n.eng == nil || w.db.Dead(n.name) {
			return
		}
		c := &flowCmd{}
		if err := json.Unmarshal(mustJSON(st[2]), c); err != nil {
			panic(err)
		}
		w.goes++
		go func() { _ = w.cmd(n, c) }()
	case "crash":
		n := w.insts[arg(1)]
		if n == nil || w.db.Dead(arg(1)) {
			return
		}
		w.db.mu.Lock()
		w.log(M{"op": "crash", "i": n.name})
		w.db.kill(n.name)
		w.db.mu.Unlock()
	case "par":
		for _, x := range st[1:] {
			w.step(x.([]interface{}))
		}
	case "wait":
		w.run(ms(num(st[1])))
	case "drain":
		w.drain(num(st[1]), num(st[2]))
	default:
		panic("unknown flow step " + arg(0))
	}
}

// drain waits until nothing is left to do; at least min ms, at most max ms.
func (w *flowWorld) drain(min, max int) {
	from, quiet := w.now(), 0
	for w.now()-from < max {
		w.run(ms(w.s.Run))
		if w.disturbed > from {
			from = w.disturbed
		}
		idle := len(w.db.QueryIn("bus", "SELECT 1 FROM ddd_domain_service_event WHERE status=0 LIMIT 1")) == 0 && len(w.db.QueryIn("bus", "SELECT 1 FROM ddd_event_transaction LIMIT 1")) == 0
		if idle {
			quiet++
		} else {
			quiet = 0
		}
		if quiet > 3 && w.now()-from > min && w.now()-w.last > 2*w.s.Run {
			break
		}
	}
	count := func(q string) int { return len(w.db.QueryIn("bus", q)) }
	locks := []string{}
	for _, r := range w.db.QueryIn("lock", "SELECT resource FROM resource_lock ORDER BY resource") {
		locks = append(locks, strings.TrimPrefix(str2(r[0]), "ddd_engine_"))
	}
	w.db.mu.Lock()
	defer w.db.mu.Unlock()
	w.log(M{"op": "end", "msgs": count("SELECT 1 FROM ddd_event_transaction"), "locks": locks})
}

func RunFlowScenario(s *flowScen) ([]M, []stmtRec) {
	w := &flowWorld{s: s, insts: map[string]*flowInst{}, by: map[string]string{}, tries: map[string]int{}, svcs: map[string]bool{}}
	w.simWorld = newSimWorld(flowDDL, s.Sched, s.Seed, s.Faults)
	defer w.close()
	w.db.Space("bus", busDDL)
	w.db.Space("lock", flowLockDDL)
	accs := []M{}
	w.acc, w.item, w.elog = map[string]string{}, map[string]string{}, map[string]string{}
	for _, k := range sortedInts(s.Init) {
		w.db.must("INSERT INTO acc (id, val, `by`) VALUES (?, ?, 'init')", k, int64(s.Init[k]))
		w.acc[k] = fmt.Sprintf("%d|init", s.Init[k])
		accs = append(accs, M{"k": k, "v": s.Init[k]})
	}
	w.log(M{"op": "cfg", "accs": accs})
	w.db.onCommit = w.snap
	if s.Lat > 0 {
		w.db.latency = func(actor string, n int) time.Duration {
			r := newRng(uint64(s.Seed)*1000003 + uint64(n)*131 + uint64(len(actor)) + uint64(actor[len(actor)-1])*7919)
			return ms(r.n(s.Lat + 1))
		}
	}
	for _, st := range s.Steps {
		w.step(st)
		w.settled()
	}
	return w.rec.Lines(), w.db.stmts
}
