package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"
)

type routerScen struct {
	Fam   string          `json:"fam"`
	ID    string          `json:"id"`
	Seed  int             `json:"seed"`
	Steps [][]interface{} `json:"steps"`
	Case  string          `json:"case,omitempty"`
}

// what events carry
type evData struct {
	C    int
	S    string
	N    int
	L    []string
	M    map[string]int
	T    time.Time
	P    *evSub
	Skip string `json:"-"`
	typ  string
}
type evSub struct{ X, Y int }

func (e *evData) GetType() ddd.EventType { return ddd.EventType(e.typ) }
func (e *evData) GetSender() string      { return fmt.Sprintf("s%d", e.C) }

type evSome struct {
	C int
	S string
}
type evMap map[string]interface{}

type hErr struct{ h string }

func (e *hErr) Error() string { return "failure of " + e.h }
func (e *hErr) Code() int     { return 7 }

type codeErr interface {
	error
	Code() int
}

type routerKey struct{}

type routerWorld struct {
	mu    sync.Mutex
	rec   *Recorder
	s     *routerScen
	rnd   *rng
	ctl   *Controller
	pre   string
	cbs   []ddd.DomainEventHandler
	chks  []ddd.DomainEventTXChecker
	tcbs  []ddd.TimerHandler
	eng   *ddd.Engine
	types map[string]string
	outs  map[int][]interface{}
	evs   map[int]*ddd.DomainEvent
	open  map[int]bool
	nc    int
	save  map[int]string
	gate  bool
	done  int
}

func (w *routerWorld) log(m M) { w.mu.Lock(); w.rec.Log(m); w.mu.Unlock() }

// --- ports

type routerBus struct{ w *routerWorld }

func (b *routerBus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error { return nil }
func (b *routerBus) RegisterEventHandler(cb ddd.DomainEventHandler) {
	b.w.mu.Lock()
	b.w.cbs = append(b.w.cbs, cb)
	b.w.mu.Unlock()
}
func (b *routerBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {
	b.w.mu.Lock()
	b.w.chks = append(b.w.chks, cb)
	b.w.mu.Unlock()
}
func (b *routerBus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	return ctx, nil
}
func (b *routerBus) Commit(ctx context.Context) error   { return nil }
func (b *routerBus) Rollback(ctx context.Context) error { return nil }

type routerTimer struct{ w *routerWorld }

func (t *routerTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
	t.w.mu.Lock()
	t.w.tcbs = append(t.w.tcbs, cb)
	t.w.mu.Unlock()
}
func (t *routerTimer) RunCron(key, cron string, data []byte) error         { return nil }
func (t *routerTimer) RunOnce(key string, at time.Time, data []byte) error { return nil }
func (t *routerTimer) Cancel(key string) error                             { return nil }

type routerExec struct{ w *routerWorld }

func (x *routerExec) Begin(ctx context.Context) (context.Context, error) { return ctx, nil }
func (x *routerExec) Commit(ctx context.Context) error {
	w := x.w
	c, _ := ctx.Value(routerKey{}).(int)
	w.mu.Lock()
	h := w.save[c]
	delete(w.save, c)
	w.mu.Unlock()
	if h != "" {
		w.log(M{"op": "out", "c": c, "h": h, "r": "e" + h, "late": true})
		return &hErr{h}
	}
	return nil
}
func (x *routerExec) RollBack(ctx context.Context) error { return nil }
func (x *routerExec) Entity2Model(e, p ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	return nil, ddd.ErrEntityNotRegister
}
func (x *routerExec) Model2Entity(m ddd.IModel, e ddd.IEntity) error { return ddd.ErrEntityNotRegister }
func (x *routerExec) Exec(ctx context.Context, a *ddd.Action) error  { return nil }

type routerLock struct{}

func (routerLock) Lock(ctx context.Context, key string) (interface{}, error) { return key, nil }
func (routerLock) UnLock(ctx context.Context, l interface{}) error           { return nil }

// --- what is registered

// which delivery is this? told by the context, the data or, failing that, the only one under way
func (w *routerWorld) which(ctx context.Context, v interface{}) int {
	if ctx != nil {
		if c, ok := ctx.Value(routerKey{}).(int); ok {
			return c
		}
	}
	c := 0
	switch x := v.(type) {
	case *evData:
		c = x.C
	case *evSome:
		c = x.C
	case *evMap:
		c = num((*x)["C"])
	case *ddd.TimerEvent:
		fmt.Sscanf(string(x.Payload), "c%d", &c)
	case *ddd.DomainEvent:
		fmt.Sscanf(x.ID, "c%d", &c)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if c == 0 && len(w.open) == 1 {
		for k := range w.open {
			return k
		}
	}
	return c
}

func (w *routerWorld) same(c int, v interface{}) bool {
	w.mu.Lock()
	ev := w.evs[c]
	w.mu.Unlock()
	if ev == nil {
		return false
	}
	if got, ok := v.(*ddd.DomainEvent); ok {
		if ev.ID == "" { // the event a timer makes has an identity of its own
			return got != nil && got.Type == ev.Type && sameJSON(got.Payload, ev.Payload)
		}
		return reflect.DeepEqual(got, ev)
	}
	want := reflect.New(reflect.TypeOf(v).Elem())
	if json.Unmarshal(ev.Payload, want.Interface()) != nil {
		return false
	}
	return reflect.DeepEqual(v, want.Interface())
}
func sameJSON(a, b []byte) bool {
	var x, y interface{}
	return json.Unmarshal(a, &x) == nil && json.Unmarshal(b, &y) == nil && reflect.DeepEqual(x, y)
}

// spoil changes what a handler was given: others must not see it
func spoil(v interface{}) {
	switch x := v.(type) {
	case *evData:
		for i := range x.L {
			x.L[i] = "spoilt"
		}
		for k := range x.M {
			x.M[k] = -1
		}
		if x.P != nil {
			x.P.X = -1
		}
		x.S, x.N, x.C = "spoilt", -1, -1
	case *evSome:
		x.S, x.C = "spoilt", -1
	case *evMap:
		for k := range *x {
			delete(*x, k)
		}
	case *ddd.TimerEvent:
		for i := range x.Payload {
			x.Payload[i] = 'x'
		}
		x.Key = "spoilt"
	}
}

// enter records that handler h was called and says what is to come of it
func (w *routerWorld) enter(ctx context.Context, h string, v interface{}) (int, interface{}) {
	c := w.which(ctx, v)
	same := w.same(c, v)
	w.mu.Lock()
	w.rec.Log(M{"op": "h", "c": c, "h": h, "same": same})
	var o interface{} = "ok"
	if q := w.outs[c]; len(q) > 0 {
		o, w.outs[c] = q[0], q[1:]
	}
	w.mu.Unlock()
	if w.gate {
		w.ctl.Gate(fmt.Sprintf("c%d", c), h)
	}
	if !w.same(c, v) && same { // somebody else changed it meanwhile
		w.log(M{"op": "h", "c": c, "h": h, "same": false})
	}
	spoil(v)
	return c, o
}

func (w *routerWorld) leave(c int, h string, o interface{}) *hErr {
	if l, ok := o.([]interface{}); ok { // delivers another event while at it
		w.deliver(str(l[0]), str(l[1]), l[2].([]interface{}), "ev")
		o = "ok"
	}
	if o == "err" {
		w.log(M{"op": "out", "c": c, "h": h, "r": "e" + h, "late": false})
		return &hErr{h}
	}
	w.log(M{"op": "out", "c": c, "h": h, "r": "ok", "late": false})
	return nil
}

type routerMethods[T any] struct {
	w *routerWorld
	h string
}

func (m *routerMethods[T]) Handle(ctx context.Context, v *T) error {
	if e := m.plain(ctx, v); e != nil {
		return e
	}
	return nil
}
func (m *routerMethods[T]) plain(ctx context.Context, v *T) *hErr {
	c, o := m.w.enter(ctx, m.h, v)
	return m.w.leave(c, m.h, o)
}

type namedHandler[T any] func(ctx context.Context, v *T) error

func handlerOf[T any](w *routerWorld, h string, shape int) interface{} {
	m := &routerMethods[T]{w, h}
	switch shape % 5 {
	case 1:
		return func(ctx context.Context, v *T) error { return m.Handle(ctx, v) }
	case 2:
		return func(ctx context.Context, v *T) *hErr { return m.plain(ctx, v) }
	case 3:
		return namedHandler[T](m.Handle)
	case 4:
		return func(ctx context.Context, v *T) codeErr {
			if e := m.plain(ctx, v); e != nil {
				return e
			}
			return nil
		}
	}
	return m.Handle
}

// the command a handler produces
type routerCmd struct {
	w *routerWorld
	c int
	h string
	o interface{}
}

func (k *routerCmd) out(r string) { k.w.log(M{"op": "out", "c": k.c, "h": k.h, "r": r, "late": false}) }
func (k *routerCmd) body() error {
	switch k.o {
	case "err", "init":
		k.out("e" + k.h)
		return &hErr{k.h}
	case "break":
		k.out("ok")
		return ddd.ErrBreak
	case "save":
		k.w.mu.Lock()
		k.w.save[k.c] = k.h
		k.w.mu.Unlock()
	}
	k.out("ok")
	return nil
}

type mainCmd struct{ *routerCmd }

func (k *mainCmd) Main(ctx context.Context, r *ddd.Repository) error { return k.body() }

type initMainCmd struct{ mainCmd }

func (k *initMainCmd) Init(ctx context.Context) ([]string, error) {
	if k.o == "init" {
		k.out("e" + k.h)
		return nil, &hErr{k.h}
	}
	return []string{"key"}, nil
}

type fullCmd struct{ *routerCmd }

func (k *fullCmd) Init(ctx context.Context) ([]string, error) {
	if k.o == "init" {
		k.out("e" + k.h)
		return nil, &hErr{k.h}
	}
	return nil, nil
}
func (k *fullCmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	return nil, nil
}
func (k *fullCmd) Act(ctx context.Context, c ddd.RootContainer, roots ...ddd.IEntity) error {
	return k.body()
}
func (k *fullCmd) PostSave(ctx context.Context, res *ddd.Result) {}

func constructOf[T any](w *routerWorld, h string, shape int) interface{} {
	mk := func(v *T) *routerCmd {
		c, o := w.enter(nil, h, v)
		return &routerCmd{w, c, h, o}
	}
	fn := func(k *routerCmd) func(context.Context, *ddd.Repository) error {
		return func(context.Context, *ddd.Repository) error { return k.body() }
	}
	switch shape % 6 {
	case 1:
		return func(v *T) ddd.ICommandMain { return &initMainCmd{mainCmd{mk(v)}} }
	case 2:
		return func(v *T) *mainCmd { return &mainCmd{mk(v)} }
	case 3:
		return func(v *T) ddd.MainFunc { return fn(mk(v)) }
	case 4:
		return func(v *T) func(context.Context, *ddd.Repository) error { return fn(mk(v)) }
	case 5:
		return func(v *T) interface{} { return ddd.MainFunc(fn(mk(v))) }
	}
	return func(v *T) ddd.ICommand { return &fullCmd{mk(v)} }
}

type myStatus int8

func checkerOf[T any](w *routerWorld, h string, st, shape int) interface{} {
	ask := func(v *T) int {
		c := w.which(nil, v)
		w.log(M{"op": "chk", "c": c, "h": h, "same": w.same(c, v), "st": st})
		spoil(v)
		return st
	}
	switch shape % 4 {
	case 1:
		return func(v *T) int { return ask(v) }
	case 2:
		return func(v *T) myStatus { return myStatus(ask(v)) }
	case 3:
		return func(v *T) uint { return uint(ask(v)) }
	}
	return func(v *T) ddd.TXStatus { return ddd.TXStatus(ask(v)) }
}

func (w *routerWorld) typ(t string) ddd.EventType { return ddd.EventType(w.pre + t) }

// --- what is sent

func (w *routerWorld) event(c int, t, pl string) *ddd.DomainEvent {
	d := &evData{C: c, S: fmt.Sprintf("text %d é\"", c), N: 40 + c, L: []string{"a", "b"}, M: map[string]int{"x": c, "y": 2}, T: time.Unix(1700000000+int64(c), 5000).UTC(),
		P: &evSub{c, 3}, typ: string(w.typ(t))}
	e := ddd.NewDomainEvent(d)
	e.ID = fmt.Sprintf("c%d.%s", c, e.ID)
	e.SendType = ddd.SendTypeNormal
	switch pl {
	case "part":
		e.Payload = []byte(fmt.Sprintf(`{"C":%d}`, c))
	case "more":
		e.Payload = []byte(fmt.Sprintf(`{"C":%d,"S":"s","Unknown":{"a":[1,2]}}`, c))
	case "null":
		e.Payload = []byte("null")
	case "mis":
		e.Payload = []byte(fmt.Sprintf(`{"C":%d,"S":"s","N":"many"}`, c))
	case "bad":
		e.Payload = []byte(fmt.Sprintf(`{"C":%d,"S":`, c))
	case "none":
		e.Payload = nil
	}
	return e
}

func (w *routerWorld) callErr(err error) string {
	if err == nil {
		return "ok"
	}
	var h *hErr
	if errors.As(err, &h) {
		return "e" + h.h
	}
	return "other"
}

func (w *routerWorld) deliver(t, pl string, outs []interface{}, kind string) {
	w.mu.Lock()
	w.nc++
	c := w.nc
	cb := w.cbs[w.rnd.n(len(w.cbs))]
	tcb := w.tcbs[w.rnd.n(len(w.tcbs))]
	w.outs[c] = outs
	w.open[c] = true
	ev := w.event(c, t, pl)
	data := []byte(fmt.Sprintf("c%d data", c))
	cron := fmt.Sprintf("*/%d * * * *", c)
	if kind == "timer" {
		b, _ := json.Marshal(&ddd.TimerEvent{Key: string(w.typ(t)), Cron: cron, Payload: data})
		w.evs[c] = &ddd.DomainEvent{Type: w.typ(t), Payload: b}
	} else {
		cp := *ev
		cp.Payload = append([]byte(nil), ev.Payload...)
		w.evs[c] = &cp
	}
	w.rec.Log(M{"op": "ev", "c": c, "type": t, "pl": pl})
	w.mu.Unlock()
	ctx := context.WithValue(context.Background(), routerKey{}, c)
	var err error
	if kind == "timer" {
		err = tcb(ctx, string(w.typ(t)), cron, data)
	} else {
		err = cb(ctx, ev)
	}
	w.mu.Lock()
	delete(w.open, c)
	w.rec.Log(M{"op": "evret", "c": c, "r": w.callErr(err)})
	w.mu.Unlock()
}

func (w *routerWorld) ask(t, pl string) {
	w.mu.Lock()
	w.nc++
	c := w.nc
	cb := w.chks[w.rnd.n(len(w.chks))]
	ev := w.event(c, t, pl)
	cp := *ev
	cp.Payload = append([]byte(nil), ev.Payload...)
	w.evs[c] = &cp
	w.open[c] = true
	w.rec.Log(M{"op": "ask", "c": c, "type": t, "pl": pl})
	w.mu.Unlock()
	st := 99
	func() {
		defer func() {
			if x := recover(); x != nil {
				st = 98
			}
		}()
		st = int(cb(ev))
	}()
	w.mu.Lock()
	delete(w.open, c)
	w.rec.Log(M{"op": "ans", "c": c, "st": st})
	w.mu.Unlock()
}

func (w *routerWorld) tryReg(f func()) (r string) {
	defer func() {
		if x := recover(); x != nil {
			r = "refused"
		}
	}()
	f()
	return "ok"
}

func (w *routerWorld) step(st []interface{}) {
	arg := func(i int) string {
		if i < len(st) {
			return str(st[i])
		}
		return ""
	}
	switch arg(0) {
	case "reg":
		t, h, a, shape := w.typ(arg(1)), arg(2), arg(3), w.rnd.n(60)
		var f interface{}
		if truth(st[4]) {
			switch a {
			case "raw":
				f = constructOf[ddd.DomainEvent](w, h, shape)
			case "data":
				f = constructOf[evData](w, h, shape)
			case "some":
				f = constructOf[evSome](w, h, shape)
			case "map":
				f = constructOf[evMap](w, h, shape)
			case "timer":
				f = constructOf[ddd.TimerEvent](w, h, shape)
			}
		} else {
			switch a {
			case "raw":
				f = handlerOf[ddd.DomainEvent](w, h, shape)
			case "data":
				f = handlerOf[evData](w, h, shape)
			case "some":
				f = handlerOf[evSome](w, h, shape)
			case "map":
				f = handlerOf[evMap](w, h, shape)
			case "timer":
				f = handlerOf[ddd.TimerEvent](w, h, shape)
			}
		}
		r := w.tryReg(func() {
			if truth(st[4]) {
				w.eng.RegisterEventHandler(t, f)
			} else {
				ddd.RegisterEventHandler(t, f)
			}
		})
		w.log(M{"op": "reg", "type": arg(1), "h": h, "arg": a, "cmd": truth(st[4]), "r": r})
	case "cron":
		t, h, cmd := w.typ(arg(1)), arg(2), truth(st[3])
		r := w.tryReg(func() {
			if cmd {
				w.eng.RegisterCronTaskOfCommand(t, "@every 1s", func(key, cron string) ddd.ICommand {
					c, o := w.cronCall(h, key, cron)
					return &fullCmd{&routerCmd{w, c, h, o}}
				})
			} else {
				w.eng.RegisterCronTask(t, "@every 1s", func(key, cron string) {
					c, _ := w.cronCall(h, key, cron)
					w.leave(c, h, "ok")
				})
			}
		})
		w.log(M{"op": "reg", "type": arg(1), "h": h, "arg": "timer", "cmd": cmd, "r": r})
	case "regchk":
		t, h, a, shape, s := w.typ(arg(1)), arg(2), arg(3), w.rnd.n(60), num(st[4])
		var f interface{}
		switch a {
		case "raw":
			f = checkerOf[ddd.DomainEvent](w, h, s, shape)
		case "data":
			f = checkerOf[evData](w, h, s, shape)
		case "some":
			f = checkerOf[evSome](w, h, s, shape)
		case "map":
			f = checkerOf[evMap](w, h, s, shape)
		}
		r := w.tryReg(func() { ddd.RegisterEventTXChecker(t, f) })
		w.log(M{"op": "regchk", "type": arg(1), "h": h, "arg": a, "r": r})
	case "ev", "timer":
		w.deliver(arg(1), arg(2), st[3].([]interface{}), arg(0))
	case "ask":
		w.ask(arg(1), arg(2))
	case "par":
		w.gate = true
		w.ctl.Enable()
		n := 0
		for _, x := range st[1:] {
			x := x.([]interface{})
			n++
			go func() {
				w.step(x)
				w.mu.Lock()
				w.done++
				w.mu.Unlock()
			}()
		}
		for {
			settle()
			if !w.ctl.ReleaseRandom(w.rnd) {
				break
			}
		}
		w.ctl.Disable()
		settle()
		w.gate = false
	default:
		panic("unknown step " + arg(0))
	}
}

func (w *routerWorld) cronCall(h, key, cron string) (int, interface{}) {
	c := 0
	fmt.Sscanf(cron, "*/%d", &c)
	w.mu.Lock()
	defer w.mu.Unlock()
	ev := w.evs[c]
	same := false
	if ev != nil {
		te := &ddd.TimerEvent{}
		same = json.Unmarshal(ev.Payload, te) == nil && te.Key == key && te.Cron == cron
	}
	w.rec.Log(M{"op": "h", "c": c, "h": h, "same": same})
	var o interface{} = "ok"
	if q := w.outs[c]; len(q) > 0 {
		o, w.outs[c] = q[0], q[1:]
	}
	return c, o
}

var routerSeq int

func RunRouterScenario(s *routerScen) []M {
	routerSeq++
	w := &routerWorld{s: s, rec: &Recorder{}, rnd: newRng(uint64(s.Seed) + 5), ctl: &Controller{}, pre: fmt.Sprintf("verif.r%d.", routerSeq),
		outs: map[int][]interface{}{}, evs: map[int]*ddd.DomainEvent{}, open: map[int]bool{}, save: map[int]string{}}
	ddd.RegisterEventBus(&routerBus{w})
	w.eng = ddd.NewEngine(routerLock{}, &routerExec{w}, ddd.WithLogger(logr.Discard()), ddd.WithEventBus(&routerBus{w}), ddd.WithTimer(&routerTimer{w}))
	for _, st := range s.Steps {
		w.step(st)
	}
	return w.rec.Lines()
}
