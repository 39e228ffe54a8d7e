package harness

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	ddd "github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"
)

// ---------------------------------------------------------------- test domain

type ent interface {
	ddd.IEntity
	meta() *emeta
}

// emeta is the harness bookkeeping of an entity (not visible to the framework).
type emeta struct {
	name  string
	typ   string
	cmd   *runCmd
	world *world
	val   int
	slot  string
	hookV int // value stored by a before-hook (0: none)
}

type Node struct {
	ddd.BaseEntity
	m     emeta
	Kids  []*Node
	One   *Single
	ByKey map[string]*Node
	Oth   []ddd.IEntity
}

type Single struct {
	ddd.BaseEntity
	m    emeta
	Kids []*Node
}

// Alt lists its children explicitly and has no hooks.
type Alt struct {
	ddd.BaseEntity
	m emeta
	a []ddd.IEntity
	b []ddd.IEntity
}

func (n *Node) meta() *emeta   { return &n.m }
func (n *Single) meta() *emeta { return &n.m }
func (n *Alt) meta() *emeta    { return &n.m }

func (n *Alt) GetChildren() map[string][]ddd.IEntity {
	return map[string][]ddd.IEntity{"a": n.a, "b": n.b}
}

func (n *Node) BeforeCreate(ctx context.Context) error   { return hook(ctx, n, "bc") }
func (n *Node) AfterCreate(ctx context.Context) error    { return hook(ctx, n, "ac") }
func (n *Node) BeforeUpdate(ctx context.Context) error   { return hook(ctx, n, "bu") }
func (n *Node) AfterUpdate(ctx context.Context) error    { return hook(ctx, n, "au") }
func (n *Node) BeforeDelete(ctx context.Context) error   { return hook(ctx, n, "bd") }
func (n *Node) AfterDelete(ctx context.Context) error    { return hook(ctx, n, "ad") }
func (n *Single) BeforeCreate(ctx context.Context) error { return hook(ctx, n, "bc") }
func (n *Single) AfterCreate(ctx context.Context) error  { return hook(ctx, n, "ac") }
func (n *Single) BeforeUpdate(ctx context.Context) error { return hook(ctx, n, "bu") }
func (n *Single) AfterUpdate(ctx context.Context) error  { return hook(ctx, n, "au") }
func (n *Single) BeforeDelete(ctx context.Context) error { return hook(ctx, n, "bd") }
func (n *Single) AfterDelete(ctx context.Context) error  { return hook(ctx, n, "ad") }

func hook(ctx context.Context, e ent, kind string) error {
	m := e.meta()
	w := m.world
	if w == nil || m.cmd == nil {
		return nil
	}
	line := M{"ev": "hook", "c": m.cmd.name, "k": kind, "e": m.name, "r": "ok", "v": m.val}
	if f := w.fault(m.cmd.name, "hook"); f != "" {
		line["r"] = f
		w.rec.Log(line)
		return w.failNow(f, "hook "+kind)
	}
	if (kind == "bc" || kind == "bu") && m.hookV != 0 {
		m.val = m.hookV
		line["v"] = m.val
	}
	w.rec.Log(line)
	return nil
}

// row models ----------------------------------------------------------------

type rowPO struct {
	ID, P, S string
	V        int
	ent      ent
	pent     ddd.IEntity
}

func (r *rowPO) GetID() string { return r.ID }
func (r *rowPO) base() *rowPO  { return r }

type nodePO struct{ rowPO }
type singlePO struct{ rowPO }
type altPO struct{ rowPO }
type eventPO struct {
	rowPO
	evt string
}
type basePO interface {
	ddd.IModel
	base() *rowPO
}

func newPO(typ string) basePO {
	switch typ {
	case "node":
		return &nodePO{}
	case "single":
		return &singlePO{}
	case "alt":
		return &altPO{}
	}
	return nil
}

func typOfPO(p interface{}) string {
	switch p.(type) {
	case *nodePO:
		return "node"
	case *singlePO:
		return "single"
	case *altPO:
		return "alt"
	case *eventPO:
		return "event"
	}
	return "?"
}

type row struct {
	T, P, S string
	V       int
}

// ---------------------------------------------------------------- world

type faultSpec struct {
	N    int    `json:"n"`
	Kind string `json:"kind"`
}

type entSpec struct {
	ID string `json:"id"`
	T  string `json:"t"`
	P  string `json:"p"`
	S  string `json:"s"`
	V  int    `json:"v"`
}

// twin says that the entity of type T that the trace calls ID has the identity Real, which an entity of
// another type has as well: identities are unique within a type only.
type twin struct {
	ID   string `json:"id"`
	T    string `json:"t"`
	Real string `json:"real"`
}

func (w *world) realID(typ, id string) string {
	for _, t := range w.sc.Twins {
		if t.ID == id && t.T == typ {
			return t.Real
		}
	}
	return id
}

func (w *world) idOf(e ddd.IEntity) string {
	id := e.GetID()
	for _, t := range w.sc.Twins {
		if t.Real == id && id != "" && t.T == typeName(e) {
			return t.ID
		}
	}
	return id
}

type cmdSpec struct {
	Name    string          `json:"name"`
	Shape   string          `json:"shape"`
	Keys    []string        `json:"keys"`
	Rec     bool            `json:"rec"`
	Dry     bool            `json:"dry"`
	NoTx    bool            `json:"notx"`
	Persist bool            `json:"persist"`
	Bus     string          `json:"bus"`
	Call    int             `json:"call"`
	Own     bool            `json:"own"`
	Nested  bool            `json:"nested"`
	Ops     [][]interface{} `json:"ops"`
}

type engScen struct {
	ID    string     `json:"id"`
	Init  []entSpec  `json:"init"`
	Cmds  []cmdSpec  `json:"cmds"`
	Hooks int        `json:"hooks"` // engine-wide post-save callbacks
	Conc  bool       `json:"conc"`
	Seed  int        `json:"seed"`
	Fault *faultSpec `json:"fault"`
	Sched []string   `json:"sched"`

	Twins   []twin `json:"twins"`
	Orphans bool   `json:"orphans"` // allow re-attaching what sits below an entity removed by an earlier save
	Case    string `json:"case"`    // name of a known finding
}

type runCmd struct {
	name   string
	spec   *cmdSpec
	cancel context.CancelFunc
	ents   map[string]ent
	place  map[string][]placeT
	idgen  int
	evs    map[string]string // DomainEvent.ID -> event name
	roots  []ddd.IEntity
	res    *ddd.Result
	seen   *ddd.Result

	w        *world
	orphan   map[string]bool
	removing bool // inside Repository.Remove / RootContainer.Remove
}

type placeT struct {
	parent string
	slot   string
}

type ctxKey string

type txState struct {
	owner string
	delta map[string]*row // nil value = deleted
	evs   []string
	done  bool
}

type world struct {
	rec   *Recorder
	ctl   *Controller
	sc    *engScen
	mu    sync.Mutex
	ports int
	rows  map[string]row
	evrow []string
	locks map[string]string
	eng   *ddd.Engine
	cmds  map[string]*runCmd
	seen  map[string]*cmdSpec
}

var errInjected = errors.New("injected fault")

type injectedPanic struct{ where string }

// fault counts a port call and says whether it must fail ("err"/"panic").
func (w *world) fault(cmd, port string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ports++
	if w.sc.Fault != nil && w.sc.Fault.N == w.ports {
		k := w.sc.Fault.Kind
		if k == "panic" {
			switch port {
			case "lock", "unlock", "begin", "rollback", "busCommit", "busRollback":
				return "" // panics of these ports are outside the property
			}
		}
		return k
	}
	return ""
}

func (w *world) failNow(kind, where string) error {
	if kind == "panic" {
		panic(injectedPanic{where})
	}
	return fmt.Errorf("%w: %s", errInjected, where)
}

func (w *world) cmdOf(ctx context.Context) string {
	if ctx == nil {
		return "?"
	}
	if v := ctx.Value(ctxKey("cmd")); v != nil {
		return v.(string)
	}
	return "?"
}

// ---- lock port

type fakeLock struct{ w *world }

func (l *fakeLock) logicalKey(cmd, key string) string {
	l.w.mu.Lock()
	defer l.w.mu.Unlock()
	if c := l.w.cmds[cmd]; c != nil {
		for _, k := range c.spec.Keys {
			if strings.HasSuffix(key, k) {
				return k
			}
		}
	}
	return key
}

type heldLock struct {
	cmd, raw, key string
}

func (l *fakeLock) Lock(ctx context.Context, key string) (interface{}, error) {
	w := l.w
	c := w.cmdOf(ctx)
	k := l.logicalKey(c, key)
	w.ctl.Gate(c, "lock "+k)
	if f := w.fault(c, "lock"); f != "" {
		w.rec.Log(M{"ev": "lock", "c": c, "k": k, "r": "err"})
		return nil, w.failNow("err", "lock")
	}
	for spins := 0; ; spins++ {
		w.mu.Lock()
		if w.locks[key] == "" {
			w.locks[key] = c
			w.rec.Log(M{"ev": "lock", "c": c, "k": k, "r": "ok"})
			w.mu.Unlock()
			return &heldLock{c, key, k}, nil
		}
		w.mu.Unlock()
		if spins > 200 || !w.sc.Conc {
			w.rec.Log(M{"ev": "lock", "c": c, "k": k, "r": "locked"})
			return nil, ddd.ErrEntityLocked
		}
		w.ctl.Gate(c, "lockwait "+k)
	}
}

func (l *fakeLock) UnLock(ctx context.Context, kl interface{}) error {
	w := l.w
	h, ok := kl.(*heldLock)
	if !ok {
		w.rec.Log(M{"ev": "unlock", "c": w.cmdOf(ctx), "k": "?", "r": "ok", "cx": ctx.Err() != nil})
		return nil
	}
	w.ctl.Gate(h.cmd, "unlock "+h.key)
	f := w.fault(h.cmd, "unlock")
	w.mu.Lock()
	if w.locks[h.raw] == h.cmd {
		delete(w.locks, h.raw)
	}
	w.mu.Unlock()
	w.rec.Log(M{"ev": "unlock", "c": h.cmd, "k": h.key, "r": "ok", "cx": ctx.Err() != nil})
	if f != "" {
		return w.failNow("err", "unlock")
	}
	return nil
}

// ---- id generator port

type fakeIDs struct {
	w *world
	c *runCmd
}

func (g *fakeIDs) NewID() (string, error) {
	if f := g.w.fault(g.c.name, "gen"); f != "" {
		g.w.rec.Log(M{"ev": "x", "c": g.c.name, "port": "gen", "r": f, "rm": false})
		return "", g.w.failNow(f, "gen")
	}
	g.c.idgen++
	id := fmt.Sprintf("%s-g%d", g.c.name, g.c.idgen)
	g.w.rec.Log(M{"ev": "gen", "c": g.c.name, "id": id})
	return id, nil
}

// ---- executor port

type fakeExec struct{ w *world }

const txCtx = ctxKey("tx")

func (x *fakeExec) Begin(ctx context.Context) (context.Context, error) {
	w := x.w
	c := w.cmdOf(ctx)
	w.ctl.Gate(c, "begin")
	if f := w.fault(c, "begin"); f != "" {
		w.rec.Log(M{"ev": "begin", "c": c, "r": "err"})
		return ctx, w.failNow("err", "begin")
	}
	w.rec.Log(M{"ev": "begin", "c": c, "r": "ok"})
	return context.WithValue(ctx, txCtx, &txState{owner: c, delta: map[string]*row{}}), nil
}

func (x *fakeExec) tx(ctx context.Context) *txState {
	if v := ctx.Value(txCtx); v != nil {
		return v.(*txState)
	}
	return nil
}

func (x *fakeExec) Commit(ctx context.Context) error {
	w := x.w
	t := x.tx(ctx)
	c := w.cmdOf(ctx)
	if t == nil {
		w.rec.Log(M{"ev": "commit", "c": c, "r": "notx"})
		return errors.New("no tx")
	}
	c = t.owner
	w.ctl.Gate(c, "commit")
	if f := w.fault(c, "commit"); f != "" {
		t.done = true
		w.rec.Log(M{"ev": "commit", "c": c, "r": f})
		return w.failNow(f, "commit")
	}
	w.mu.Lock()
	if !t.done {
		for id, r := range t.delta {
			if r == nil {
				delete(w.rows, id)
			} else {
				w.rows[id] = *r
			}
		}
		w.evrow = append(w.evrow, t.evs...)
	}
	was := t.done
	t.done = true
	w.mu.Unlock()
	r := "ok"
	if was {
		r = "dead"
	}
	w.rec.Log(M{"ev": "commit", "c": c, "r": r})
	return nil
}

func (x *fakeExec) RollBack(ctx context.Context) error {
	w := x.w
	t := x.tx(ctx)
	c := w.cmdOf(ctx)
	if t == nil {
		w.rec.Log(M{"ev": "rollback", "c": c, "r": "notx"})
		return errors.New("no tx")
	}
	c = t.owner
	w.ctl.Gate(c, "rollback")
	f := w.fault(c, "rollback")
	t.done = true
	w.rec.Log(M{"ev": "rollback", "c": c, "r": "ok"})
	if f != "" {
		return w.failNow("err", "rollback")
	}
	return nil
}

func (x *fakeExec) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	w := x.w
	e, ok := entity.(ent)
	if !ok {
		return nil, ddd.ErrEntityNotRegister
	}
	m := e.meta()
	typ := typeName(e)
	if m.cmd != nil {
		if f := w.fault(m.cmd.name, "e2m"); f != "" {
			w.rec.Log(M{"ev": "x", "c": m.cmd.name, "port": "e2m", "r": f, "rm": m.cmd.removing})
			return nil, w.failNow(f, "e2m")
		}
	}
	po := newPO(typ)
	b := po.base()
	b.ID, b.S, b.V, b.ent = x.w.idOf(e), m.slot, m.val, e
	if pe, ok := parent.(ent); ok && pe != nil {
		b.P = x.w.idOf(pe)
		b.pent = pe
		if m.cmd != nil { // the collection it sits in
			for _, pl := range m.cmd.place[m.name] {
				if pl.parent == pe.meta().name {
					b.S = pl.slot
				}
			}
		}
	}
	return po, nil
}

func (x *fakeExec) Model2Entity(model ddd.IModel, entity ddd.IEntity) error {
	b := model.(basePO).base()
	e := entity.(ent)
	m := e.meta()
	e.SetID(x.w.realID(typeName(e), b.ID))
	m.name, m.val, m.slot, m.typ = b.ID, b.V, b.S, typeName(e)
	return nil
}

func typeName(e ddd.IEntity) string {
	switch e.(type) {
	case *Node:
		return "node"
	case *Single:
		return "single"
	case *Alt:
		return "alt"
	}
	return "?"
}

// view merges committed rows with the transaction's own changes.
func (x *fakeExec) view(t *txState) map[string]row {
	out := map[string]row{}
	for k, v := range x.w.rows {
		out[k] = v
	}
	if t != nil {
		for k, v := range t.delta {
			if v == nil {
				delete(out, k)
			} else {
				out[k] = *v
			}
		}
	}
	return out
}

func (x *fakeExec) put(t *txState, id string, r *row) {
	if t != nil {
		t.delta[id] = r
		return
	}
	if r == nil {
		delete(x.w.rows, id)
	} else {
		x.w.rows[id] = *r
	}
}

var opNames = map[ddd.OpType]string{ddd.OpInsert: "ins", ddd.OpUpdate: "upd", ddd.OpDelete: "del", ddd.OpQuery: "qry"}

func (x *fakeExec) Exec(ctx context.Context, a *ddd.Action) error {
	w := x.w
	c := w.cmdOf(ctx)
	t := x.tx(ctx)
	w.ctl.Gate(c, "exec "+opNames[a.Op])
	if f := w.fault(c, "exec"); f != "" {
		w.rec.Log(M{"ev": "x", "c": c, "port": "exec", "r": f, "rm": false})
		return w.failNow(f, "exec")
	}
	intx := t != nil && t.owner == c && !t.done
	w.mu.Lock()
	defer w.mu.Unlock()
	view := x.view(t)
	switch a.Op {
	case ddd.OpQuery:
		q := a.Query.(basePO).base()
		typ := typOfPO(a.Query)
		ids := []string{}
		for id, r := range view {
			if r.T != typ || (q.ID != "" && q.ID != id) || (q.P != "" && q.P != r.P) || (q.S != "" && q.S != r.S) || (q.V != 0 && q.V != r.V) {
				continue
			}
			ids = append(ids, id)
		}
		sort.Strings(ids)
		res := reflect.ValueOf(a.QueryResult).Elem()
		for _, id := range ids {
			po := newPO(typ)
			b := po.base()
			r := view[id]
			b.ID, b.P, b.S, b.V = id, r.P, r.S, r.V
			res = reflect.Append(res, reflect.ValueOf(po))
		}
		reflect.ValueOf(a.QueryResult).Elem().Set(res)
		w.rec.Log(M{"ev": "q", "c": c, "intx": intx})
		return nil
	case ddd.OpInsert:
		seen := map[string]bool{}
		for _, m := range a.Models {
			if _, isEv := m.(*eventPO); isEv {
				continue
			}
			id := m.GetID()
			if _, in := view[id]; in || seen[id] {
				w.rec.Log(M{"ev": "dupkey", "c": c, "id": id})
				return fmt.Errorf("duplicate key %s", id)
			}
			seen[id] = true
		}
		for _, m := range a.Models {
			if ep, isEv := m.(*eventPO); isEv {
				if t != nil {
					t.evs = append(t.evs, ep.evt)
				} else {
					w.evrow = append(w.evrow, ep.evt)
				}
				w.rec.Log(M{"ev": "evrow", "c": c, "evt": ep.evt, "intx": intx})
				continue
			}
			b := m.(basePO).base()
			x.put(t, b.ID, &row{typOfPO(m), b.P, b.S, b.V})
			w.rec.Log(M{"ev": "w", "c": c, "op": "ins", "e": entName(b.ent), "id": b.ID, "p": b.P, "s": b.S, "v": b.V, "cp": true, "cs": true, "cv": true, "intx": intx})
		}
	case ddd.OpUpdate:
		for i, m := range a.Models {
			b := m.(basePO).base()
			cp, cs, cv := true, true, true
			if i < len(a.PrevModels) {
				if pb, ok := a.PrevModels[i].(basePO); ok && pb != nil {
					p := pb.base()
					cp, cs, cv = p.P != b.P, p.S != b.S, p.V != b.V
				}
			}
			if r, in := view[b.ID]; in {
				if cp {
					r.P = b.P
				}
				if cs {
					r.S = b.S
				}
				if cv {
					r.V = b.V
				}
				x.put(t, b.ID, &row{r.T, r.P, r.S, r.V})
				view[b.ID] = r
			}
			w.rec.Log(M{"ev": "w", "c": c, "op": "upd", "e": entName(b.ent), "id": b.ID, "p": b.P, "s": b.S, "v": b.V, "cp": cp, "cs": cs, "cv": cv, "intx": intx})
		}
	case ddd.OpDelete:
		for _, m := range a.Models {
			b := m.(basePO).base()
			x.put(t, b.ID, nil)
			w.rec.Log(M{"ev": "w", "c": c, "op": "del", "e": entName(b.ent), "id": b.ID, "p": b.P, "s": b.S, "v": b.V, "cp": false, "cs": false, "cv": false, "intx": intx})
		}
	default:
		w.rec.Log(M{"ev": "w", "c": c, "op": "?", "e": "?", "id": "?", "p": "", "s": "", "v": 0, "cp": false, "cs": false, "cv": false, "intx": intx})
	}
	return nil
}

func entName(e ent) string {
	if e == nil || reflect.ValueOf(e).IsNil() {
		return "?"
	}
	return e.meta().name
}

// ---- event bus port

type fakeBus struct{ w *world }

func (b *fakeBus) names(c string, evts []*ddd.DomainEvent) []string {
	out := []string{}
	rc := b.w.cmds[c]
	for _, e := range evts {
		n := "?" + string(e.Type)
		if rc != nil {
			if x, ok := rc.evs[e.ID]; ok {
				n = x
			}
		}
		out = append(out, n)
	}
	return out
}

func (b *fakeBus) RegisterEventHandler(cb ddd.DomainEventHandler) {}

func (b *fakeBus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	return b.send(ctx, "send", evts)
}

func (b *fakeBus) send(ctx context.Context, kind string, evts []*ddd.DomainEvent) error {
	w := b.w
	c := w.cmdOf(ctx)
	w.ctl.Gate(c, kind)
	f := w.fault(c, kind)
	r := "ok"
	if f != "" {
		r = f
	}
	w.rec.Log(M{"ev": kind, "c": c, "evs": b.names(c, evts), "r": r})
	if f != "" {
		return w.failNow(f, kind)
	}
	return nil
}

type fakeTxBus struct{ fakeBus }

const busCtx = ctxKey("bus")

func (b *fakeTxBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {}

func (b *fakeTxBus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	if err := b.send(ctx, "prep", evts); err != nil {
		return ctx, err
	}
	return context.WithValue(ctx, busCtx, b.w.cmdOf(ctx)), nil
}

func (b *fakeTxBus) resolve(ctx context.Context, kind string) error {
	w := b.w
	c := w.cmdOf(ctx)
	tok := "none"
	if v := ctx.Value(busCtx); v != nil {
		tok = v.(string)
	}
	w.ctl.Gate(c, kind)
	f := w.fault(c, kind)
	w.rec.Log(M{"ev": kind, "c": c, "tok": tok})
	if f != "" {
		return w.failNow("err", kind)
	}
	return nil
}
func (b *fakeTxBus) Commit(ctx context.Context) error   { return b.resolve(ctx, "busCommit") }
func (b *fakeTxBus) Rollback(ctx context.Context) error { return b.resolve(ctx, "busRollback") }

type bizEvent struct {
	Name   string
	Sender string
}

func (e *bizEvent) GetType() ddd.EventType { return ddd.EventType("verif." + e.Name) }
func (e *bizEvent) GetSender() string      { return e.Sender }

var discard = logr.Discard()
