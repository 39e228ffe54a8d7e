package harness

import (
	"context"
	"errors"
	"fmt"
	"sort"

	ddd "github.com/bytedance/dddfirework"
)

// RunEngineScenario executes one scenario and returns its trace.
func RunEngineScenario(sc *engScen) []M {
	w := &world{rec: &Recorder{}, ctl: &Controller{}, sc: sc, rows: map[string]row{}, locks: map[string]string{}, cmds: map[string]*runCmd{}, seen: map[string]*cmdSpec{}}
	initRows := []M{}
	for _, e := range sc.Init {
		w.rows[e.ID] = row{e.T, e.P, e.S, e.V}
		initRows = append(initRows, M{"id": e.ID, "t": e.T, "p": e.P, "s": e.S, "v": e.V})
	}
	w.rec.Log(M{"ev": "init", "c": "", "rows": initRows})
	exec := &fakeExec{w}
	opts := []ddd.Option{ddd.WithLogger(discard)}
	for i := 1; i <= sc.Hooks; i++ {
		opts = append(opts, w.postHook(fmt.Sprintf("eng%d", i), nil))
	}
	w.eng = ddd.NewEngine(&fakeLock{w}, exec, opts...)
	for i := range sc.Cmds {
		c := &sc.Cmds[i]
		w.seen[c.Name] = c
	}
	if sc.Conc {
		w.ctl.Enable()
		done := make(chan struct{}, len(sc.Cmds))
		n := 0
		for i := range sc.Cmds {
			c := &sc.Cmds[i]
			if c.Nested {
				continue
			}
			n++
			go func() {
				w.ctl.Gate(c.Name, "start")
				w.runCmd(context.Background(), c)
				done <- struct{}{}
			}()
		}
		r := newRng(uint64(sc.Seed) + 1)
		fin := 0
		for steps := 0; fin < n && steps < 5000; steps++ {
			settle()
			for len(done) > 0 {
				<-done
				fin++
			}
			p := w.ctl.Pending()
			if len(p) == 0 {
				break
			}
			who := p[r.n(len(p))]
			if steps < len(sc.Sched) {
				for _, x := range p {
					if x == sc.Sched[steps] {
						who = x
					}
				}
			}
			w.ctl.Release(who)
		}
		if fin < n {
			w.rec.Log(M{"ev": "stuck", "c": ""})
		}
		w.ctl.Disable()
		settle()
	} else {
		for i := range sc.Cmds {
			if !sc.Cmds[i].Nested {
				w.runCmd(context.Background(), &sc.Cmds[i])
			}
		}
	}
	rows := []M{}
	ids := []string{}
	for id := range w.rows {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		r := w.rows[id]
		rows = append(rows, M{"id": id, "t": r.T, "p": r.P, "s": r.S, "v": r.V})
	}
	evr := append([]string{}, w.evrow...)
	sort.Strings(evr)
	w.rec.Log(M{"ev": "fin", "c": "", "rows": rows, "evrows": evr})
	lastPorts = w.ports
	return w.rec.Lines()
}

func (w *world) postHook(tag string, own *runCmd) ddd.Option {
	return ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) {
		c := w.cmdOf(ctx)
		h := tag
		if own != nil {
			h = tag + ":" + own.name
		}
		same := true
		w.mu.Lock()
		rc := w.cmds[c]
		w.mu.Unlock()
		if rc != nil {
			if rc.seen == nil {
				rc.seen = res
			}
			same = res != nil && rc.seen == res
		}
		w.ctl.Gate(c, "post "+h)
		w.rec.Log(M{"ev": "post", "c": c, "h": h, "res": same, "err": res == nil || res.Error != nil})
	})
}

// ---- command shapes

type icmd struct {
	ddd.Command
	w     *world
	rc    *runCmd
	post  bool
	saves int
}

func (c *icmd) Init(ctx context.Context) ([]string, error) { return c.w.cmdInit(c.rc) }
func (c *icmd) Build(ctx context.Context, b ddd.DomainBuilder) (roots []ddd.IEntity, err error) {
	return c.w.doBuild(ctx, c.rc, b)
}
func (c *icmd) Act(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
	c.Output("out-" + c.rc.name)
	return c.w.mainBody(ctx, c.rc, &opEnv{
		add:  func(e ddd.IEntity) { cont.Add(e) },
		rm:   func(e ddd.IEntity) { c.rc.removing = true; defer func() { c.rc.removing = false }(); cont.Remove(e) },
		save: func() error { return c.Commit(ctx) },
	})
}
func (c *icmd) PostSave(ctx context.Context, res *ddd.Result) {
	if c.rc.spec.Own {
		c.w.ownPost(ctx, c.rc, res)
	}
}

type mcmd struct {
	w  *world
	rc *runCmd
}

func (c *mcmd) Main(ctx context.Context, repo *ddd.Repository) error {
	return c.w.repoMain(ctx, c.rc, repo)
}

type mcmdInit struct{ mcmd }

func (c *mcmdInit) Init(ctx context.Context) ([]string, error) { return c.w.cmdInit(c.rc) }

type mcmdPost struct{ mcmd }

func (c *mcmdPost) PostSave(ctx context.Context, res *ddd.Result) { c.w.ownPost(ctx, c.rc, res) }

type mcmdBoth struct{ mcmd }

func (c *mcmdBoth) Init(ctx context.Context) ([]string, error)    { return c.w.cmdInit(c.rc) }
func (c *mcmdBoth) PostSave(ctx context.Context, res *ddd.Result) { c.w.ownPost(ctx, c.rc, res) }

func (w *world) ownPost(ctx context.Context, rc *runCmd, res *ddd.Result) {
	c := w.cmdOf(ctx)
	w.mu.Lock()
	cur := w.cmds[c]
	w.mu.Unlock()
	same := true
	if cur != nil {
		if cur.seen == nil {
			cur.seen = res
		}
		same = res != nil && cur.seen == res
	}
	w.ctl.Gate(c, "post own")
	w.rec.Log(M{"ev": "post", "c": c, "h": "own:" + rc.name, "res": same, "err": res == nil || res.Error != nil})
}

func (w *world) cmdInit(rc *runCmd) ([]string, error) {
	r := "ok"
	var err error
	if len(rc.spec.Ops) > 0 {
		switch str(rc.spec.Ops[0][0]) {
		case "initerr":
			r, err = "err", errInjected
		case "initbrk":
			r, err = "brk", ddd.ErrBreak
		case "initpan":
			w.rec.Log(M{"ev": "cinit", "c": rc.name, "r": "panic"})
			panic(injectedPanic{"init"})
		}
	}
	if r == "ok" {
		if f := w.fault(rc.name, "init"); f != "" {
			r = f
			w.rec.Log(M{"ev": "cinit", "c": rc.name, "r": r})
			return nil, w.failNow(f, "init")
		}
	}
	w.rec.Log(M{"ev": "cinit", "c": rc.name, "r": r})
	if err != nil {
		return nil, err
	}
	return append([]string{}, rc.spec.Keys...), nil
}

func (w *world) runCmd(parent context.Context, spec *cmdSpec) {
	rc := &runCmd{w: w, orphan: map[string]bool{}, name: spec.Name, spec: spec, ents: map[string]ent{}, place: map[string][]placeT{}, evs: map[string]string{}}
	w.mu.Lock()
	w.cmds[spec.Name] = rc
	w.mu.Unlock()
	ctx, cancel := context.WithCancel(context.WithValue(parent, ctxKey("cmd"), spec.Name))
	defer cancel()
	rc.cancel = cancel
	opts := []ddd.Option{ddd.WithIDGenerator(&fakeIDs{w, rc})}
	if spec.Rec {
		opts = append(opts, ddd.WithRecursiveDelete)
	}
	if spec.Dry {
		opts = append(opts, ddd.WithDryRun)
	}
	if spec.NoTx {
		opts = append(opts, ddd.WithoutTransaction)
	}
	if spec.Persist {
		opts = append(opts, ddd.WithEventPersist(func(evt *ddd.DomainEvent) (ddd.IModel, error) {
			n := rc.evs[evt.ID]
			if f := w.fault(rc.name, "evpersist"); f != "" {
				w.rec.Log(M{"ev": "x", "c": rc.name, "port": "evpersist", "r": f, "rm": false})
				return nil, w.failNow(f, "evpersist")
			}
			return &eventPO{rowPO: rowPO{ID: "ev-" + n}, evt: n}, nil
		}))
	}
	switch spec.Bus {
	case "plain":
		opts = append(opts, ddd.WithEventBus(&fakeBus{w}))
	case "tx":
		opts = append(opts, ddd.WithEventBus(&fakeTxBus{fakeBus{w}}))
	}
	for i := 1; i <= spec.Call; i++ {
		opts = append(opts, w.postHook(fmt.Sprintf("call%d", i), nil))
	}
	hooks := []string{}
	for i := 1; i <= w.sc.Hooks; i++ {
		hooks = append(hooks, fmt.Sprintf("eng%d", i))
	}
	if spec.Shape != "create" && spec.Shape != "delete" {
		for i := 1; i <= spec.Call; i++ {
			hooks = append(hooks, fmt.Sprintf("call%d", i))
		}
	}
	bus := spec.Bus
	if bus == "" {
		bus = "none"
	}
	lockable := spec.Shape == "icmd" || spec.Shape == "main" || spec.Shape == "stage"
	keys := []string{}
	if lockable {
		keys = append(keys, spec.Keys...)
	}
	own := spec.Own && (spec.Shape == "icmd" || spec.Shape == "main" || spec.Shape == "mainonly")
	if own {
		hooks = append(hooks, "own:"+spec.Name)
	}
	line := M{"ev": "cmd", "c": spec.Name, "shape": spec.Shape, "keys": keys, "rec": spec.Rec, "dry": spec.Dry,
		"tx": !spec.NoTx, "persist": spec.Persist, "bus": bus, "hooks": hooks}
	plain := spec.Shape == "create" || spec.Shape == "delete"
	if plain {
		line["rec"], line["dry"], line["tx"], line["persist"], line["bus"] = false, false, true, false, "none"
	}
	w.rec.Log(line)
	ret := M{"ev": "ret", "c": spec.Name, "err": false, "brk": false, "panic": false, "inj": false, "locked": false, "acts": 0, "outok": true}
	func() {
		defer func() {
			if p := recover(); p != nil {
				ret["panic"] = true
				_, inj := p.(injectedPanic)
				ret["inj"] = inj
				if !inj {
					ret["what"] = fmt.Sprint(p)
				}
			}
		}()
		var res *ddd.Result
		switch spec.Shape {
		case "func":
			res = w.eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error { return w.repoMain(ctx, rc, repo) }, opts...)
		case "mainfunc":
			res = w.eng.Run(ctx, ddd.MainFunc(func(ctx context.Context, repo *ddd.Repository) error { return w.repoMain(ctx, rc, repo) }), opts...)
		case "main":
			if spec.Own {
				res = w.eng.Run(ctx, &mcmdBoth{mcmd{w, rc}}, opts...)
			} else {
				res = w.eng.Run(ctx, &mcmdInit{mcmd{w, rc}}, opts...)
			}
		case "mainonly":
			if spec.Own {
				res = w.eng.Run(ctx, &mcmdPost{mcmd{w, rc}}, opts...)
			} else {
				res = w.eng.Run(ctx, &mcmd{w, rc}, opts...)
			}
		case "icmd":
			c := &icmd{w: w, rc: rc}
			if spec.Seedless() {
				res = w.eng.RunCommand(ctx, c, opts...)
			} else {
				res = w.eng.Run(ctx, c, opts...)
			}
		case "stage":
			res = w.eng.NewStage().WithOption(opts...).Lock(append([]string{}, spec.Keys...)...).Main(func(ctx context.Context, repo *ddd.Repository) error {
				return w.repoMain(ctx, rc, repo)
			}).Save(ctx)
		case "create", "delete":
			roots := []ddd.IEntity{}
			env := &opEnv{add: func(e ddd.IEntity) { roots = append(roots, e) }, rm: func(e ddd.IEntity) { roots = append(roots, e) }}
			_ = w.runOps(ctx, rc, env)
			w.rec.Log(M{"ev": "mainend", "c": spec.Name, "r": "ok"})
			if spec.Shape == "create" {
				res = w.eng.Create(ctx, roots...)
			} else {
				res = w.eng.Delete(ctx, roots...)
			}
		}
		if res != nil {
			rc.res = res
			ret["err"] = res.Error != nil
			ret["brk"] = res.Break
			n := 0
			for _, a := range res.Actions {
				n += len(a.Models)
			}
			ret["acts"] = n
			want := interface{}(nil)
			if spec.Shape == "icmd" {
				want = "out-" + spec.Name
			}
			ret["outok"] = res.Output == want
			ret["inj"] = res.Error != nil && errorHasInjected(res.Error)
			if res.Error != nil {
				ret["what"] = res.Error.Error()
			}
		}
	}()
	// identities after the command
	ids := []M{}
	names := []string{}
	for n := range rc.ents {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ids = append(ids, M{"e": n, "id": w.idOf(rc.ents[n])})
	}
	ret["ids"] = ids
	w.rec.Log(ret)
}

// Seedless spreads icmd runs over both public entry points.
func (c *cmdSpec) Seedless() bool { return len(c.Ops)%2 == 0 }

func errorHasInjected(err error) bool {
	if errors.Is(err, errInjected) {
		return true
	}
	if l, ok := err.(ddd.ErrList); ok {
		for _, e := range l {
			if errorHasInjected(e) {
				return true
			}
		}
	}
	return false
}

// ---- operations of the command body

type opEnv struct {
	repo *ddd.Repository
	add  func(e ddd.IEntity)
	rm   func(e ddd.IEntity)
	save func() error
}

func (w *world) repoMain(ctx context.Context, rc *runCmd, repo *ddd.Repository) error {
	return w.mainBody(ctx, rc, &opEnv{
		repo: repo,
		add:  func(e ddd.IEntity) { repo.Add(e) },
		rm:   func(e ddd.IEntity) { rc.removing = true; defer func() { rc.removing = false }(); repo.Remove(e) },
		save: func() error { return repo.Save(ctx) },
	})
}

func (w *world) mainBody(ctx context.Context, rc *runCmd, env *opEnv) (err error) {
	w.rec.Log(M{"ev": "mainstart", "c": rc.name})
	r := "ok"
	fin := false
	defer func() {
		if !fin {
			w.rec.Log(M{"ev": "mainend", "c": rc.name, "r": "panic"})
		}
	}()
	err = w.runOps(ctx, rc, env)
	if errors.Is(err, ddd.ErrBreak) {
		r = "brk"
	} else if err != nil {
		r = "err"
	}
	fin = true
	w.rec.Log(M{"ev": "mainend", "c": rc.name, "r": r})
	return err
}

func (w *world) newEnt(rc *runCmd, name, typ, id string, v int) ent {
	var e ent
	switch typ {
	case "single":
		x := &Single{}
		e = x
	case "alt":
		x := &Alt{}
		e = x
	default:
		x := &Node{}
		e = x
	}
	m := e.meta()
	m.name, m.typ, m.cmd, m.world, m.val = name, typ, rc, w, v
	if id != "" {
		e.SetID(w.realID(typ, id))
	}
	rc.ents[name] = e
	return e
}

func addTo(p ent, slot string, c ent) bool {
	switch x := p.(type) {
	case *Node:
		switch slot {
		case "kids":
			if n, ok := c.(*Node); ok {
				x.Kids = append(x.Kids, n)
				return true
			}
		case "one":
			if n, ok := c.(*Single); ok && x.One == nil {
				x.One = n
				return true
			}
		case "map":
			if n, ok := c.(*Node); ok {
				if x.ByKey == nil {
					x.ByKey = map[string]*Node{}
				}
				x.ByKey[c.meta().name] = n
				return true
			}
		case "oth":
			x.Oth = append(x.Oth, c)
			return true
		}
	case *Single:
		if n, ok := c.(*Node); ok && slot == "kids" {
			x.Kids = append(x.Kids, n)
			return true
		}
	case *Alt:
		if slot == "a" {
			x.a = append(x.a, c)
			return true
		}
		if slot == "b" {
			x.b = append(x.b, c)
			return true
		}
	}
	return false
}

func delIface(l []ddd.IEntity, c ent) []ddd.IEntity {
	out := []ddd.IEntity{}
	for _, e := range l {
		if e != ddd.IEntity(c) {
			out = append(out, e)
		}
	}
	return out
}

func delNode(l []*Node, c ent) []*Node {
	out := []*Node{}
	for _, e := range l {
		if ent(e) != c {
			out = append(out, e)
		}
	}
	return out
}

func delFrom(p ent, slot string, c ent) {
	switch x := p.(type) {
	case *Node:
		switch slot {
		case "kids":
			x.Kids = delNode(x.Kids, c)
		case "one":
			x.One = nil
		case "map":
			delete(x.ByKey, c.meta().name)
		case "oth":
			x.Oth = delIface(x.Oth, c)
		}
	case *Single:
		x.Kids = delNode(x.Kids, c)
	case *Alt:
		if slot == "a" {
			x.a = delIface(x.a, c)
		} else {
			x.b = delIface(x.b, c)
		}
	}
}

// adopt takes over an entity built by the framework.
func (w *world) adopt(rc *runCmd, e ent, parent, slot string) M {
	m := e.meta()
	if m.name == "" {
		m.name = w.idOf(e)
	}
	m.cmd, m.world, m.typ = rc, w, typeName(e)
	rc.ents[m.name] = e
	if parent != "" {
		rc.place[m.name] = []placeT{{parent, slot}}
	}
	return M{"e": m.name, "id": w.idOf(e), "t": m.typ, "p": parent, "s": slot, "v": m.val}
}

// custom builds the whole stored tree below a root by hand.
func (w *world) buildTree(ctx context.Context, rc *runCmd, e ent, ex *fakeExec) []M {
	out := []M{}
	w.mu.Lock()
	view := ex.view(ex.tx(ctx))
	w.mu.Unlock()
	ids := []string{}
	for id, r := range view {
		if r.P == w.idOf(e) && r.P != "" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		r := view[id]
		c := w.newEnt(rc, id, r.T, id, r.V)
		c.meta().slot = r.S
		if addTo(e, r.S, c) {
			rc.place[id] = []placeT{{e.meta().name, r.S}}
			out = append(out, M{"e": id, "id": id, "t": r.T, "p": e.meta().name, "s": r.S, "v": r.V})
			out = append(out, w.buildTree(ctx, rc, c, ex)...)
		}
	}
	return out
}

func (w *world) doBuild(ctx context.Context, rc *runCmd, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	roots := []ddd.IEntity{}
	w.rec.Log(M{"ev": "buildstart", "c": rc.name})
	for _, op := range rc.spec.Ops {
		if str(op[0]) == "builderr" {
			w.rec.Log(M{"ev": "mainend", "c": rc.name, "r": "err"})
			return nil, errInjected
		}
		if str(op[0]) != "load" || str(op[1]) != "build" {
			continue
		}
		id := str(op[2])
		root := &Node{}
		root.SetID(id)
		root.m.name, root.m.cmd, root.m.world = id, nil, w
		ents, err := w.buildRec(ctx, rc, b, root)
		if err != nil {
			w.rec.Log(M{"ev": "op", "c": rc.name, "op": "load", "mode": "build", "root": id, "ents": []M{}, "r": loadErr(err)})
			w.rec.Log(M{"ev": "mainend", "c": rc.name, "r": "err"})
			return nil, err
		}
		ents = append([]M{w.adopt(rc, root, "", "")}, ents...)
		rc.place[id] = []placeT{{"$", ""}}
		w.rec.Log(M{"ev": "op", "c": rc.name, "op": "load", "mode": "build", "root": id, "ents": ents, "r": "ok"})
		roots = append(roots, root)
	}
	return roots, nil
}

func loadErr(err error) string {
	if errors.Is(err, ddd.ErrEntityNotFound) {
		return "notfound"
	}
	return "err"
}

// buildRec loads nodes level by level through the public builder.
func (w *world) buildRec(ctx context.Context, rc *runCmd, b ddd.DomainBuilder, n *Node) ([]M, error) {
	out := []M{}
	if err := b.Build(ctx, n, &n.Kids, &n.One); err != nil {
		return nil, err
	}
	for _, k := range n.Kids {
		out = append(out, w.adopt(rc, k, w.idOf(n), "kids"))
	}
	if n.One != nil {
		out = append(out, w.adopt(rc, n.One, w.idOf(n), "one"))
	}
	for _, k := range n.Kids {
		sub, err := w.buildRec(ctx, rc, b, k)
		if err != nil {
			return nil, err
		}
		out = append(out, sub...)
	}
	return out, nil
}

func (w *world) opLine(rc *runCmd, m M) {
	m["ev"], m["c"] = "op", rc.name
	w.rec.Log(m)
}

func (w *world) runOps(ctx context.Context, rc *runCmd, env *opEnv) error {
	for _, op := range rc.spec.Ops {
		if err := w.runOp(ctx, rc, env, op); err != nil {
			return err
		}
	}
	return nil
}

func (w *world) runOp(ctx context.Context, rc *runCmd, env *opEnv, op []interface{}) error {
	a := func(i int) string {
		if i < len(op) {
			return str(op[i])
		}
		return ""
	}
	e := rc.ents[a(1)]
	switch a(0) {
	case "load":
		if a(1) == "build" || env.repo == nil {
			return nil
		}
		return w.opLoad(ctx, rc, env, a(1), a(2))
	case "add": // add name type v explicit
		if e != nil {
			return nil
		}
		id := ""
		if truth(op[4]) {
			id = a(1)
		}
		n := w.newEnt(rc, a(1), a(2), id, num(op[3]))
		rc.place[a(1)] = []placeT{{"$", ""}}
		w.opLine(rc, M{"op": "new", "e": a(1), "t": a(2), "id": id, "v": num(op[3]), "p": "$", "s": ""})
		env.add(n)
	case "dupadd":
		if e == nil || !rc.at(a(1), "$") {
			return nil
		}
		w.opLine(rc, M{"op": "dupadd", "e": a(1)})
		env.add(e)
	case "rm":
		if e == nil || !rc.at(a(1), "$") {
			return nil
		}
		delete(rc.place, a(1))
		w.opLine(rc, M{"op": "rm", "e": a(1)})
		env.rm(e)
	case "rmnone": // remove a root that is not there (container only)
		if env.repo != nil || env.save == nil {
			return nil
		}
		w.opLine(rc, M{"op": "rmnone"})
		x := &Node{}
		x.SetID("nowhere")
		env.rm(x)
	case "rmid": // remove a stored root that was not loaded: rmid id type
		if e != nil || (env.repo == nil && env.save != nil) {
			return nil
		}
		r, in := w.rows[a(1)]
		if !in || r.P != "" {
			return nil
		}
		n := w.newEnt(rc, a(1), r.T, a(1), 0)
		w.opLine(rc, M{"op": "rmid", "e": a(1), "t": r.T, "id": a(1), "v": 0})
		env.rm(n)
	case "new": // new name type v explicit parent slot
		p := rc.ents[a(5)]
		if e != nil || p == nil {
			return nil
		}
		id := ""
		if truth(op[4]) {
			id = a(1)
		}
		n := w.newEnt(rc, a(1), a(2), id, num(op[3]))
		if !addTo(p, a(6), n) {
			delete(rc.ents, a(1))
			return nil
		}
		n.meta().slot = a(6)
		rc.place[a(1)] = []placeT{{a(5), a(6)}}
		w.opLine(rc, M{"op": "new", "e": a(1), "t": typeName(n), "id": id, "v": num(op[3]), "p": a(5), "s": a(6)})
	case "det":
		if e == nil || len(rc.place[a(1)]) != 1 || rc.at(a(1), "$") || rc.stale(a(1)) {
			return nil
		}
		pl := rc.place[a(1)][0]
		delFrom(rc.ents[pl.parent], pl.slot, e)
		delete(rc.place, a(1))
		w.opLine(rc, M{"op": "det", "e": a(1)})
	case "mov": // mov e parent slot
		p := rc.ents[a(2)]
		if e == nil || p == nil || len(rc.place[a(1)]) > 1 || rc.at(a(1), "$") || rc.below(a(2), a(1)) {
			return nil
		}
		if len(rc.place[a(1)]) == 1 && rc.place[a(1)][0] == (placeT{a(2), a(3)}) {
			return nil
		}
		if rc.stale(a(1)) || !addTo(p, a(3), e) {
			return nil
		}
		if len(rc.place[a(1)]) == 1 {
			pl := rc.place[a(1)][0]
			delFrom(rc.ents[pl.parent], pl.slot, e)
		}
		e.meta().slot = a(3)
		rc.place[a(1)] = []placeT{{a(2), a(3)}}
		w.opLine(rc, M{"op": "mov", "e": a(1), "p": a(2), "s": a(3)})
	case "dup": // dup e parent slot: attach a second time
		p := rc.ents[a(2)]
		if e == nil || p == nil || rc.below(a(2), a(1)) || len(rc.place[a(1)]) == 0 {
			return nil
		}
		for _, pl := range rc.place[a(1)] {
			if pl == (placeT{a(2), a(3)}) {
				return nil
			}
		}
		if rc.stale(a(1)) || !addTo(p, a(3), e) {
			return nil
		}
		rc.place[a(1)] = append(rc.place[a(1)], placeT{a(2), a(3)})
		w.opLine(rc, M{"op": "dup", "e": a(1), "p": a(2), "s": a(3)})
	case "set":
		if e == nil {
			return nil
		}
		e.meta().val = num(op[2])
		e.Dirty()
		w.opLine(rc, M{"op": "set", "e": a(1), "v": num(op[2])})
	case "touch": // marked as changed without a change
		if e == nil {
			return nil
		}
		e.Dirty()
		w.opLine(rc, M{"op": "set", "e": a(1), "v": e.meta().val})
	case "undirty":
		if e == nil {
			return nil
		}
		e.UnDirty()
		w.opLine(rc, M{"op": "undirty", "e": a(1)})
	case "hookset": // the next before-hook changes the value
		if e == nil || typeName(e) == "alt" {
			return nil
		}
		e.meta().hookV = num(op[2])
	case "ev": // ev entity name kind
		if e == nil {
			return nil
		}
		st := ddd.SendTypeNormal
		switch a(3) {
		case "tx":
			st = ddd.SendTypeTransaction
		case "fifo":
			st = ddd.SendTypeFIFO
		case "lax":
			st = ddd.SendTypeLaxFIFO
		}
		type adder interface {
			AddEvent(evt ddd.IEvent, opts ...ddd.EventOpt)
		}
		before := map[string]bool{}
		for _, d := range e.GetEvents() {
			before[d.ID] = true
		}
		e.(adder).AddEvent(&bizEvent{Name: a(2), Sender: a(1)}, ddd.WithSendType(st))
		for _, d := range e.GetEvents() {
			if !before[d.ID] {
				rc.evs[d.ID] = a(2)
			}
		}
		w.opLine(rc, M{"op": "ev", "e": a(1), "evt": a(2), "txe": a(3) == "tx"})
	case "save":
		if env.save == nil {
			return nil
		}
		w.rec.Log(M{"ev": "save", "c": rc.name})
		err := env.save()
		r := "ok"
		if err != nil {
			r = "err"
		}
		rc.markOrphans()
		w.rec.Log(M{"ev": "saved", "c": rc.name, "r": r})
		return err
	case "run":
		if s := w.seen[a(1)]; s != nil && s.Nested {
			w.runCmd(ctx, s)
		}
	case "err":
		return errInjected
	case "brk":
		return ddd.ErrBreak
	case "cxl": // the caller gives up waiting
		w.opLine(rc, M{"op": "cxl"})
		rc.cancel()
	case "brkwrap":
		return fmt.Errorf("wrapped: %w", ddd.ErrBreak)
	case "pan":
		panic(injectedPanic{"main"})
	}
	return nil
}

func (rc *runCmd) at(e, parent string) bool {
	for _, p := range rc.place[e] {
		if p.parent == parent {
			return true
		}
	}
	return false
}

// markOrphans remembers, at an intermediate save, the stored entities that sit below a
// removed one (see the known finding on re-attaching them later in the same command).
func (rc *runCmd) markOrphans() {
	if rc.spec.Rec {
		return
	}
	for n := range rc.ents {
		if len(rc.place[n]) > 0 && !rc.below(n, "$") {
			rc.orphan[n] = true
		}
	}
}

func (rc *runCmd) stale(e string) bool {
	if rc.w.sc.Orphans {
		return false
	}
	for n := range rc.orphan {
		if rc.below(n, e) {
			return true
		}
	}
	return false
}

// below says whether x is e or lies below e.
func (rc *runCmd) below(x, e string) bool {
	if x == e {
		return true
	}
	for _, p := range rc.place[x] {
		if rc.below(p.parent, e) {
			return true
		}
	}
	return false
}

func (w *world) opLoad(ctx context.Context, rc *runCmd, env *opEnv, mode, id string) error {
	if rc.ents[id] != nil || w.overlaps(ctx, rc, mode, id) {
		return nil
	}
	line := M{"ev": "op", "c": rc.name, "op": "load", "mode": mode, "root": id, "ents": []M{}, "r": "ok"}
	fail := func(err error) error {
		line["r"] = loadErr(err)
		w.rec.Log(line)
		return err
	}
	ents := []M{}
	switch mode {
	case "get", "getkids", "getone", "getroot", "getval":
		root := &Node{}
		root.SetID(id)
		root.m.world = w
		var err error
		switch mode {
		case "get":
			err = env.repo.Get(ctx, root, &root.Kids, &root.One)
		case "getval": // child given by value pointer instead of pointer to pointer
			one := &Single{}
			err = env.repo.Get(ctx, root, one)
			if err == nil {
				line["one"] = w.idOf(one)
			}
		case "getkids":
			err = env.repo.Get(ctx, root, &root.Kids)
		case "getone":
			err = env.repo.Get(ctx, root, &root.One)
		default:
			err = env.repo.Get(ctx, root)
		}
		if err != nil {
			return fail(err)
		}
		ents = append(ents, w.adopt(rc, root, "$", ""))
		ents[0]["p"] = ""
		for _, k := range root.Kids {
			ents = append(ents, w.adopt(rc, k, id, "kids"))
		}
		if root.One != nil {
			ents = append(ents, w.adopt(rc, root.One, id, "one"))
		}
	case "custom":
		w.mu.Lock()
		r, in := w.eng0().view(w.eng0().tx(ctx))[id]
		w.mu.Unlock()
		if !in {
			return nil
		}
		root := w.newEnt(rc, id, r.T, id, r.V)
		root.meta().slot = r.S
		err := env.repo.CustomGet(ctx, func(ctx context.Context, roots ...ddd.IEntity) {
			rc.place[id] = []placeT{{"$", ""}}
			ents = append(ents, M{"e": id, "id": id, "t": r.T, "p": "", "s": r.S, "v": r.V})
			ents = append(ents, w.buildTree(ctx, rc, root, w.eng0())...)
		}, root)
		if err != nil {
			return fail(err)
		}
	case "noid":
		root := &Node{}
		if err := env.repo.Get(ctx, root); err != nil {
			return fail(err)
		}
		ents = append(ents, M{"e": "noid", "id": "", "t": "node", "p": "", "s": "", "v": 0})
	case "badarg":
		root := &Node{}
		root.SetID(id)
		x := 5
		if err := env.repo.Get(ctx, root, &x); err != nil {
			return fail(err)
		}
	case "badarg2":
		root := &Node{}
		root.SetID(id)
		if err := env.repo.Get(ctx, root, root.Kids); err != nil {
			return fail(err)
		}
	}
	line["ents"] = ents
	w.rec.Log(line)
	return nil
}

// overlaps says whether loading would yield an entity the command already works on
// (two objects for one row: what that means is left open).
func (w *world) overlaps(ctx context.Context, rc *runCmd, mode, id string) bool {
	w.mu.Lock()
	view := w.eng0().view(w.eng0().tx(ctx))
	w.mu.Unlock()
	var below func(id string, deep bool) bool
	below = func(id string, deep bool) bool {
		for k, r := range view {
			if r.P == id && id != "" && (rc.ents[k] != nil || deep && below(k, deep)) {
				return true
			}
		}
		return false
	}
	return below(id, mode == "custom")
}

func (w *world) eng0() *fakeExec { return &fakeExec{w} }

var lastPorts int
