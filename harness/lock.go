package harness

import (
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/bsm/redislock"
	"github.com/bytedance/dddfirework"
	lockdb "github.com/bytedance/dddfirework/lock/db"
	lockredis "github.com/bytedance/dddfirework/lock/redis"
	"github.com/go-logr/logr"
	"github.com/redis/go-redis/v9"
	"gorm.io/gorm"
)

func sha1hex(s string) string { h := sha1.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

type lockScen struct {
	Fam    string          `json:"fam"`
	ID     string          `json:"id"`
	Kind   string          `json:"kind"` // db, redis
	Seed   int             `json:"seed"`
	Sched  string          `json:"sched"` // "", rnd, man (statements proceed only when the scenario says so)
	TTL    int             `json:"ttl"`
	RI     int             `json:"ri"`
	Retry  bool            `json:"retry"`
	Slack  int             `json:"slack"` // how long the scenario itself delays statements
	Trans  bool            `json:"trans"` // gorm translates errors
	Steps  [][]interface{} `json:"steps"`
	Faults []*dbFault      `json:"dbfaults"`
	Enum   *faultPlan      `json:"enum,omitempty"`
	Case   string          `json:"case,omitempty"`
}

var lockDDL = []string{
	"CREATE TABLE `resource_lock` (`id` integer PRIMARY KEY AUTOINCREMENT, `resource` varchar(255) NOT NULL UNIQUE, `locker_id` varchar(255), `created_at` datetime, `updated_at` datetime)",
}

type lockCallKey struct{}

type lockProc struct {
	name  string
	db    *lockdb.DBLock
	lock  dddfirework.ILock
	holds map[string]interface{}
	keys  map[string]string
	runs  map[string]context.CancelFunc
	cids  map[string]int
	hand  map[string]chan struct{}
	open  int
	mark  int
}

type lockWorld struct {
	*simWorld
	s     *lockScen
	srv   *redisSrv
	procs map[string]*lockProc
	toks  map[string]string
	cseq  int
	rows  map[string]string
	base  int
	done  map[int]bool
	claim map[string]int
	cmds  map[string]int
}

func (w *lockWorld) lk() func() { w.db.mu.Lock(); return w.db.mu.Unlock }

// tok gives every holding a short name.
func (w *lockWorld) tok(s string) string {
	if s == "" {
		return ""
	}
	if t, ok := w.toks[s]; ok {
		return t
	}
	t := fmt.Sprintf("h%d", len(w.toks)+1)
	w.toks[s] = t
	return t
}

func (w *lockWorld) proc(n string) *lockProc {
	if p := w.procs[n]; p != nil {
		return p
	}
	p := &lockProc{name: n, holds: map[string]interface{}{}, keys: map[string]string{}, runs: map[string]context.CancelFunc{}, cids: map[string]int{}, hand: map[string]chan struct{}{}}
	if w.s.Kind == "db" {
		g := w.db.Gorm(n)
		if w.s.Trans {
			g = g.Session(&gorm.Session{})
			c := *g.Config
			c.TranslateError = true
			g.Config = &c
		}
		p.db = lockdb.NewDBLock(g, ms(w.s.TTL), func(o *lockdb.Options) {
			o.RenewInterval, o.Retry, o.Logger = ms(w.s.RI), w.s.Retry, logr.Discard()
		})
		p.lock = p.db
	} else {
		cli := redis.NewClient(&redis.Options{Addr: n, Dialer: w.srv.dialer(n), DialTimeout: time.Hour, ReadTimeout: -1, WriteTimeout: -1, PoolTimeout: time.Hour,
			MaxRetries: 2, MinRetryBackoff: -1, MaxRetryBackoff: -1})
		p.lock = lockredis.NewRedisLock(cli, ms(w.s.TTL))
	}
	w.procs[n] = p
	return p
}

func (w *lockWorld) snap(actor string) {
	cid := 0
	if w.db.curCtx != nil {
		if v, ok := w.db.curCtx.Value(lockCallKey{}).(int); ok {
			cid = v
		}
	}
	cur := map[string]string{}
	full := map[string]M{}
	for _, r := range w.db.Query("SELECT resource, locker_id, updated_at FROM resource_lock ORDER BY resource") {
		k := str2(r[0])
		m := M{"key": k, "own": w.tok(str2(r[1])), "at": w.at(r[2])}
		cur[k] = string(mustJSON(m))
		full[k] = m
	}
	ks := []string{}
	for k := range w.rows {
		if _, ok := cur[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w.log(M{"op": "kv", "i": actor, "c": cid, "key": k, "own": "", "at": 0})
	}
	ks = nil
	for k := range cur {
		if w.rows[k] != cur[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := full[k]
		m["op"], m["i"], m["c"] = "kv", actor, cid
		w.log(m)
	}
	w.rows = cur
}

func (w *lockWorld) used(p *lockProc) int {
	n := 0
	if w.srv != nil {
		return w.cmds[p.name]
	}
	for _, s := range w.db.stmts {
		if s.Actor == p.name {
			n++
		}
	}
	return n
}

func (w *lockWorld) late(p *lockProc) int {
	n := 0
	if p.open == 0 && p.mark >= 0 {
		n = w.used(p) - p.mark
	}
	p.mark = w.used(p)
	return n
}

func (w *lockWorld) isDead(n string) bool {
	if w.srv != nil {
		return w.srv.dead[n]
	}
	return w.db.dead[n]
}

// begin records the start of a call; w.db.mu is held while recording.
func (w *lockWorld) begin(p *lockProc, k, key, own string) (int, bool) {
	defer w.lk()()
	if w.isDead(p.name) {
		return 0, false
	}
	w.cseq++
	w.log(M{"op": "call", "i": p.name, "k": k, "c": w.cseq, "key": key, "own": own, "late": w.late(p)})
	p.open++
	return w.cseq, true
}

func (w *lockWorld) end(p *lockProc, c int, k string, r string, own string, cx bool) {
	w.db.mu.Lock()
	if w.isDead(p.name) {
		w.db.mu.Unlock()
		select {}
	}
	p.open--
	p.mark = w.used(p)
	w.done[c] = true
	if own != "" && r == "ok" {
		w.claim[own] = c
	}
	w.log(M{"op": "ret", "i": p.name, "k": k, "c": c, "r": r, "own": own, "cx": cx})
	w.db.mu.Unlock()
}

func result(err error) string {
	if err == nil {
		return "ok"
	}
	if errors.Is(err, dddfirework.ErrEntityLocked) {
		return "locked"
	}
	return "err"
}

func (w *lockWorld) token(l interface{}) string {
	switch x := l.(type) {
	case *lockdb.ResourceLock:
		return w.tok(x.LockerID)
	case *redislock.Lock:
		if x == nil {
			return "?"
		}
		return w.tok(x.Token())
	}
	return "?"
}

func (w *lockWorld) ctx(p *lockProc, h string, c int) context.Context {
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), lockCallKey{}, c))
	p.runs[h], p.cids[h] = cancel, c
	return ctx
}

func (w *lockWorld) step(st []interface{}) {
	arg := func(i int) string {
		if i < len(st) {
			return str(st[i])
		}
		return ""
	}
	switch arg(0) {
	case "lock": // i, holding, key
		p, h, key := w.proc(arg(1)), arg(2), arg(3)
		c, ok := w.begin(p, "lock", key, "?")
		if !ok {
			return
		}
		ctx := w.ctx(p, h, c)
		go func() {
			l, err := p.lock.Lock(ctx, key)
			own := ""
			r := result(err)
			if r == "ok" {
				w.db.mu.Lock()
				own = w.token(l)
				p.holds[h], p.keys[h] = l, key
				w.db.mu.Unlock()
			}
			w.end(p, c, "lock", r, own, false)
		}()
	case "unlock": // i, holding
		p, h := w.proc(arg(1)), arg(2)
		l := p.holds[h]
		if l == nil {
			return
		}
		c, ok := w.begin(p, "unlock", p.keys[h], w.token(l))
		if !ok {
			return
		}
		ctx := w.ctx(p, h, c)
		go func() {
			err := p.lock.UnLock(ctx, l)
			r := "ok"
			if err != nil {
				r = "err"
			}
			w.end(p, c, "unlock", r, "", false)
		}()
	case "run": // i, name, key, ms, mode
		p, h, key, d, mode := w.proc(arg(1)), arg(2), arg(3), num(st[4]), arg(5)
		c, ok := w.begin(p, "run", key, "?")
		if !ok {
			return
		}
		ctx := w.ctx(p, h, c)
		hand := make(chan struct{})
		p.hand[h] = hand
		if mode == "hand" { // works until the scenario says it is done
			d = 1 << 30
		}
		go func() {
			var sub context.Context
			r := ""
			note := func(m M) {
				w.db.mu.Lock()
				if w.isDead(p.name) {
					w.db.mu.Unlock()
					select {}
				}
				w.log(m)
				w.db.mu.Unlock()
			}
			func() {
				defer func() {
					if x := recover(); x != nil {
						r = "pan"
					}
				}()
				r = result(p.db.Run(ctx, key, func(ctx context.Context) {
					sub = ctx
					note(M{"op": "ws", "i": p.name, "c": c})
					t := time.NewTimer(ms(d))
					defer t.Stop()
					told := false
					for run := true; run; {
						cx := ctx.Done()
						if told {
							cx = nil
						}
						select {
						case <-t.C:
							run = false
						case <-hand:
							run = false
						case <-cx:
							told = true
							note(M{"op": "cx", "i": p.name, "c": c})
							run = mode != "obey"
						}
					}
					note(M{"op": "we", "i": p.name, "c": c})
					if mode == "panic" {
						panic("work")
					}
				}))
			}()
			w.end(p, c, "run", r, "", sub == nil || sub.Err() != nil)
		}()
	case "done":
		p := w.proc(arg(1))
		if h := p.hand[arg(2)]; h != nil {
			close(h)
			delete(p.hand, arg(2))
		}
	case "cancel": // i, name: the caller's own context ends
		p := w.proc(arg(1))
		if f := p.runs[arg(2)]; f != nil {
			c := p.cids[arg(2)]
			w.db.mu.Lock()
			live := !w.done[c] && !w.isDead(p.name)
			if live {
				w.log(M{"op": "pc", "i": p.name, "c": c})
			}
			w.db.mu.Unlock()
			if live {
				f()
			}
		}
	case "steal", "take": // somebody removes or replaces the row
		key := arg(1)
		if w.srv != nil {
			w.srv.mu.Lock()
			if arg(0) == "steal" {
				w.srv.del("operator", key)
			} else {
				w.srv.put("operator", key, "op", ms(w.s.TTL))
			}
			w.srv.mu.Unlock()
			return
		}
		g := w.oper()
		go func() {
			if arg(0) == "steal" {
				g.Exec("DELETE FROM resource_lock WHERE resource = ?", key)
			} else {
				g.Exec("UPDATE resource_lock SET locker_id = 'op', updated_at = ? WHERE resource = ?", time.Now(), key)
			}
		}()
		if w.s.Sched == "man" { // at once
			for i := 0; i < 6; i++ {
				w.advance("operator")
			}
		}
	case "crash":
		n := arg(1)
		w.db.mu.Lock()
		if !w.isDead(n) {
			w.log(M{"op": "crash", "i": n})
			if w.srv != nil {
				w.srv.kill(n)
			} else {
				w.db.kill(n)
			}
		}
		w.db.mu.Unlock()
	case "go": // the process gets as far as its next transaction, command or the end of the call
		w.advance(arg(1))
	case "par":
		for _, x := range st[1:] {
			w.step(x.([]interface{}))
		}
		return
	case "wait":
		w.run(ms(num(st[1])))
		w.db.mu.Lock()
		w.log(M{"op": "tick"})
		w.db.mu.Unlock()
	case "end":
		w.ctl.Disable()
		for _, n := range sortedProcs(w.procs) {
			for h, c := range w.procs[n].hand {
				close(c)
				delete(w.procs[n].hand, h)
			}
		}
		w.run(ms(num(st[1])))
		w.db.mu.Lock()
		late := 0
		for n, p := range w.procs {
			if n != "operator" && !w.isDead(p.name) {
				late += w.late(p)
			}
		}
		w.log(M{"op": "end", "left": lockGoroutines() - w.base, "late": late})
		w.db.mu.Unlock()
	default:
		panic("unknown lock step " + arg(0))
	}
}

func (w *lockWorld) oper() *gorm.DB {
	p := w.procs["operator"]
	if p == nil {
		p = &lockProc{name: "operator"}
		w.procs["operator"] = p
	}
	return w.db.Gorm("operator")
}

// advance releases the statements of one transaction (or one command) of an actor.
func (w *lockWorld) advance(n string) {
	settle()
	for k := 0; k < 20; k++ {
		if !w.ctl.Release(n) {
			return
		}
		settle()
		w.db.mu.Lock()
		inTx := false
		for _, c := range w.db.conns {
			if c.actor == n && c.tx != nil {
				inTx = true
			}
		}
		w.db.mu.Unlock()
		if !inTx {
			return
		}
	}
}

// lockGoroutines counts the goroutines that execute the lock packages.
func lockGoroutines() int { return goroutinesOf("dddfirework/lock/") }

func RunLockScenario(s *lockScen) ([]M, []stmtRec) {
	w := &lockWorld{s: s, procs: map[string]*lockProc{}, toks: map[string]string{}, rows: map[string]string{}, done: map[int]bool{}, claim: map[string]int{}, cmds: map[string]int{}, base: lockGoroutines()}
	sched := s.Sched
	w.simWorld = newSimWorld(lockDDL, sched, s.Seed, s.Faults)
	defer w.close()
	w.db.onCommit = w.snap
	slack, least, most := s.Slack, 0, 1<<30
	for _, f := range s.Faults {
		slack += f.Ms
	}
	if s.Kind == "redis" {
		w.srv = newRedisSrv(w.ctl)
		w.srv.faults = s.Faults
		w.srv.onChange = func(actor, key, val string, exp time.Time) {
			w.db.mu.Lock()
			at := 0
			if val != "" {
				at = 1 << 30
				if !exp.IsZero() {
					at = w.at(exp.Add(-ms(s.TTL)))
				}
			}
			w.log(M{"op": "kv", "i": actor, "c": 0, "key": key, "own": w.tok(val), "at": at})
			w.db.mu.Unlock()
		}
		w.srv.onGone = func(key string) { w.db.mu.Lock(); w.log(M{"op": "gone", "key": key}); w.db.mu.Unlock() }
		w.srv.onFault = func(f *dbFault, kind string) {
			w.db.mu.Lock()
			w.log(M{"op": "fault", "i": f.Actor, "k": f.Kind, "s": kind})
			w.db.mu.Unlock()
		}
		w.srv.onCmd = func(a string) { w.db.mu.Lock(); w.cmds[a]++; w.db.mu.Unlock() }
		w.srv.onKill = func(a string) { w.db.mu.Lock(); w.log(M{"op": "crash", "i": a}); w.db.mu.Unlock() }
		defer w.srv.close()
		slack += 100
		least = 2500
		if s.TTL < least {
			least = s.TTL
		}
		most = 4000
	}
	w.log(M{"op": "cfg", "kind": s.Kind, "ttl": s.TTL, "ri": s.RI, "retry": s.Retry || s.Kind == "redis", "slack": slack, "least": least, "most": most})
	for _, st := range s.Steps {
		w.step(st)
		w.settled()
	}
	out := w.rec.Lines()
	for _, m := range out { // who acquired a Redis key is known from the token that was returned
		if m["op"] == "kv" && m["c"] == 0 {
			if c, ok := w.claim[str(m["own"])]; ok {
				m["c"] = c
			}
		}
	}
	if w.srv != nil {
		return out, w.srv.cmds
	}
	return out, w.db.stmts
}

func (s *lockScen) run() ([]M, []stmtRec)   { return RunLockScenario(s) }
func (s *lockScen) enum() (*faultPlan, int) { p := s.Enum; s.Enum = nil; return p, s.Seed }
func (s *lockScen) fault(f *dbFault)        { s.Faults = append(s.Faults, f) }

func sortedProcs(m map[string]*lockProc) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
