// Package harness drives the real dddfirework code and records traces that TLC validates.
package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"sync"
	"testing/synctest"
	"time"
)

// M is one trace line (or any loose JSON object).
type M map[string]interface{}

// Recorder collects the trace of one scenario.
type Recorder struct {
	mu    sync.Mutex
	lines []M
}

func (r *Recorder) Log(m M) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.lines = append(r.lines, m)
}

func (r *Recorder) Lines() []M {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := make([]M, len(r.lines))
	copy(out, r.lines)
	return out
}

// ---------------------------------------------------------------- scheduling

// gateOp is a port call or SQL statement waiting for permission to proceed.
type gateOp struct {
	actor string
	desc  string
	seq   int
	ch    chan struct{}
}

// Controller serialises the port calls of concurrently running actors inside a
// synctest bubble: every call parks at the gate, the controller releases one at
// a time according to the schedule, and virtual time only advances when the
// controller sleeps.
type Controller struct {
	mu      sync.Mutex
	on      bool
	pending []*gateOp
	seq     int
	history []string
	wake    chan struct{} // signalled when somebody arrives at the gate
}

func (c *Controller) Enable() { c.mu.Lock(); c.on = true; c.mu.Unlock() }
func (c *Controller) Disable() { // release everything and stop gating
	c.mu.Lock()
	c.on = false
	p := c.pending
	c.pending = nil
	c.mu.Unlock()
	for _, o := range p {
		close(o.ch)
	}
}

// Gate parks the caller until it is released (no-op when gating is off).
func (c *Controller) Gate(actor, desc string) {
	if c == nil {
		return
	}
	c.mu.Lock()
	if !c.on {
		c.mu.Unlock()
		return
	}
	c.seq++
	o := &gateOp{actor: actor, desc: desc, seq: c.seq, ch: make(chan struct{})}
	c.pending = append(c.pending, o)
	if c.wake != nil {
		select {
		case c.wake <- struct{}{}:
		default:
		}
	}
	c.mu.Unlock()
	<-o.ch
}

// Pending returns the actors that wait at the gate, sorted by name.
func (c *Controller) Pending() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	set := map[string]bool{}
	for _, o := range c.pending {
		set[o.actor] = true
	}
	out := []string{}
	for a := range set {
		out = append(out, a)
	}
	sort.Strings(out)
	return out
}

// Release lets the oldest pending call of actor proceed ("" = any actor).
func (c *Controller) Release(actor string) bool {
	c.mu.Lock()
	for i, o := range c.pending {
		if actor == "" || o.actor == actor {
			c.pending = append(c.pending[:i:i], c.pending[i+1:]...)
			c.history = append(c.history, o.actor+":"+o.desc)
			c.mu.Unlock()
			close(o.ch)
			return true
		}
	}
	c.mu.Unlock()
	return false
}

// ReleaseRandom lets one of the waiting calls proceed (false: nobody waits).
func (c *Controller) ReleaseRandom(r *rng) bool {
	c.mu.Lock()
	if len(c.pending) == 0 {
		c.mu.Unlock()
		return false
	}
	sort.SliceStable(c.pending, func(i, j int) bool {
		a, b := c.pending[i], c.pending[j]
		if a.actor != b.actor {
			return a.actor < b.actor
		}
		return a.desc < b.desc
	})
	i := r.n(len(c.pending))
	o := c.pending[i]
	c.pending = append(c.pending[:i:i], c.pending[i+1:]...)
	c.mu.Unlock()
	close(o.ch)
	return true
}

// settle waits until every goroutine of the bubble is parked.
func settle() { synctest.Wait() }

func sleep(d time.Duration) { time.Sleep(d) }

// ---------------------------------------------------------------- misc

type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{s: seed*2862933555777941757 + 3037000493} }
func (r *rng) next() uint64 {
	r.s ^= r.s << 13
	r.s ^= r.s >> 7
	r.s ^= r.s << 17
	return r.s * 2685821657736338717
}
func (r *rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int((r.next() >> 11) % uint64(k))
}
func (r *rng) chance(pct int) bool { return r.n(100) < pct }

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func str(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case nil:
		return ""
	default:
		return fmt.Sprint(x)
	}
}

func num(v interface{}) int {
	switch x := v.(type) {
	case float64:
		return int(x)
	case int:
		return x
	case bool:
		if x {
			return 1
		}
		return 0
	}
	return 0
}

func truth(v interface{}) bool {
	switch x := v.(type) {
	case bool:
		return x
	case float64:
		return x != 0
	case string:
		return x != ""
	}
	return false
}
