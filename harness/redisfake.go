package harness

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// redisSrv: a Redis server in memory, spoken to over pipes, in virtual time.
type redisSrv struct {
	mu       sync.Mutex
	ctl      *Controller
	kv       map[string]*redisKey
	scripts  map[string]string
	count    map[string]int
	cmds     []stmtRec
	faults   []*dbFault
	dead     map[string]bool
	conns    []net.Conn
	onChange func(actor, key, val string, exp time.Time)
	onGone   func(key string)
	onFault  func(f *dbFault, kind string)
	onKill   func(actor string)
	onCmd    func(actor string)
}

type redisKey struct {
	val string
	exp time.Time
	seq int
}

func newRedisSrv(ctl *Controller) *redisSrv {
	return &redisSrv{ctl: ctl, kv: map[string]*redisKey{}, scripts: map[string]string{}, count: map[string]int{}, dead: map[string]bool{}}
}

func (s *redisSrv) dialer(actor string) func(ctx context.Context, network, addr string) (net.Conn, error) {
	return func(ctx context.Context, network, addr string) (net.Conn, error) {
		a, b := net.Pipe()
		s.mu.Lock()
		s.conns = append(s.conns, a)
		s.mu.Unlock()
		go s.serve(actor, a)
		return b, nil
	}
}

func (s *redisSrv) close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.Close()
	}
}

func (s *redisSrv) kill(actor string) { s.dead[actor] = true }

func (s *redisSrv) serve(actor string, c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		args, err := readRESP(r)
		if err != nil {
			return
		}
		cmd := strings.ToLower(args[0])
		plain := cmd == "hello" || cmd == "client" || cmd == "ping" || cmd == "select" || cmd == "auth"
		if !plain {
			s.ctl.Gate(actor, cmd)
		}
		s.mu.Lock()
		if s.dead[actor] {
			s.mu.Unlock()
			return
		}
		var f *dbFault
		if !plain {
			s.count[actor]++
			s.onCmd(actor)
			n := s.count[actor]
			s.cmds = append(s.cmds, stmtRec{Actor: actor, Kind: "commit", N: n, Mod: true})
			for _, x := range s.faults {
				if x.Actor == actor && x.N == n {
					f = x
				}
			}
		}
		if f != nil {
			s.onFault(f, cmd)
			switch f.Kind {
			case "err":
				s.mu.Unlock()
				io.WriteString(c, "-ERR injected server error\r\n")
				continue
			case "drop":
				s.mu.Unlock()
				return
			case "crash":
				s.onKill(actor)
				s.kill(actor)
				s.mu.Unlock()
				select {}
			case "stall":
				s.mu.Unlock()
				time.Sleep(time.Duration(f.Ms) * time.Millisecond)
				s.mu.Lock()
			}
		}
		if s.dead[actor] {
			s.mu.Unlock()
			return
		}
		out := s.exec(actor, args)
		if f != nil {
			switch f.Kind {
			case "errafter":
				out = "-ERR injected server error\r\n"
			case "dropafter":
				s.mu.Unlock()
				return
			case "crashafter":
				s.onKill(actor)
				s.kill(actor)
				s.mu.Unlock()
				select {}
			}
		}
		s.mu.Unlock()
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func (s *redisSrv) live(k string) *redisKey {
	x := s.kv[k]
	if x != nil && !x.exp.IsZero() && !time.Now().Before(x.exp) {
		delete(s.kv, k)
		s.onGone(k)
		return nil
	}
	return x
}

func (s *redisSrv) put(actor, k, v string, ttl time.Duration) {
	x := &redisKey{val: v}
	if ttl > 0 {
		x.exp = time.Now().Add(ttl)
		time.AfterFunc(ttl, func() {
			s.mu.Lock()
			if s.kv[k] == x {
				s.live(k)
			}
			s.mu.Unlock()
		})
	}
	s.kv[k] = x
	if s.onChange != nil {
		s.onChange(actor, k, v, x.exp)
	}
}

func (s *redisSrv) del(actor, k string) int {
	if s.live(k) == nil {
		return 0
	}
	delete(s.kv, k)
	s.onChange(actor, k, "", time.Time{})
	return 1
}

func (s *redisSrv) expire(actor, k string, ttl time.Duration) int {
	x := s.live(k)
	if x == nil {
		return 0
	}
	s.put(actor, k, x.val, ttl)
	return 1
}

// exec performs one command (mu held).
func (s *redisSrv) exec(actor string, a []string) string {
	integer := func(n int) string { return fmt.Sprintf(":%d\r\n", n) }
	bulk := func(v string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v) }
	switch strings.ToLower(a[0]) {
	case "hello":
		return "-ERR unknown command 'HELLO'\r\n"
	case "ping":
		return "+PONG\r\n"
	case "client", "select", "auth":
		return "+OK\r\n"
	case "setnx":
		if s.live(a[1]) != nil {
			return integer(0)
		}
		s.put(actor, a[1], a[2], 0)
		return integer(1)
	case "set":
		nx, xx, keep, ttl := false, false, false, time.Duration(0)
		for i := 3; i < len(a); i++ {
			switch strings.ToLower(a[i]) {
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "keepttl":
				keep = true
			case "ex", "px":
				n, _ := strconv.Atoi(a[i+1])
				ttl = time.Duration(n) * time.Millisecond
				if strings.ToLower(a[i]) == "ex" {
					ttl = time.Duration(n) * time.Second
				}
				i++
			}
		}
		x := s.live(a[1])
		if nx && x != nil || xx && x == nil {
			return "$-1\r\n"
		}
		if keep && x != nil && !x.exp.IsZero() {
			ttl = time.Until(x.exp)
		}
		s.put(actor, a[1], a[2], ttl)
		return "+OK\r\n"
	case "get":
		if x := s.live(a[1]); x != nil {
			return bulk(x.val)
		}
		return "$-1\r\n"
	case "exists":
		if s.live(a[1]) != nil {
			return integer(1)
		}
		return integer(0)
	case "del", "unlink":
		n := 0
		for _, k := range a[1:] {
			n += s.del(actor, k)
		}
		return integer(n)
	case "pexpire", "expire":
		n, _ := strconv.Atoi(a[2])
		u := time.Millisecond
		if strings.ToLower(a[0]) == "expire" {
			u = time.Second
		}
		return integer(s.expire(actor, a[1], time.Duration(n)*u))
	case "pttl", "ttl":
		x := s.live(a[1])
		if x == nil {
			return integer(-2)
		}
		if x.exp.IsZero() {
			return integer(-1)
		}
		return integer(int(time.Until(x.exp) / time.Millisecond))
	case "script":
		return "*1\r\n:0\r\n"
	case "evalsha", "eval":
		body := a[1]
		if strings.ToLower(a[0]) == "evalsha" {
			b, ok := s.scripts[a[1]]
			if !ok {
				return "-NOSCRIPT No matching script. Please use EVAL.\r\n"
			}
			body = b
		} else {
			s.scripts[sha1hex(body)] = body
		}
		n, _ := strconv.Atoi(a[2])
		keys, argv := a[3:3+n], a[3+n:]
		// the scripts of redislock: "if the key has this value then ... else ... end"
		norm := strings.Join(strings.Fields(strings.ToLower(body)), " ")
		if !strings.HasPrefix(norm, `if redis.call("get", keys[1]) == argv[1] then return `) || len(keys) != 1 {
			return "-ERR unsupported script\r\n"
		}
		x := s.live(keys[0])
		same := x != nil && x.val == argv[0]
		switch {
		case strings.Contains(norm, `redis.call("del"`):
			if same {
				return integer(s.del(actor, keys[0]))
			}
			return integer(0)
		case strings.Contains(norm, `redis.call("pexpire"`):
			if same {
				t, _ := strconv.Atoi(argv[1])
				return integer(s.expire(actor, keys[0], time.Duration(t)*time.Millisecond))
			}
			return integer(0)
		case strings.Contains(norm, `redis.call("pttl"`):
			if same {
				return integer(int(time.Until(x.exp) / time.Millisecond))
			}
			return integer(-3)
		}
		return "-ERR unsupported script\r\n"
	}
	return fmt.Sprintf("-ERR unknown command '%s'\r\n", a[0])
}

func readRESP(r *bufio.Reader) ([]string, error) {
	line := func() (string, error) {
		l, err := r.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err
	}
	l, err := line()
	if err != nil {
		return nil, err
	}
	if !strings.HasPrefix(l, "*") {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	out := []string{}
	for i := 0; i < n; i++ {
		l, err := line()
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimPrefix(l, "$"))
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}
