package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/eventbus/mem"
)

type memScen struct {
	Fam   string          `json:"fam"`
	ID    string          `json:"id"`
	Steps [][]interface{} `json:"steps"`
	Auto  bool            `json:"auto"` // the handler returns by itself, after Ms
	Ms    int             `json:"ms"`
	Par   bool            `json:"par"` // nothing settles between the steps
	Case  string          `json:"case,omitempty"`
}

// goroutinesOf counts the goroutines that were started by code of a package.
func goroutinesOf(pkg string) int {
	if stackBuf == nil {
		stackBuf = make([]byte, 1<<22)
	}
	n := 0
	for _, l := range strings.Split(string(stackBuf[:runtime.Stack(stackBuf, true)]), "\n") {
		if strings.HasPrefix(l, "created by ") && strings.Contains(l, pkg) {
			n++
		}
	}
	return n
}

var stackBuf []byte

const memPkg = "dddfirework/eventbus/mem."

func RunMemScenario(s *memScen) []M {
	rec := &Recorder{}
	log := rec.Log
	base := goroutinesOf(memPkg)
	var bus *mem.MemoryEventBus
	ctx, cancel := context.WithCancel(context.Background())
	sent := map[string]*dddfirework.DomainEvent{}
	copies := map[string]*dddfirework.DomainEvent{}
	var mu sync.Mutex
	hand := make(chan string)
	working := 0
	quiet := func() {
		settle()
		left := goroutinesOf(memPkg) - base
		log(M{"op": "quiet", "left": left})
	}
	calls := 0
	for _, st := range s.Steps {
		switch str(st[0]) {
		case "cap":
			log(M{"op": "cfg", "cap": num(st[1])})
			bus = mem.NewEventBus(num(st[1]))
			bus.RegisterEventHandler(func(c context.Context, e *dddfirework.DomainEvent) error {
				mu.Lock()
				name := "?"
				for n, x := range copies {
					if x.ID == e.ID {
						name = n
					}
				}
				log(M{"op": "hand", "e": name, "same": reflect.DeepEqual(e, copies[name])})
				working++
				mu.Unlock()
				r := "ok"
				if s.Auto {
					if s.Ms > 0 {
						time.Sleep(ms(s.Ms))
					}
				} else {
					r = <-hand
				}
				mu.Lock()
				working--
				log(M{"op": "done", "r": r})
				mu.Unlock()
				if r == "err" {
					return errors.New("handler")
				}
				return nil
			})
		case "send":
			calls++
			c := calls
			names, evs := []string{}, []*dddfirework.DomainEvent{}
			for _, x := range st[2:] {
				n := str(x)
				mk := func() *dddfirework.DomainEvent {
					return &dddfirework.DomainEvent{ID: "id-" + n, Type: dddfirework.EventType("t." + n), SendType: dddfirework.SendTypeNormal, Sender: "s" + n,
						Payload: json.RawMessage(fmt.Sprintf(`{"n":%q}`, n)), CreatedAt: time.Unix(1000000, int64(c))}
				}
				mu.Lock()
				sent[n], copies[n] = mk(), mk()
				mu.Unlock()
				names, evs = append(names, n), append(evs, sent[n])
			}
			mu.Lock()
			log(M{"op": "call", "c": c, "evs": names})
			mu.Unlock()
			go func() {
				r := "ok"
				if err := bus.Dispatch(context.Background(), evs...); err != nil {
					r = "err"
				}
				mu.Lock()
				log(M{"op": "ret", "c": c, "r": r})
				mu.Unlock()
			}()
		case "start":
			mu.Lock()
			log(M{"op": "start"})
			mu.Unlock()
			bus.Start(ctx)
		case "fin":
			settle()
			mu.Lock()
			w := working
			mu.Unlock()
			if w > 0 {
				hand <- str(st[1])
			}
		case "stop":
			settle() // the end of the context and a hand-over do not race in a scenario
			mu.Lock()
			log(M{"op": "stop"})
			mu.Unlock()
			cancel()
		case "wait":
			time.Sleep(ms(num(st[1])))
		default:
			panic("unknown step " + str(st[0]))
		}
		if !s.Par {
			quiet()
		}
	}
	if s.Par {
		time.Sleep(time.Hour)
	}
	quiet()
	if ctx.Err() == nil {
		mu.Lock()
		log(M{"op": "stop"})
		mu.Unlock()
		cancel()
	}
	for {
		settle()
		mu.Lock()
		w := working
		mu.Unlock()
		if w == 0 {
			break
		}
		if s.Auto {
			time.Sleep(ms(s.Ms) + time.Second)
		} else {
			hand <- "ok"
		}
	}
	quiet()
	return rec.Lines()
}
