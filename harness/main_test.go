package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"testing"
	"testing/synctest"
)

// TestJob reads scenarios from $VERIF_JOB (one JSON object per line, field
// "fam" selects the family), runs them against the real code inside one
// synctest bubble and writes one JSON line per scenario to $VERIF_OUT:
// {"i":index,"id":..,"trace":[...]}.
func TestJob(t *testing.T) {
	job, out := os.Getenv("VERIF_JOB"), os.Getenv("VERIF_OUT")
	if job == "" {
		t.Skip("no job")
	}
	f, err := os.Open(job)
	if err != nil {
		panic(err)
	}
	o, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	wr := bufio.NewWriterSize(o, 1<<20)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	if pf := os.Getenv("VERIF_PROF"); pf != "" {
		pf, _ := os.Create(pf)
		_ = pprof.StartCPUProfile(pf)
	}
	synctest.Test(t, func(t *testing.T) {
		i := 0
		for sc.Scan() {
			line := append([]byte{}, sc.Bytes()...)
			runLine(i, line, wr)
			wr.Write(mustJSON(M{"i": i, "done": true}))
			wr.WriteByte('\n')
			wr.Flush()
			i++
		}
		wr.Flush()
		o.Close()
		if pf := os.Getenv("VERIF_PROF"); pf != "" {
			pprof.StopCPUProfile()
		}
		os.Exit(0) // background loops of the code under test never end: leave them behind
	})
}

type envelope struct {
	Fam    string `json:"fam"`
	ID     string `json:"id"`
	Faults string `json:"faults"` // "", "err", "panic", "both": repeat with every port call failing
}

func runLine(i int, line []byte, wr *bufio.Writer) {
	var env envelope
	if err := json.Unmarshal(line, &env); err != nil {
		panic(err)
	}
	emit := func(sub string, scen interface{}, trace []M) {
		b := mustJSON(M{"i": i, "id": env.ID + sub, "scen": scen, "trace": trace})
		wr.Write(b)
		wr.WriteByte('\n')
	}
	switch env.Fam {
	case "eng":
		runEngLine(line, env, emit)
	case "bus":
		runBusLine(line, env, emit)
	case "lock":
		runEnumLine(line, env, emit, func() enumScen { return &lockScen{} })
	case "rows":
		runEnumLine(line, env, emit, func() enumScen { return &rowsScen{} })
	case "flow":
		runEnumLine(line, env, emit, func() enumScen { return &flowScen{} })
	case "timer":
		runEnumLine(line, env, emit, func() enumScen { return &timerScen{} })
	case "router":
		s := &routerScen{}
		if err := json.Unmarshal(line, s); err != nil {
			panic(err)
		}
		emit("", s, RunRouterScenario(s))
	case "mem":
		s := &memScen{}
		if err := json.Unmarshal(line, s); err != nil {
			panic(err)
		}
		emit("", s, RunMemScenario(s))
	default:
		panic(fmt.Sprintf("unknown family %q", env.Fam))
	}
}

func runEngLine(line []byte, env envelope, emit func(string, interface{}, []M)) {
	load := func() *engScen {
		s := &engScen{}
		if err := json.Unmarshal(line, s); err != nil {
			panic(err)
		}
		return s
	}
	s := load()
	trace := RunEngineScenario(s)
	emit("", s, trace)
	n := lastPorts
	kinds := []string{}
	switch env.Faults {
	case "err":
		kinds = []string{"err"}
	case "panic":
		kinds = []string{"panic"}
	case "both":
		kinds = []string{"err", "panic"}
	}
	for _, k := range kinds {
		for j := 1; j <= n; j++ {
			s := load()
			s.Fault = &faultSpec{N: j, Kind: k}
			emit(fmt.Sprintf("#%s%d", k, j), s, RunEngineScenario(s))
		}
	}
}

func runBusLine(line []byte, env envelope, emit func(string, interface{}, []M)) {
	load := func() *busScen {
		s := &busScen{}
		if err := json.Unmarshal(line, s); err != nil {
			panic(err)
		}
		return s
	}
	s := load()
	trace, stmts := RunBusScenario(s)
	plan := s.Enum
	s.Enum = nil
	emit("", s, trace)
	if plan == nil {
		return
	}
	for _, f := range planFaults(plan, stmts, newRng(uint64(s.Seed)+99)) {
		s := load()
		s.Enum = nil
		s.Faults = append(s.Faults, f)
		trace, _ := RunBusScenario(s)
		emit(faultID(f), s, trace)
	}
}

// enumScen: a scenario that can be repeated with a fault at every point.
type enumScen interface {
	run() ([]M, []stmtRec)
	enum() (*faultPlan, int)
	fault(f *dbFault)
}

func runEnumLine(line []byte, env envelope, emit func(string, interface{}, []M), mk func() enumScen) {
	load := func() (enumScen, *faultPlan, int) {
		s := mk()
		if err := json.Unmarshal(line, s); err != nil {
			panic(err)
		}
		p, seed := s.enum()
		return s, p, seed
	}
	s, plan, seed := load()
	trace, stmts := s.run()
	emit("", s, trace)
	if plan == nil {
		return
	}
	for _, f := range planFaults(plan, stmts, newRng(uint64(seed)+99)) {
		s, _, _ := load()
		s.fault(f)
		trace, _ := s.run()
		emit(faultID(f), s, trace)
	}
}
