package harness

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	mysqlexec "github.com/bytedance/dddfirework/executor/mysql"
	"gorm.io/datatypes"
	"gorm.io/gorm"
)

// The SQL executor: several executors on one database, actions inside and
// outside transactions.
type rowsScen struct {
	Fam    string          `json:"fam"`
	ID     string          `json:"id"`
	Seed   int             `json:"seed"`
	Sched  string          `json:"sched"`
	Tabs   []string        `json:"tabs"`
	Steps  [][]interface{} `json:"steps"`
	Faults []*dbFault      `json:"dbfaults"`
	Enum   *faultPlan      `json:"enum,omitempty"`
	Case   string          `json:"case,omitempty"`
}

// ---- what is stored

type rowKind string
type rowSt struct {
	A int
	B string
}
type rowPos struct {
	X int
	Y *int
}
type RowBase struct {
	Title string
	Num   int
}
type rowIn struct {
	Q string
	W time.Time
}
type rowDeep struct {
	In rowIn `gorm:"embedded;embeddedPrefix:in_"`
	Z  bool
}
type itemPO struct {
	RowKey
	Name string
	N    int64
	F    float64
	B    bool
	U    uint8
	D    time.Duration
	Kind rowKind `gorm:"column:sort"`
	P    *int
	S    *string
	T    time.Time
	PT   *time.Time
	Tags []string       `gorm:"serializer:json"`
	M    map[string]int `gorm:"serializer:json"`
	J    datatypes.JSON
	Raw  []byte
	Pos  rowPos `gorm:"embedded;embeddedPrefix:pos_"`
	RowBase
	Deep      rowDeep     `gorm:"embedded;embeddedPrefix:deep_"`
	St        rowSt       `gorm:"serializer:json"`
	PSt       *rowSt      `gorm:"serializer:json"`
	Any       interface{} `gorm:"serializer:json"`
	Arr       [2]int      `gorm:"serializer:json"`
	NS        sql.NullString
	UpdatedAt time.Time
}
type RowKey struct {
	ID string `gorm:"primaryKey"`
}
type twinPO struct {
	ID string `gorm:"primaryKey"`
	L  rowPos `gorm:"embedded;embeddedPrefix:l_"`
	R  rowPos `gorm:"embedded;embeddedPrefix:r_"`
	X  int
}
type pairPO struct {
	Own  string `gorm:"primaryKey"`
	Nr   int64  `gorm:"primaryKey;autoIncrement:false"`
	Name string
	N    int64
}
type numPO struct {
	Nr   int64 `gorm:"primaryKey;autoIncrement:false"`
	Name string
	N    int64
}
type softPO struct {
	ID        string `gorm:"primaryKey;column:code"`
	Name      string
	N         int64
	UpdatedAt time.Time
	DeletedAt gorm.DeletedAt
}

func (p *itemPO) GetID() string     { return p.ID }
func (p *itemPO) TableName() string { return "item" }
func (p *twinPO) GetID() string     { return p.ID }
func (p *twinPO) TableName() string { return "twin" }
func (p *pairPO) GetID() string     { return p.Own }
func (p *pairPO) TableName() string { return "pair" }
func (p *numPO) GetID() string      { return strconv.Itoa(int(p.Nr)) }
func (p *numPO) TableName() string  { return "num" }
func (p *softPO) GetID() string     { return p.ID }
func (p *softPO) TableName() string { return "soft" }

type rowCol struct {
	name string        // in the database
	path string        // in the model
	typ  string        // of the database
	vals []interface{} // values standing for 0, 1, 2...
	raw  []string      // the same, as stored
}
type rowTab struct {
	po    func() mysqlexec.IModel
	slice func() interface{}
	keys  []string
	ddl   string
	where string
	cols  []rowCol
}

func ip(i int) *int             { return &i }
func sp(s string) *string       { return &s }
func tp(t time.Time) *time.Time { return &t }

var (
	day1 = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)
	day2 = time.Date(2024, 1, 2, 3, 4, 5, 678e6, time.UTC)
	day3 = time.Date(1999, 12, 31, 23, 0, 0, 0, time.UTC)
	dayR = []string{"2024-01-02 03:04:05.000", "2024-01-02 03:04:05.678", "1999-12-31 23:00:00.000"}
)

func colStr(name, path string) rowCol {
	return rowCol{name, path, "varchar(64)", []interface{}{"", "a", "b"}, []string{"", "a", "b"}}
}
func colInt(name, path string) rowCol {
	return rowCol{name, path, "integer", []interface{}{0, 1, -2}, []string{"0", "1", "-2"}}
}
func colInt64(name, path string) rowCol {
	return rowCol{name, path, "integer", []interface{}{int64(0), int64(1), int64(-2)}, []string{"0", "1", "-2"}}
}
func colPInt(name, path string) rowCol {
	return rowCol{name, path, "integer", []interface{}{(*int)(nil), ip(0), ip(5)}, []string{"<nil>", "0", "5"}}
}
func colBool(name, path string) rowCol {
	return rowCol{name, path, "tinyint", []interface{}{false, true}, []string{"0", "1"}}
}
func colTime(name, path string) rowCol {
	return rowCol{name, path, "datetime", []interface{}{day1, day2, day3}, dayR}
}

var rowTabs = map[string]*rowTab{
	"item": {po: func() mysqlexec.IModel { return &itemPO{} }, slice: func() interface{} { return &[]*itemPO{} }, keys: []string{"id"}, ddl: "`id` varchar(32) PRIMARY KEY, `updated_at` datetime",
		cols: []rowCol{
			colStr("name", "Name"), colInt64("n", "N"),
			{"f", "F", "real", []interface{}{0.0, 1.5, -0.25}, []string{"0", "1.5", "-0.25"}},
			colBool("b", "B"),
			{"u", "U", "integer", []interface{}{uint8(0), uint8(255), uint8(7)}, []string{"0", "255", "7"}},
			{"d", "D", "integer", []interface{}{time.Duration(0), time.Second, -time.Nanosecond}, []string{"0", "1000000000", "-1"}},
			{"sort", "Kind", "varchar(64)", []interface{}{rowKind(""), rowKind("x"), rowKind("y")}, []string{"", "x", "y"}},
			colPInt("p", "P"),
			{"s", "S", "varchar(64)", []interface{}{(*string)(nil), sp(""), sp("x")}, []string{"<nil>", "", "x"}},
			colTime("t", "T"),
			{"pt", "PT", "datetime", []interface{}{(*time.Time)(nil), tp(day1), tp(day2)}, []string{"<nil>", dayR[0], dayR[1]}},
			{"tags", "Tags", "text", []interface{}{[]string(nil), []string{}, []string{"a"}, []string{"a", "b"}, []string{"b", "a"}}, []string{"<nil>", "[]", `["a"]`, `["a","b"]`, `["b","a"]`}},
			{"m", "M", "text", []interface{}{map[string]int(nil), map[string]int{}, map[string]int{"a": 1}, map[string]int{"a": 0}}, []string{"<nil>", "{}", `{"a":1}`, `{"a":0}`}},
			{"j", "J", "json", []interface{}{datatypes.JSON(nil), datatypes.JSON(`{"a":1}`), datatypes.JSON(`[]`)}, []string{"<nil>", `{"a":1}`, "[]"}},
			{"raw", "Raw", "blob", []interface{}{[]byte(nil), []byte{1}, []byte{1, 2}, []byte{0}}, []string{"<nil>", "\x01", "\x01\x02", "\x00"}},
			colInt("pos_x", "Pos.X"), colPInt("pos_y", "Pos.Y"),
			colStr("title", "Title"), colInt("num", "Num"),
			colStr("deep_in_q", "Deep.In.Q"), colTime("deep_in_w", "Deep.In.W"), colBool("deep_z", "Deep.Z"),
			{"st", "St", "text", []interface{}{rowSt{}, rowSt{A: 1}, rowSt{A: 1, B: "x"}}, []string{`{"A":0,"B":""}`, `{"A":1,"B":""}`, `{"A":1,"B":"x"}`}},
			{"p_st", "PSt", "text", []interface{}{(*rowSt)(nil), &rowSt{}, &rowSt{B: "x"}}, []string{"<nil>", `{"A":0,"B":""}`, `{"A":0,"B":"x"}`}},
			{"any", "Any", "text", []interface{}{0.0, 1.0, "s", []interface{}{"l"}}, []string{"0", "1", `"s"`, `["l"]`}},
			{"arr", "Arr", "text", []interface{}{[2]int{}, [2]int{0, 1}, [2]int{1, 0}}, []string{"[0,0]", "[0,1]", "[1,0]"}},
			{"ns", "NS", "varchar(64)", []interface{}{sql.NullString{}, sql.NullString{Valid: true}, sql.NullString{String: "x", Valid: true}}, []string{"<nil>", "", "x"}},
		}},
	"twin": {po: func() mysqlexec.IModel { return &twinPO{} }, slice: func() interface{} { return &[]*twinPO{} }, keys: []string{"id"}, ddl: "`id` varchar(32) PRIMARY KEY",
		cols: []rowCol{colInt("l_x", "L.X"), colPInt("l_y", "L.Y"), colInt("r_x", "R.X"), colPInt("r_y", "R.Y"), colInt("x", "X")}},
	"pair": {po: func() mysqlexec.IModel { return &pairPO{} }, slice: func() interface{} { return &[]*pairPO{} }, keys: []string{"own", "nr"}, ddl: "`own` varchar(32), `nr` integer, PRIMARY KEY (`own`,`nr`)",
		cols: []rowCol{colStr("name", "Name"), colInt64("n", "N")}},
	"num": {po: func() mysqlexec.IModel { return &numPO{} }, slice: func() interface{} { return &[]*numPO{} }, keys: []string{"nr"}, ddl: "`nr` integer PRIMARY KEY",
		cols: []rowCol{colStr("name", "Name"), colInt64("n", "N")}},
	"soft": {po: func() mysqlexec.IModel { return &softPO{} }, slice: func() interface{} { return &[]*softPO{} }, keys: []string{"code"}, ddl: "`code` varchar(32) PRIMARY KEY, `updated_at` datetime, `deleted_at` datetime", where: " WHERE deleted_at IS NULL",
		cols: []rowCol{colStr("name", "Name"), colInt64("n", "N")}},
}

func (t *rowTab) create(name string) string {
	s := "CREATE TABLE `" + name + "` ("
	head, tail := t.ddl, ""
	if i := strings.Index(head, ", PRIMARY KEY ("); i >= 0 {
		head, tail = head[:i], head[i:]
	}
	s += head
	for _, c := range t.cols {
		s += ", `" + c.name + "` " + c.typ
	}
	return s + tail + ")"
}

func fieldOf(po interface{}, path string) reflect.Value {
	v := reflect.ValueOf(po).Elem()
	for _, p := range strings.Split(path, ".") {
		v = v.FieldByName(p)
	}
	return v
}
func setField(po interface{}, c *rowCol, i int) {
	f := fieldOf(po, c.path)
	if c.vals[i] == nil {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	f.Set(reflect.ValueOf(c.vals[i]))
}

func (t *rowTab) setKey(po mysqlexec.IModel, key string) {
	switch p := po.(type) {
	case *itemPO:
		p.ID = key
	case *twinPO:
		p.ID = key
	case *softPO:
		p.ID = key
	case *numPO:
		n, _ := strconv.Atoi(key)
		p.Nr = int64(n)
	case *pairPO:
		ab := strings.Split(key, "|")
		n, _ := strconv.Atoi(ab[1])
		p.Own, p.Nr = ab[0], int64(n)
	}
}
func (t *rowTab) getKey(po interface{}) string {
	if p, ok := po.(*pairPO); ok {
		return fmt.Sprintf("%s|%d", p.Own, p.Nr)
	}
	return po.(mysqlexec.IModel).GetID()
}

// model makes the model of a row given as key, value, value...; columns not given are 0.
func (t *rowTab) model(row []interface{}) (mysqlexec.IModel, M) {
	po := t.po()
	t.setKey(po, str(row[0]))
	c := M{"tab": t.name()}
	for i := range t.cols {
		k := 0
		if i+1 < len(row) {
			k = num(row[i+1])
		}
		setField(po, &t.cols[i], k)
		c[t.cols[i].name] = k
	}
	return po, M{"k": t.name() + "/" + str(row[0]), "c": c}
}
func (t *rowTab) name() string { return t.po().TableName() }

// abs turns a loaded model into a row.
func (t *rowTab) abs(po interface{}) M {
	c := M{"tab": t.name()}
	for i := range t.cols {
		v := fieldOf(po, t.cols[i].path).Interface()
		k := -1
		for j, x := range t.cols[i].vals {
			if same(v, x) {
				k = j
			}
		}
		c[t.cols[i].name] = k
	}
	return M{"k": t.name() + "/" + t.getKey(po), "c": c}
}
func same(a, b interface{}) bool {
	if x, ok := a.(time.Time); ok {
		return x.Equal(b.(time.Time))
	}
	if x, ok := a.(*time.Time); ok {
		y := b.(*time.Time)
		return x == nil && y == nil || x != nil && y != nil && x.Equal(*y)
	}
	return reflect.DeepEqual(a, b)
}

func rawText(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case []byte:
		return string(x)
	case time.Time:
		return fmtTime(x)
	}
	return fmt.Sprint(v)
}

// ---- the scenario

type rowsWorld struct {
	*simWorld
	s    *rowsScen
	ex   map[string]*mysqlexec.Executor
	ctx  map[string]context.Context
	own  map[string]map[string]string // context -> executor -> context its transaction began with
	busy map[string]bool              // executor/context
	sick map[string]bool
	over map[string]bool
	rows map[string]string
	abst map[string]M
	n    int
	out  int            // calls that have not returned
	gos  map[string]int // goroutine -> call
	oper *gorm.DB
}

func (w *rowsWorld) exec(x string) *mysqlexec.Executor {
	if e := w.ex[x]; e != nil {
		return e
	}
	e := mysqlexec.NewExecutor(w.db.Gorm(x))
	w.ex[x] = e
	return e
}

func (w *rowsWorld) snap(actor string) {
	cur := map[string]string{}
	abst := map[string]M{}
	for _, tn := range w.s.Tabs {
		t := rowTabs[tn]
		q := "SELECT "
		for _, k := range t.keys {
			q += k + ", "
		}
		for _, c := range t.cols {
			q += "`" + c.name + "`, "
		}
		if strings.Contains(t.ddl, "updated_at") {
			q += "updated_at"
		} else {
			q += "0"
		}
		for _, r := range w.db.Query(q + " FROM `" + tn + "`" + t.where) {
			ks := []string{}
			for i := range t.keys {
				ks = append(ks, rawText(r[i]))
			}
			key := tn + "/" + strings.Join(ks, "|")
			c := M{"tab": tn}
			img := ""
			for i := range t.cols {
				s := rawText(r[len(t.keys)+i])
				img += s + "\x00|"
				k := -1
				for j, x := range t.cols[i].raw {
					if x == s {
						k = j
					}
				}
				c[t.cols[i].name] = k
			}
			cur[key] = img + rawText(r[len(r)-1])
			abst[key] = c
		}
	}
	gone, set := []string{}, []M{}
	for k := range w.rows {
		if _, ok := cur[k]; !ok {
			gone = append(gone, k)
		}
	}
	ks := []string{}
	for k := range cur {
		if old, ok := w.rows[k]; !ok || old != cur[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(gone)
	sort.Strings(ks)
	for _, k := range ks {
		set = append(set, M{"k": k, "c": abst[k]})
	}
	w.rows, w.abst = cur, abst
	if len(gone)+len(set) > 0 {
		w.log(M{"op": "db", "x": actor, "n": w.gos[goid()], "set": set, "gone": gone})
	}
}

func goid() string {
	b := make([]byte, 40)
	return strings.Fields(string(b[:runtime.Stack(b, false)]))[1]
}

// txctx: the transaction an executor uses in a context.
func (w *rowsWorld) txctx(x, c string) string { return w.own[c][x] }

func (w *rowsWorld) call(x, c string, ev M, f func(ctx context.Context) (error, string, []M)) {
	tx := w.txctx(x, c)
	id := x + "/" + tx
	w.db.mu.Lock()
	if tx != "" && (w.busy[id] || w.sick[id] && ev["k"] == "exec") { // one at a time in a transaction, and nothing more in one that failed
		w.db.mu.Unlock()
		return
	}
	if ev["k"] == "commit" && w.sick[id] { // a command that failed is rolled back
		ev["k"] = "rollback"
		f = func(ctx context.Context) (error, string, []M) { return w.exec(x).RollBack(ctx), "", nil }
	}
	w.n++
	n := w.n
	for k, v := range map[string]interface{}{"op": "call", "n": n, "x": x, "ctx": c} {
		ev[k] = v
	}
	for k, v := range map[string]interface{}{"op2": "", "tab": "", "q": M{}, "cur": []M{}, "prev": []M{}} {
		if ev[k] == nil {
			ev[k] = v
		}
	}
	w.log(ev)
	w.busy[id] = true
	w.out++
	ctx := w.ctx[c]
	w.db.mu.Unlock()
	go func() {
		w.db.mu.Lock()
		w.gos[goid()] = n
		w.db.mu.Unlock()
		err, nc, rows := f(ctx)
		r := "ok"
		if err != nil {
			r = "err"
		}
		if errors.Is(err, mysqlexec.ErrNoTransaction) {
			r = "notx"
		}
		if rows == nil {
			rows = []M{}
		}
		w.db.mu.Lock()
		defer w.db.mu.Unlock()
		w.busy[id] = false
		w.out--
		delete(w.gos, goid())
		if err != nil && tx != "" {
			w.sick[id] = true
		}
		if ev["k"] != "exec" && ev["k"] != "begin" && tx != "" {
			w.over[id] = true
		}
		w.log(M{"op": "ret", "n": n, "r": r, "c": nc, "rows": rows})
	}()
}

func (w *rowsWorld) step(st []interface{}) {
	arg := func(i int) string {
		if i < len(st) {
			return str(st[i])
		}
		return ""
	}
	known := func(c string) bool {
		w.db.mu.Lock()
		defer w.db.mu.Unlock()
		_, ok := w.ctx[c]
		return ok
	}
	switch arg(0) {
	case "begin": // executor, in context, new context
		x, c, nc := arg(1), arg(2), arg(3)
		if !known(c) {
			return
		}
		e := w.exec(x)
		w.call(x, c, M{"k": "begin"}, func(ctx context.Context) (error, string, []M) {
			nx, err := e.Begin(ctx)
			if err != nil {
				return err, "", nil
			}
			w.db.mu.Lock()
			defer w.db.mu.Unlock()
			w.ctx[nc] = nx
			w.own[nc] = map[string]string{x: nc}
			for k, v := range w.own[c] {
				if k != x {
					w.own[nc][k] = v
				}
			}
			return nil, nc, nil
		})
	case "commit", "rollback":
		x, c := arg(1), arg(2)
		if !known(c) {
			return
		}
		e := w.exec(x)
		w.call(x, c, M{"k": arg(0)}, func(ctx context.Context) (error, string, []M) {
			if arg(0) == "commit" {
				return e.Commit(ctx), "", nil
			}
			return e.RollBack(ctx), "", nil
		})
	case "exec": // executor, context, op, table, rows, rows before / query
		x, c, op, tn := arg(1), arg(2), arg(3), arg(4)
		if !known(c) {
			return
		}
		e, t := w.exec(x), rowTabs[tn]
		a := &ddd.Action{Op: map[string]ddd.OpType{"ins": ddd.OpInsert, "upd": ddd.OpUpdate, "del": ddd.OpDelete, "qry": ddd.OpQuery}[op]}
		ev := M{"k": "exec", "op2": op, "tab": tn}
		if op == "qry" {
			q := st[5].(map[string]interface{})
			po := t.po()
			cond := M{}
			for i := range t.cols {
				if v, ok := q[t.cols[i].name]; ok {
					setField(po, &t.cols[i], num(v))
					cond[t.cols[i].name] = num(v)
				}
			}
			a.Query, a.QueryResult = po, t.slice()
			ev["q"] = cond
		} else {
			cur, prev := []M{}, []M{}
			for _, r := range st[5].([]interface{}) {
				po, m := t.model(r.([]interface{}))
				a.Models = append(a.Models, po)
				cur = append(cur, m)
			}
			if len(st) > 6 {
				for _, r := range st[6].([]interface{}) {
					po, m := t.model(r.([]interface{}))
					a.PrevModels = append(a.PrevModels, po)
					prev = append(prev, m)
				}
			}
			ev["cur"], ev["prev"] = cur, prev
		}
		w.call(x, c, ev, func(ctx context.Context) (error, string, []M) {
			err := e.Exec(ctx, a)
			out := []M{}
			if err == nil && op == "qry" {
				rv := reflect.ValueOf(a.QueryResult).Elem()
				for i := 0; i < rv.Len(); i++ {
					out = append(out, t.abs(rv.Index(i).Interface()))
				}
			}
			return err, "", out
		})
	case "sys": // table, key, {column: value}: somebody else changes the row
		t := rowTabs[arg(1)]
		set, args := []string{}, []interface{}{}
		for _, c := range t.cols {
			if v, ok := st[3].(map[string]interface{})[c.name]; ok {
				set = append(set, "`"+c.name+"` = ?")
				if s := c.raw[num(v)]; s == "<nil>" {
					args = append(args, nil)
				} else if c.typ == "blob" {
					args = append(args, []byte(s))
				} else {
					args = append(args, s)
				}
			}
		}
		ks := strings.Split(arg(2), "|")
		where := []string{}
		for i, k := range t.keys {
			where = append(where, k+" = ?")
			args = append(args, ks[i])
		}
		if w.oper == nil {
			w.oper = w.db.Gorm("operator")
		}
		go w.oper.Exec("UPDATE `"+arg(1)+"` SET "+strings.Join(set, ", ")+" WHERE "+strings.Join(where, " AND "), args...)
	case "par":
		for _, x := range st[1:] {
			w.step(x.([]interface{}))
		}
		return
	case "wait":
		w.run(ms(num(st[1])))
	default:
		panic("unknown rows step " + arg(0))
	}
}

// finish rolls back what is still open and lets everything end.
func (w *rowsWorld) finish() {
	w.ctl.Disable()
	for round := 0; round < 50; round++ {
		settle()
		cs := []string{}
		w.db.mu.Lock()
		for c := range w.own {
			cs = append(cs, c)
		}
		w.db.mu.Unlock()
		sort.Strings(cs)
		open := false
		for _, c := range cs {
			w.db.mu.Lock()
			xs := []string{}
			for x, o := range w.own[c] {
				if o == c && !w.over[x+"/"+c] {
					xs = append(xs, x)
				}
			}
			w.db.mu.Unlock()
			for _, x := range xs {
				open = true
				w.step([]interface{}{"rollback", x, c})
			}
		}
		settle()
		w.db.mu.Lock()
		open = open || w.out > 0
		w.db.mu.Unlock()
		if !open {
			break
		}
		sleep(2 * time.Second)
	}
	settle()
	w.db.mu.Lock()
	w.log(M{"op": "end"})
	w.db.mu.Unlock()
}

func RunRowsScenario(s *rowsScen) ([]M, []stmtRec) {
	ddl := []string{}
	for _, t := range s.Tabs {
		ddl = append(ddl, rowTabs[t].create(t))
	}
	w := &rowsWorld{s: s, ex: map[string]*mysqlexec.Executor{}, ctx: map[string]context.Context{"": context.Background()}, own: map[string]map[string]string{},
		gos: map[string]int{}, busy: map[string]bool{}, sick: map[string]bool{}, over: map[string]bool{}, rows: map[string]string{}}
	w.simWorld = newSimWorld(ddl, s.Sched, s.Seed, s.Faults)
	defer w.close()
	w.db.onCommit = w.snap
	for _, st := range s.Steps {
		w.step(st)
		w.settled()
		w.run(time.Millisecond)
	}
	w.finish()
	return w.rec.Lines(), w.db.stmts
}

func (s *rowsScen) run() ([]M, []stmtRec)   { return RunRowsScenario(s) }
func (s *rowsScen) enum() (*faultPlan, int) { p := s.Enum; s.Enum = nil; return p, s.Seed }
func (s *rowsScen) fault(f *dbFault)        { s.Faults = append(s.Faults, f) }
