package harness

// A stand-in for a MySQL server shared by several "processes" (actors): an
// SQLite file per scenario behind a database/sql driver that adds what the code
// under test relies on -- row locks (FOR UPDATE, NOWAIT, SKIP LOCKED, locks taken
// by writes), READ COMMITTED reads, duplicate-key and data-too-long errors,
// changed-row counts -- and what the checks need: every statement passes a gate
// and can fail, stall, or be the point at which its process dies.

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	gomysql "github.com/go-sql-driver/mysql"
	"github.com/mattn/go-sqlite3"
	"gorm.io/driver/mysql"
	"gorm.io/gorm"
	glog "gorm.io/gorm/logger"
)

type dbFault struct {
	Actor string `json:"a"`
	N     int    `json:"n"`  // n-th statement of the actor
	Kind  string `json:"k"`  // err, errafter, crash, crashafter, stall
	Ms    int    `json:"ms"` // stall time
}

type simTx struct {
	conn  *simConn
	keys  []string
	began bool
	gone  bool // rolled back by the server (deadlock victim or dead process)
	waits *simTx
	ctx   context.Context
}

type simDB struct {
	mu       sync.Mutex
	path     string
	ctl      *Controller
	snapc    *sqlite3.SQLiteConn
	spaces   map[string]*sqlite3.SQLiteConn // further databases of the server
	locks    map[string]*simTx
	wake     chan struct{}
	dead     map[string]bool
	frozen   map[string]bool
	count    map[string]int
	faults   []*dbFault
	stmts    []stmtRec
	conns    []*simConn
	sqls     []*sql.DB
	onCommit func(actor string)
	curCtx   context.Context // of the change being committed
	onFault  func(f *dbFault, kind string)
	onKill   func(actor string)
	latency  func(actor string, n int) time.Duration // how long a statement takes
}

type stmtRec struct {
	Actor, Kind string
	N           int
	Mod         bool // moved something: worth a fault
}

var simDBSeq int

func newSimDB(ddl []string, ctl *Controller) *simDB {
	simDBSeq++
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = os.TempDir()
	}
	db := &simDB{path: filepath.Join(dir, fmt.Sprintf("sim%d-%d.db", os.Getpid(), simDBSeq)), ctl: ctl,
		locks: map[string]*simTx{}, wake: make(chan struct{}), dead: map[string]bool{}, frozen: map[string]bool{}, count: map[string]int{}}
	db.snapc = db.open("")
	for _, s := range ddl {
		db.must(s)
	}
	return db
}

// Space adds a database to the server: SQLite lets one transaction at a time
// write to a file, so tables written by transactions that overlap by design live
// in databases of their own.
func (db *simDB) Space(name string, ddl []string) {
	if db.spaces == nil {
		db.spaces = map[string]*sqlite3.SQLiteConn{}
	}
	db.spaces[name] = db.open(name)
	for _, s := range ddl {
		if _, err := db.spaces[name].ExecContext(context.Background(), s, nil); err != nil {
			panic(fmt.Sprintf("%s: %v", s, err))
		}
	}
}

func (db *simDB) open(space string) *sqlite3.SQLiteConn {
	c, err := (&sqlite3.SQLiteDriver{}).Open("file:" + db.path + space + "?_journal_mode=WAL&_sync=0&_busy_timeout=20000&_loc=UTC")
	if err != nil {
		panic(err)
	}
	return c.(*sqlite3.SQLiteConn)
}

func (db *simDB) must(s string, args ...interface{}) {
	nv := []driver.NamedValue{}
	for i, a := range args {
		nv = append(nv, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	if _, err := db.snapc.ExecContext(context.Background(), s, nv); err != nil {
		panic(fmt.Sprintf("%s: %v", s, err))
	}
}

// Query reads committed rows from outside (no gate, no actor).
func (db *simDB) Query(s string) [][]driver.Value { return db.queryOn(db.snapc, s) }
func (db *simDB) QueryIn(space, s string) [][]driver.Value {
	return db.queryOn(db.spaces[space], s)
}
func (db *simDB) queryOn(c *sqlite3.SQLiteConn, s string) [][]driver.Value {
	r, err := c.QueryContext(context.Background(), s, nil)
	if err != nil {
		panic(fmt.Sprintf("%s: %v", s, err))
	}
	_, rows, err := drain(r)
	if err != nil {
		panic(err)
	}
	return rows
}

func drain(r driver.Rows) ([]string, [][]driver.Value, error) {
	defer r.Close()
	cols := append([]string{}, r.Columns()...)
	out := [][]driver.Value{}
	for {
		row := make([]driver.Value, len(cols))
		if err := r.Next(row); err == io.EOF {
			return cols, out, nil
		} else if err != nil {
			return nil, nil, err
		}
		for i, v := range row {
			if b, ok := v.([]byte); ok {
				row[i] = append([]byte{}, b...)
			}
			if t, ok := v.(time.Time); ok {
				row[i] = t.UTC()
			}
		}
		out = append(out, row)
	}
}

// Gorm opens the database as the given process.
func (db *simDB) Gorm(actor string) *gorm.DB { return db.GormIn(actor, "") }
func (db *simDB) GormIn(actor, space string) *gorm.DB {
	s := sql.OpenDB(&simConnector{db, actor, space})
	s.SetMaxIdleConns(4)
	db.sqls = append(db.sqls, s)
	g, err := gorm.Open(mysql.New(mysql.Config{Conn: s, SkipInitializeWithVersion: true}), &gorm.Config{Logger: glog.Discard, DisableAutomaticPing: true})
	if err != nil {
		panic(err)
	}
	return g
}

// Close ends the scenario: every process is dead, the files go away.
func (db *simDB) Close() {
	db.mu.Lock()
	for _, c := range db.conns {
		db.dead[c.actor] = true
	}
	db.onCommit, db.onFault, db.onKill = nil, nil, nil
	for _, c := range db.conns {
		if c.raw != nil {
			c.raw.Close()
			c.raw = nil
		}
	}
	db.snapc.Close()
	names := []string{""}
	for n, c := range db.spaces {
		c.Close()
		names = append(names, n)
	}
	db.mu.Unlock()
	for _, n := range names {
		os.Remove(db.path + n)
		os.Remove(db.path + n + "-wal")
		os.Remove(db.path + n + "-shm")
	}
}

// Kill ends a process: its transactions are rolled back, nothing of it runs on.
func (db *simDB) Kill(actor string) {
	db.mu.Lock()
	db.kill(actor)
	db.mu.Unlock()
}

func (db *simDB) kill(actor string) {
	db.dead[actor] = true
	for _, c := range db.conns {
		if c.actor == actor && c.raw != nil {
			if c.tx != nil {
				db.abort(c.tx)
			}
			c.raw.Close()
			c.raw = nil
		}
	}
}

func (db *simDB) Dead(actor string) bool {
	db.mu.Lock()
	defer db.mu.Unlock()
	return db.dead[actor]
}

func (db *simDB) abort(tx *simTx) {
	if tx.began {
		tx.conn.raw.ExecContext(context.Background(), "ROLLBACK", nil)
		tx.began = false
	}
	tx.gone = true
	db.release(tx)
}

func (db *simDB) release(tx *simTx) {
	for _, k := range tx.keys {
		if db.locks[k] == tx {
			delete(db.locks, k)
		}
	}
	tx.keys = nil
	close(db.wake)
	db.wake = make(chan struct{})
}

var errNowait = &gomysql.MySQLError{Number: 3572, Message: "Statement aborted because lock(s) could not be acquired immediately and NOWAIT is set."}
var errTimeout = &gomysql.MySQLError{Number: 1205, Message: "Lock wait timeout exceeded; try restarting transaction"}
var errDeadlock = &gomysql.MySQLError{Number: 1213, Message: "Deadlock found when trying to get lock; try restarting transaction"}
var errDBInjected = &gomysql.MySQLError{Number: 1105, Message: "injected database error"}

// take acquires all keys for tx (db.mu held); waits like InnoDB does.
func (db *simDB) take(ctx context.Context, tx *simTx, keys []string, nowait bool) error {
	var timer *time.Timer
	for {
		var blk *simTx
		for _, k := range keys {
			if h := db.locks[k]; h != nil && h != tx {
				blk = h
				break
			}
		}
		if blk == nil {
			for _, k := range keys {
				if db.locks[k] == nil {
					db.locks[k] = tx
					tx.keys = append(tx.keys, k)
				}
			}
			return nil
		}
		if nowait {
			return errNowait
		}
		for w := blk; w != nil; w = w.waits {
			if w == tx {
				if db.onFault != nil {
					db.onFault(&dbFault{Actor: tx.conn.actor, Kind: "lockerr"}, "lock")
				}
				db.abort(tx)
				return errDeadlock
			}
		}
		if timer == nil {
			timer = time.NewTimer(50 * time.Second)
			defer timer.Stop()
		}
		tx.waits = blk
		ch := db.wake
		db.mu.Unlock()
		var err error
		select {
		case <-ch:
		case <-timer.C:
			err = errTimeout
			if db.onFault != nil {
				db.onFault(&dbFault{Actor: tx.conn.actor, Kind: "lockerr"}, "lock")
			}
		case <-ctx.Done():
			err = ctx.Err()
		}
		db.mu.Lock()
		tx.waits = nil
		if db.dead[tx.conn.actor] {
			db.park()
		}
		if err != nil {
			return err
		}
	}
}

// park never returns: the process of this goroutine is dead (db.mu held).
func (db *simDB) park() {
	db.mu.Unlock()
	select {}
}

type simConnector struct {
	db    *simDB
	actor string
	space string
}

func (c *simConnector) Driver() driver.Driver { return &sqlite3.SQLiteDriver{} }
func (c *simConnector) Connect(ctx context.Context) (driver.Conn, error) {
	c.db.mu.Lock()
	defer c.db.mu.Unlock()
	if c.db.dead[c.actor] {
		c.db.park()
	}
	k := &simConn{db: c.db, actor: c.actor, space: c.space, raw: c.db.open(c.space)}
	c.db.conns = append(c.db.conns, k)
	return k, nil
}

type simConn struct {
	db    *simDB
	actor string
	space string
	raw   *sqlite3.SQLiteConn
	tx    *simTx
}

func (c *simConn) Prepare(q string) (driver.Stmt, error) { return &simStmt{c, q}, nil }
func (c *simConn) Close() error {
	c.db.mu.Lock()
	defer c.db.mu.Unlock()
	if c.raw != nil {
		if c.tx != nil {
			c.db.abort(c.tx)
		}
		c.raw.Close()
		c.raw = nil
	}
	return nil
}
func (c *simConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *simConn) BeginTx(ctx context.Context, _ driver.TxOptions) (driver.Tx, error) {
	f, err := c.enter(ctx, "begin", "")
	if err != nil {
		return nil, err
	}
	c.tx = &simTx{conn: c, ctx: ctx}
	c.leave(f, "begin")
	c.db.mu.Unlock()
	return &simTxHandle{c, c.tx}, nil
}
func (c *simConn) CheckNamedValue(nv *driver.NamedValue) error {
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	if err == nil {
		nv.Value = v
	}
	return err
}

type simTxHandle struct {
	c  *simConn
	tx *simTx
}

func (h *simTxHandle) Commit() error {
	c := h.c
	f, err := c.enter(context.Background(), "commit", "")
	if err != nil {
		if c.tx == h.tx && c.tx != nil { // a failing commit leaves nothing behind
			c.db.mu.Lock()
			c.db.abort(h.tx)
			c.tx = nil
			c.db.mu.Unlock()
		}
		return err
	}
	defer c.db.mu.Unlock()
	c.tx = nil
	if h.tx.gone {
		return c.leave(f, "commit")
	}
	if h.tx.began {
		if _, err := c.raw.ExecContext(context.Background(), "COMMIT", nil); err != nil {
			panic(err)
		}
		h.tx.began = false
		c.db.curCtx = h.tx.ctx
		c.db.committed(c.actor)
	}
	c.db.release(h.tx)
	return c.leave(f, "commit")
}

func (h *simTxHandle) Rollback() error {
	c := h.c
	f, err := c.enter(context.Background(), "rollback", "")
	if err != nil {
		c.db.mu.Lock()
		c.db.abort(h.tx)
		c.tx = nil
		c.db.mu.Unlock()
		return err
	}
	defer c.db.mu.Unlock()
	c.tx = nil
	if !h.tx.gone {
		c.db.abort(h.tx)
	}
	return c.leave(f, "rollback")
}

func (db *simDB) committed(actor string) {
	if db.onCommit != nil {
		db.onCommit(actor)
	}
}

// enter passes the gate and applies faults; on success db.mu is held.
func (c *simConn) enter(ctx context.Context, kind, desc string) (*dbFault, error) {
	db := c.db
	if kind != "rollback" {
		db.mu.Lock()
		if db.dead[c.actor] {
			db.park()
		}
		db.mu.Unlock()
	}
	db.ctl.Gate(c.actor, kind+" "+desc)
	db.mu.Lock()
	if db.dead[c.actor] || c.raw == nil {
		db.park()
	}
	db.count[c.actor]++
	n := db.count[c.actor]
	db.stmts = append(db.stmts, stmtRec{Actor: c.actor, Kind: kind, N: n, Mod: c.tx != nil && c.tx.began || kind == "insert" || kind == "update" || kind == "delete" || kind == "lock"})
	var f *dbFault
	for _, x := range db.faults {
		if x.Actor == c.actor && x.N == n {
			f = x
		}
	}
	if f != nil {
		if db.onFault != nil {
			db.onFault(f, kind)
		}
		switch f.Kind {
		case "err":
			db.mu.Unlock()
			return nil, errDBInjected
		case "crash":
			if db.onKill != nil {
				db.onKill(c.actor)
			}
			db.kill(c.actor)
			db.park()
		case "stall":
			db.mu.Unlock()
			time.Sleep(time.Duration(f.Ms) * time.Millisecond)
			db.mu.Lock()
			if db.dead[c.actor] || c.raw == nil {
				db.park()
			}
		}
	}
	if db.latency != nil {
		if d := db.latency(c.actor, n); d > 0 {
			db.mu.Unlock()
			time.Sleep(d)
			db.mu.Lock()
			if db.dead[c.actor] || c.raw == nil {
				db.park()
			}
		}
	}
	if ctx.Err() != nil {
		db.mu.Unlock()
		return nil, ctx.Err()
	}
	return f, nil
}

// leave applies what happens after the statement took effect (db.mu held).
func (c *simConn) leave(f *dbFault, kind string) error {
	if f != nil {
		switch f.Kind {
		case "errafter":
			return errDBInjected
		case "crashafter":
			if c.db.onKill != nil {
				c.db.onKill(c.actor)
			}
			c.db.kill(c.actor)
			c.db.park()
		}
	}
	return nil
}

var (
	reLock   = regexp.MustCompile(`(?is)\s+(FOR\s+(?:UPDATE|SHARE)|LOCK\s+IN\s+SHARE\s+MODE)(\s+NOWAIT|\s+SKIP\s+LOCKED)?\s*;?\s*$`)
	reFrom   = regexp.MustCompile("(?is)\\sFROM\\s+`?(\\w+)`?")
	reUpdate = regexp.MustCompile("(?is)^\\s*UPDATE\\s+`?(\\w+)`?\\s+SET\\s")
	reDelete = regexp.MustCompile("(?is)^\\s*DELETE\\s+FROM\\s+`?(\\w+)`?")
	reInsert = regexp.MustCompile("(?is)^\\s*INSERT\\s+(IGNORE\\s+)?INTO\\s+`?(\\w+)`?")
	reWhere  = regexp.MustCompile(`(?is)\sWHERE\s`)
	reTail   = regexp.MustCompile(`(?is)\s(GROUP\s+BY|ORDER\s+BY|LIMIT)\s`)
	reOnDup  = regexp.MustCompile(`(?is)ON\s+DUPLICATE\s+KEY\s+UPDATE\s`)
	reValues = regexp.MustCompile("(?is)VALUES\\((`?\\w+`?)\\)")
)

func stmtKind(q string) string {
	s := strings.ToUpper(strings.TrimSpace(q))
	switch {
	case strings.HasPrefix(s, "SELECT"):
		if reLock.MatchString(q) {
			return "lock"
		}
		return "select"
	case strings.HasPrefix(s, "INSERT"):
		return "insert"
	case strings.HasPrefix(s, "UPDATE"):
		return "update"
	case strings.HasPrefix(s, "DELETE"):
		return "delete"
	case strings.HasPrefix(s, "SAVEPOINT"):
		return "savepoint"
	case strings.HasPrefix(s, "ROLLBACK TO"):
		return "rollbackto"
	}
	return "other"
}

func fmtTime(t time.Time) string {
	return t.UTC().Round(time.Millisecond).Format("2006-01-02 15:04:05.000")
}

func convArgs(args []driver.NamedValue, writing bool) ([]driver.NamedValue, error) {
	out := make([]driver.NamedValue, len(args))
	for i, a := range args {
		if t, ok := a.Value.(time.Time); ok {
			if writing && t.IsZero() {
				return nil, &gomysql.MySQLError{Number: 1292, Message: "Incorrect datetime value: '0000-00-00'"}
			}
			a.Value = fmtTime(t)
		}
		if s, ok := a.Value.(string); ok && !utf8.ValidString(s) {
			return nil, &gomysql.MySQLError{Number: 1366, Message: "Incorrect string value"}
		}
		a.Name, a.Ordinal = "", i+1
		out[i] = a
	}
	return out, nil
}

func sqlErr(err error) error {
	if err == nil {
		return nil
	}
	s := err.Error()
	if strings.Contains(s, "UNIQUE constraint") {
		return &gomysql.MySQLError{Number: 1062, Message: "Duplicate entry: " + s}
	}
	if strings.Contains(s, "CHECK constraint") {
		return &gomysql.MySQLError{Number: 1406, Message: "Data too long for column: " + s}
	}
	if strings.Contains(s, "NOT NULL constraint") {
		return &gomysql.MySQLError{Number: 1048, Message: s}
	}
	if strings.Contains(s, "no such table") {
		return &gomysql.MySQLError{Number: 1146, Message: s}
	}
	return &gomysql.MySQLError{Number: 1064, Message: s}
}

// rowids of the rows a statement addresses (db.mu held).
func (c *simConn) rowids(table, rest string, args []driver.NamedValue) ([]string, error) {
	r, err := c.raw.QueryContext(context.Background(), "SELECT rowid FROM "+rest, args)
	if err != nil {
		return nil, sqlErr(err)
	}
	_, rows, err := drain(r)
	if err != nil {
		return nil, sqlErr(err)
	}
	out := []string{}
	for _, x := range rows {
		out = append(out, fmt.Sprintf("%s/%v", table, x[0]))
	}
	return out, nil
}

func idList(keys []string) string {
	s := []string{}
	for _, k := range keys {
		s = append(s, k[strings.LastIndex(k, "/")+1:])
	}
	return strings.Join(s, ",")
}

func sameKeys(a, b []string) bool {
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, ",") == strings.Join(y, ",")
}

type simRows struct {
	cols []string
	rows [][]driver.Value
	i    int
}

func (r *simRows) Columns() []string { return r.cols }
func (r *simRows) Close() error      { return nil }
func (r *simRows) Next(d []driver.Value) error {
	if r.i >= len(r.rows) {
		return io.EOF
	}
	copy(d, r.rows[r.i])
	r.i++
	return nil
}

type simResult struct{ id, n int64 }

func (r simResult) LastInsertId() (int64, error) { return r.id, nil }
func (r simResult) RowsAffected() (int64, error) { return r.n, nil }

func (c *simConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	rows, _, err := c.run(ctx, q, args)
	return rows, err
}
func (c *simConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	_, res, err := c.run(ctx, q, args)
	return res, err
}

type simStmt struct {
	c *simConn
	q string
}

func (s *simStmt) Close() error  { return nil }
func (s *simStmt) NumInput() int { return -1 }
func (s *simStmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(a))
}
func (s *simStmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(a))
}
func named(a []driver.Value) []driver.NamedValue {
	out := []driver.NamedValue{}
	for i, v := range a {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return out
}

func (c *simConn) run(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, driver.Result, error) {
	q = strings.ReplaceAll(q, "CAST(? AS JSON)", "?")
	kind := stmtKind(q)
	table := ""
	for _, re := range []*regexp.Regexp{reUpdate, reDelete, reFrom} {
		if m := re.FindStringSubmatch(q); m != nil {
			table = m[1]
			break
		}
	}
	if m := reInsert.FindStringSubmatch(q); m != nil {
		table = m[2]
	}
	f, err := c.enter(ctx, kind, table)
	if err != nil {
		return nil, nil, err
	}
	defer c.db.mu.Unlock()
	own := c.tx == nil || c.tx.gone // autocommit
	tx := c.tx
	if own {
		tx = &simTx{conn: c}
	}
	rows, res, err := c.perform(ctx, tx, kind, table, q, args)
	if own {
		if tx.began {
			if err == nil {
				c.raw.ExecContext(context.Background(), "COMMIT", nil)
				tx.began = false
				c.db.curCtx = ctx
				c.db.committed(c.actor)
			} else {
				c.db.abort(tx)
			}
		}
		c.db.release(tx)
	}
	if err == nil {
		err = c.leave(f, kind)
	}
	if err != nil {
		return nil, nil, err
	}
	return rows, res, nil
}

func (c *simConn) beginWrite(ctx context.Context, tx *simTx) error {
	if tx.began {
		return nil
	}
	if err := c.db.take(ctx, tx, []string{"$writer" + c.space}, false); err != nil {
		return err
	}
	if _, err := c.raw.ExecContext(context.Background(), "BEGIN IMMEDIATE", nil); err != nil {
		panic(err)
	}
	tx.began = true
	return nil
}

func (c *simConn) perform(ctx context.Context, tx *simTx, kind, table, q string, args []driver.NamedValue) (driver.Rows, driver.Result, error) {
	bg := context.Background()
	av, err := convArgs(args, kind == "insert" || kind == "update")
	if err != nil {
		return nil, nil, err
	}
	query := func(s string, a []driver.NamedValue) (driver.Rows, driver.Result, error) {
		r, err := c.raw.QueryContext(bg, s, a)
		if err != nil {
			return nil, nil, sqlErr(err)
		}
		cols, rows, err := drain(r)
		if err != nil {
			return nil, nil, sqlErr(err)
		}
		return &simRows{cols: cols, rows: rows}, nil, nil
	}
	switch kind {
	case "select":
		return query(q, av)
	case "lock":
		m := reLock.FindStringSubmatch(q)
		mode := strings.ToUpper(strings.TrimSpace(m[2]))
		s := reLock.ReplaceAllString(q, "")
		loc := reFrom.FindStringIndex(s)
		rest := s[loc[0]+6:]
		if i := regexp.MustCompile(`(?is)\sGROUP\s+BY\s`).FindStringIndex(rest); i != nil {
			rest = rest[:i[0]]
		}
		for {
			keys, err := c.rowids(table, rest, av)
			if err != nil {
				return nil, nil, err
			}
			if strings.HasPrefix(mode, "SKIP") {
				keys, err = c.rowids(table, regexp.MustCompile(`(?is)\sLIMIT\s+\d+`).ReplaceAllString(rest, ""), av)
				if err != nil {
					return nil, nil, err
				}
				free := []string{}
				for _, k := range keys {
					if h := c.db.locks[k]; h == nil || h == tx {
						free = append(free, k)
					}
				}
				if i := regexp.MustCompile(`(?is)\sLIMIT\s+(\d+)`).FindStringSubmatch(rest); i != nil {
					var n int
					fmt.Sscan(i[1], &n)
					if len(free) > n {
						free = free[:n]
					}
				}
				if err := c.db.take(ctx, tx, free, true); err != nil {
					return nil, nil, err
				}
				loc := reWhere.FindStringIndex(s)
				pre := s
				if loc != nil {
					pre = s[:loc[0]]
				}
				return query(pre+" WHERE rowid IN ("+idList(free)+") ORDER BY rowid", nil)
			}
			had := len(tx.keys)
			if err := c.db.take(ctx, tx, keys, mode == "NOWAIT"); err != nil {
				return nil, nil, err
			}
			again, err := c.rowids(table, rest, av)
			if err != nil {
				return nil, nil, err
			}
			if sameKeys(keys, again) {
				return query(s, av)
			}
			_ = had
		}
	case "update", "delete":
		var head, rest string
		nset := 0
		if kind == "update" {
			loc := reWhere.FindStringIndex(q)
			head = q
			if loc != nil {
				head, rest = q[:loc[0]], q[loc[1]:]
			}
			nset = strings.Count(head, "?")
		} else {
			loc := reWhere.FindStringIndex(q)
			if loc != nil {
				rest = q[loc[1]:]
			}
		}
		src := table
		if rest != "" {
			src += " WHERE " + rest
		}
		wargs := av[nset:]
		renum(wargs)
		var keys []string
		for {
			var err error
			keys, err = c.rowids(table, src, wargs)
			if err != nil {
				return nil, nil, err
			}
			if err := c.db.take(ctx, tx, keys, false); err != nil {
				return nil, nil, err
			}
			if err := c.beginWrite(ctx, tx); err != nil {
				return nil, nil, err
			}
			again, err := c.rowids(table, src, wargs)
			if err != nil {
				return nil, nil, err
			}
			if sameKeys(keys, again) {
				break
			}
		}
		if kind == "delete" {
			if _, err := c.raw.ExecContext(bg, q, av); err != nil {
				return nil, nil, sqlErr(err)
			}
			return nil, simResult{0, int64(len(keys))}, nil
		}
		img := func() map[string]string {
			out := map[string]string{}
			if len(keys) == 0 {
				return out
			}
			r, err := c.raw.QueryContext(bg, "SELECT rowid, * FROM "+table+" WHERE rowid IN ("+idList(keys)+")", nil)
			if err != nil {
				panic(err)
			}
			_, rows, err := drain(r)
			if err != nil {
				panic(err)
			}
			for _, x := range rows {
				out[fmt.Sprint(x[0])] = fmt.Sprintf("%v", x)
			}
			return out
		}
		before := img()
		renum(av)
		if _, err := c.raw.ExecContext(bg, q, av); err != nil {
			return nil, nil, sqlErr(err)
		}
		after := img()
		n := int64(0)
		for k, v := range before {
			if after[k] != v {
				n++
			}
		}
		return nil, simResult{0, n}, nil
	case "insert":
		if err := c.beginWrite(ctx, tx); err != nil {
			return nil, nil, err
		}
		s := q
		if reInsert.FindStringSubmatch(q)[1] != "" {
			s = regexp.MustCompile(`(?is)INSERT\s+IGNORE`).ReplaceAllString(s, "INSERT OR IGNORE")
		}
		if loc := reOnDup.FindStringIndex(s); loc != nil {
			s = s[:loc[0]] + "ON CONFLICT DO UPDATE SET " + reValues.ReplaceAllString(s[loc[1]:], "excluded.$1")
		}
		s = strings.Replace(s, "() VALUES ()", "DEFAULT VALUES", 1)
		r, err := c.raw.ExecContext(bg, s, av)
		if err != nil {
			return nil, nil, sqlErr(err)
		}
		id, _ := r.LastInsertId()
		n, _ := r.RowsAffected()
		if n > 0 {
			id -= n - 1
		}
		return nil, simResult{id, n}, nil
	case "savepoint", "rollbackto", "other":
		if kind == "savepoint" {
			if err := c.beginWrite(ctx, tx); err != nil {
				return nil, nil, err
			}
		}
		r, err := c.raw.ExecContext(bg, q, av)
		if err != nil {
			return nil, nil, sqlErr(err)
		}
		n, _ := r.RowsAffected()
		return nil, simResult{0, n}, nil
	}
	panic("unreachable")
}

func renum(a []driver.NamedValue) {
	for i := range a {
		a[i].Ordinal = i + 1
	}
}
