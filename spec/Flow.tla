-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* The whole stack at work: commands of several processes on one database, *)
(* with the lock, the executor and the event bus that come with the        *)
(* library.  What counts is what ends up committed and what handlers see.  *)
(*                                                                         *)
(* A command adds to some accounts (under their locks), adds children to   *)
(* them or removes the ones it finds, records its events and sends them,   *)
(* some ordinarily and some transactionally.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Check, Loud
On(P) == P \cap Check # {}
Must(P, name, cond) == IF On(P) THEN (IF cond THEN TRUE ELSE Loud /\ PrintT(<<"GUARD", name>>) /\ FALSE) ELSE TRUE

VARIABLES
  acc,    \* account -> value
  item,   \* child -> its account
  evlog,  \* recorded events
  svcs,   \* registered services
  cmds,   \* command -> [i, ds, items, drop, evs, txs, fail, cx, svcs, st, com, x, hot]
  done,   \* <<service, event>> handled successfully
  sick    \* something was made to fail
vars == <<acc, item, evlog, svcs, cmds, done, sick>>

Nil == [x \in {} |-> x]
Upd(f, k, v) == (k :> v) @@ f
Less(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Ran(s) == {s[i] : i \in DOMAIN s}

Init == acc = Nil /\ item = Nil /\ evlog = {} /\ svcs = {} /\ cmds = Nil /\ done = {} /\ sick = FALSE

Cfg(e) == /\ acc' = [k \in {a.k : a \in Ran(e.accs)} |-> (CHOOSE a \in Ran(e.accs) : a.k = k).v]
          /\ UNCHANGED <<item, evlog, svcs, cmds, done, sick>>
Svc(e) == svcs' = svcs \cup Ran(e.s) /\ UNCHANGED <<acc, item, evlog, cmds, done, sick>>

Keys(c) == DOMAIN c.ds
Events(c) == Ran(c.evs) \cup Ran(c.txs)
Call(e) ==
  LET ds == [k \in {d.k : d \in Ran(e.ds)} |-> (CHOOSE d \in Ran(e.ds) : d.k = k).d]
      meets == {n \in DOMAIN cmds : cmds[n].st = "run" /\ Keys(cmds[n]) \cap DOMAIN ds # {}} IN
  /\ e.c \notin DOMAIN cmds
  /\ cmds' = Upd([n \in DOMAIN cmds |-> IF n \in meets THEN [cmds[n] EXCEPT !.hot = TRUE] ELSE cmds[n]], e.c,
                 [i |-> e.i, ds |-> ds, items |-> e.items, drop |-> e.drop, evs |-> e.evs, txs |-> e.txs, fail |-> e.fail, cx |-> e.cx, svcs |-> svcs,
                  st |-> "run", com |-> FALSE, x |-> FALSE, hot |-> meets # {}])
  /\ UNCHANGED <<acc, item, evlog, svcs, done, sick>>

(* A commit that changes the data is that of one command, and all of it.    *)
Db(e) ==
  LET by == {a.by : a \in Ran(e.acc)} \cup {a.by : a \in Ran(e.items)} \cup {a.by : a \in Ran(e.log)}
      n == CHOOSE n \in by : TRUE
      own == by # {} /\ Cardinality(by) = 1 /\ n \in DOMAIN cmds
      c == cmds[n]
      new == {a.k : a \in Ran(e.acc)}
      old(k) == {x \in DOMAIN item : item[x] = k} IN
  /\ Must({"P36"}, "rows change that no running command changes", own /\ (own => c.i = e.i /\ c.st = "run"))
  /\ Must({"P36"}, "a command is committed twice", own => ~c.com)
  /\ Must({"P36"}, "work of a command that refuses is stored", own => c.fail = "")
  /\ Must({"P36"}, "an update of another command is lost", own => \A a \in Ran(e.acc) : a.k \in Keys(c) /\ a.k \in DOMAIN acc => a.v = acc[a.k] + c.ds[a.k])
  /\ Must({"P36"}, "not all and only the work of the command is stored", own =>
        /\ new = Keys(c) /\ e.accGone = 0
        /\ \A k \in Keys(c) : Cardinality({x \in Ran(e.items) : x.x = k}) = c.items
        /\ Len(e.items) = c.items * Cardinality(Keys(c)) /\ \A x \in Ran(e.items) : ~x.was
        /\ {x.k : x \in Ran(e.itemsGone)} = (IF c.drop THEN UNION {old(k) : k \in Keys(c)} ELSE {}))
  /\ Must({"P36"}, "not exactly the command's events are recorded with its work", own =>
        {x.k : x \in Ran(e.log)} = Events(c) /\ e.logGone = 0)
  /\ acc' = [k \in DOMAIN acc \cup new |-> IF k \in new THEN (CHOOSE a \in Ran(e.acc) : a.k = k).v ELSE acc[k]]
  /\ item' = LET gone == {x.k : x \in Ran(e.itemsGone)}
                 add == {x.k : x \in Ran(e.items)} IN
             [x \in (DOMAIN item \ gone) \cup add |-> IF x \in add THEN (CHOOSE y \in Ran(e.items) : y.k = x).x ELSE item[x]]
  /\ evlog' = evlog \cup {x.k : x \in Ran(e.log)}
  /\ cmds' = IF own THEN [cmds EXCEPT ![n].com = TRUE] ELSE cmds
  /\ UNCHANGED <<svcs, done, sick>>

Ret(e) ==
  LET c == cmds[e.c] IN
  /\ e.c \in DOMAIN cmds /\ c.st = "run"
  /\ Must({"P36"}, "a success is reported though nothing is stored", e.r = "ok" => c.com /\ c.fail = "")
  /\ Must({"P36"}, "a failure is reported though the work is stored", e.r # "ok" /\ c.com => c.x)
  /\ Must({"P36"}, "a command fails although nothing stands in its way", e.r # "ok" => c.fail # "" \/ c.hot \/ c.cx \/ sick)
  /\ Must({"P36"}, "a break is not reported as one", (e.r = "brk" => c.fail = "brk") /\ (e.r = "pan" => c.fail = "pan"))
  /\ cmds' = [cmds EXCEPT ![e.c].st = e.r]
  /\ UNCHANGED <<acc, item, evlog, svcs, done, sick>>

(******************************* delivery **********************************)
Hs(e) ==
  LET cs == {n \in DOMAIN cmds : e.n \in Events(cmds[n])}
      c == cmds[CHOOSE n \in cs : TRUE] IN
  /\ Must({"P36"}, "an event arrives that nobody sent", cs # {})
  /\ Must({"P36"}, "a transactional event of work that is not stored arrives", cs # {} /\ e.n \in Ran(c.txs) => c.com)
  /\ Must({"P36"}, "an event of work that failed arrives", cs # {} => c.com \/ c.st = "run" \/ c.x)
  /\ UNCHANGED vars
He(e) ==
  /\ done' = IF e.r = "ok" THEN done \cup {<<e.svc, e.n>>} ELSE done
  /\ UNCHANGED <<acc, item, evlog, svcs, cmds, sick>>

(******************************* trouble ***********************************)
Fault(e) ==
  /\ cmds' = [n \in DOMAIN cmds |-> IF cmds[n].i = e.i /\ cmds[n].st = "run" THEN [cmds[n] EXCEPT !.x = TRUE] ELSE cmds[n]]
  /\ sick' = TRUE
  /\ UNCHANGED <<acc, item, evlog, svcs, done>>
Crash(e) ==
  /\ cmds' = [n \in DOMAIN cmds |-> IF cmds[n].i = e.i /\ cmds[n].st = "run" THEN [cmds[n] EXCEPT !.st = "dead", !.x = TRUE] ELSE cmds[n]]
  /\ sick' = TRUE
  /\ UNCHANGED <<acc, item, evlog, svcs, done>>

(* After a quiet time nothing is left to do. *)
End(e) ==
  /\ Must({"P36"}, "a command does not end", \A n \in DOMAIN cmds : cmds[n].st # "run")
  /\ Must({"P36"}, "an event of stored work does not arrive",
        \A n \in DOMAIN cmds : cmds[n].com => \A m \in Events(cmds[n]) : \A s \in cmds[n].svcs : <<s, m>> \in done)
  /\ Must({"P36"}, "a message stays in preparation", e.msgs = 0)
  /\ Must({"P36"}, "a lock stays", ~sick => e.locks = <<>>)
  /\ UNCHANGED vars

Step(e) ==
  CASE e.op = "cfg"   -> Cfg(e)
    [] e.op = "svc"   -> Svc(e)
    [] e.op = "up"    -> UNCHANGED vars
    [] e.op = "call"  -> Call(e)
    [] e.op = "db"    -> Db(e)
    [] e.op = "ret"   -> Ret(e)
    [] e.op = "hs"    -> Hs(e)
    [] e.op = "he"    -> He(e)
    [] e.op = "fault" -> Fault(e)
    [] e.op = "crash" -> Crash(e)
    [] e.op = "end"   -> End(e)
=============================================================================
