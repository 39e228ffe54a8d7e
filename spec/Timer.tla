------------------------------- MODULE Timer -------------------------------
(***************************************************************************)
(* Timers kept in a database table and fired by several instances of a     *)
(* service that poll it.                                                   *)
(*                                                                         *)
(* A step is the beginning or end of an API call, one committed change of  *)
(* a job's row attributed to the process that made it, the beginning and   *)
(* end of a callback, the start or death of an instance, an injected fault *)
(* or a look at the clock.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Check, Loud
On(P) == P \cap Check # {}
Must(P, name, cond) == IF On(P) THEN (IF cond THEN TRUE ELSE Loud /\ PrintT(<<"GUARD", name>>) /\ FALSE) ELSE TRUE

VARIABLES
  conf,   \* [ri (polling interval), slack, calm (statements are not held back)]
  svc,    \* process -> its service
  inst,   \* polling instance -> [idle (since), cb (callbacks under way)]
  job,    \* key -> [svc, id, next, st, cron, cr, data, busy, ph, ft, et, x]
  calls   \* call -> [i, k, key, cron, cr, valid, at, data, t, seen, gone, other, x]
vars == <<conf, svc, inst, job, calls>>
Nil == [x \in {} |-> x]
Upd(f, k, v) == (k :> v) @@ f
Less(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Max(a, b) == IF a > b THEN a ELSE b

Init == conf = [ri |-> 0, slack |-> 0, calm |-> FALSE] /\ svc = Nil /\ inst = Nil /\ job = Nil /\ calls = Nil

Cfg(e) == conf' = [ri |-> e.ri, slack |-> e.slack, calm |-> e.calm] /\ UNCHANGED <<svc, inst, job, calls>>
Proc(e) == svc' = Upd(svc, e.i, e.svc) /\ UNCHANGED <<conf, inst, job, calls>>
Boot(e) == inst' = Upd(inst, e.i, [idle |-> e.t, cb |-> 0]) /\ UNCHANGED <<conf, svc, job, calls>>
Calm(e) == /\ conf' = [conf EXCEPT !.calm = TRUE]
           /\ inst' = [i \in DOMAIN inst |-> [inst[i] EXCEPT !.idle = e.t]]
           /\ UNCHANGED <<svc, job, calls>>

(* schedules: every p milliseconds beginning at o, or e after the moment (to the second) *)
After(cr, t) == IF cr.e > 0 THEN ((t \div 1000) * 1000) + cr.e
                ELSE LET k == (t - cr.o) \div cr.p IN cr.o + (k + 1) * cr.p

(******************************** API calls ********************************)
Mine(key, s) == key \in DOMAIN job /\ job[key].svc = s
Call(e) ==
  /\ calls' = Upd(calls, e.c, [i |-> e.i, k |-> e.k, key |-> e.key, cron |-> e.cron, cr |-> e.cr, valid |-> e.valid, fit |-> e.fit, at |-> e.at, data |-> e.data, t |-> e.t,
                               n |-> 0, seen |-> Mine(e.key, svc[e.i]), gone |-> ~Mine(e.key, svc[e.i]), other |-> e.key \in DOMAIN job /\ job[e.key].svc # svc[e.i], x |-> FALSE])
  /\ UNCHANGED <<conf, svc, inst, job>>
Ret(e) ==
  LET c == calls[e.c] IN
  /\ e.c \in DOMAIN calls
  /\ IF c.k = "cancel"
     THEN /\ Must({"P34"}, "cancelled but still there", e.r = "ok" => c.gone)
          /\ Must({"P34"}, "cancelling fails although nothing failed", e.r # "ok" => c.x)
     ELSE LET over == c.k = "once" /\ c.at < c.t IN
          /\ Must({"P34"}, "an invalid or overdue registration is accepted", (~c.valid \/ over) => e.r # "ok")
          /\ Must({"P34"}, "registered but no job is there", e.r = "ok" => c.seen)
          /\ Must({"P34"}, "registering fails although nothing failed", e.r # "ok" => ~c.valid \/ ~c.fit \/ (c.k = "once" /\ c.at < e.t) \/ c.other \/ c.x \/ c.n > 1)
  /\ calls' = Less(calls, {e.c})
  /\ UNCHANGED <<conf, svc, inst, job>>

(******************************** job rows *********************************)
Asking(i, key, ks) == {c \in DOMAIN calls : calls[c].i = i /\ calls[c].key = key /\ calls[c].k \in ks}
Due(c, e) == IF c.k = "once" THEN c.at <= e.next /\ e.next < c.at + 1000 ELSE After(c.cr, c.t) <= e.next /\ e.next <= After(c.cr, e.t)
Wanted(c, e) == c.valid /\ c.fit /\ (c.k = "once" => c.at >= c.t) /\ e.svc = svc[e.i] /\ e.cron = c.cron /\ e.data = c.data /\ e.st = "run" /\ Due(c, e)
Created(e) ==
  LET ks == Asking(e.i, e.key, {"cron", "once"})
      ok == {c \in ks : Wanted(calls[c], e)}
      cr == IF ok # {} THEN calls[CHOOSE c \in ok : TRUE].cr ELSE [p |-> 1000, o |-> 0, e |-> 0] IN
  /\ Must({"P34"}, "a job appears that nobody registers", ks # {})
  /\ Must({"P34"}, "the job is not the one that was registered", ks # {} => ok # {})
  /\ Must({"P33"}, "a job appears while none is registered", ks # {})
  /\ job' = Upd(job, e.key, [svc |-> e.svc, id |-> e.id, next |-> e.next, st |-> e.st, cron |-> e.cron, cr |-> cr, data |-> e.data, since |-> e.t,
                             busy |-> "", ph |-> "", ft |-> 0, et |-> 0, x |-> FALSE])
  /\ calls' = [c \in DOMAIN calls |-> IF calls[c].key # e.key THEN calls[c]
                                       ELSE IF svc[calls[c].i] = e.svc THEN [calls[c] EXCEPT !.seen = TRUE, !.n = @ + 1] ELSE [calls[c] EXCEPT !.other = TRUE]]
  /\ UNCHANGED <<conf, svc, inst>>
Changed(e) ==
  LET j == job[e.key]
      mine == j.busy = e.i IN
  /\ Must({"P33", "P34"}, "a registered job is changed", e.svc = j.svc /\ e.cron = j.cron /\ e.data = j.data /\ e.id = j.id)
  /\ Must({"P33", "P34"}, "a job's progress is changed though it did not fire", mine)
  /\ Must({"P33"}, "a firing is recorded before it is over", mine => j.ph = "end")
  /\ Must({"P33"}, "a one-time job is not finished by its firing", mine /\ j.cron = "" => e.st = "done")
  /\ Must({"P33"}, "a recurring job is not due at the next matching time", mine /\ j.cron # "" => e.st = "run" /\ After(j.cr, j.et) <= e.next /\ e.next <= After(j.cr, e.t))
  /\ job' = [job EXCEPT ![e.key] = [@ EXCEPT !.since = e.t, !.next = e.next, !.st = e.st, !.busy = "", !.ph = "", !.x = FALSE, !.svc = e.svc, !.cron = e.cron, !.data = e.data, !.id = e.id]]
  /\ UNCHANGED <<conf, svc, inst, calls>>
Row(e) == IF e.key \in DOMAIN job THEN Changed(e) ELSE Created(e)
Gone(e) ==
  LET ks == Asking(e.i, e.key, {"cancel"}) IN
  /\ e.key \in DOMAIN job
  /\ Must({"P34"}, "a job disappears that nobody cancels", ks # {} /\ job[e.key].svc = svc[e.i])
  /\ Must({"P33"}, "a job is dropped", ks # {})
  /\ job' = Less(job, {e.key})
  /\ calls' = [c \in DOMAIN calls |-> IF calls[c].key = e.key THEN [calls[c] EXCEPT !.gone = TRUE] ELSE calls[c]]
  /\ UNCHANGED <<conf, svc, inst>>

(******************************** firing ***********************************)
\* no job is due although an instance of its service has had a polling round since
InTime(t, ks) ==
  conf.calm =>
    \A k \in ks : \A i \in DOMAIN inst :
      LET j == job[k] IN
      ~(/\ j.st = "run" /\ j.svc = svc[i] /\ (j.busy = "" \/ (j.x /\ j.ph # "cb"))
        /\ inst[i].cb = 0
        /\ Max(Max(j.next, j.since), inst[i].idle) + conf.ri + conf.slack <= t)
Fire(e) ==
  LET there == e.key \in DOMAIN job
      j == job[e.key] IN
  /\ Must({"P33", "P34"}, "a key fires that is not registered", there)
  /\ Must({"P33"}, "a due job is fired late", InTime(e.t, {e.key} \cap DOMAIN job))
  /\ Must({"P33"}, "a job of another service is fired", there => j.svc = svc[e.i])
  /\ Must({"P33"}, "a job is fired before it is due", there => j.next <= e.t)
  /\ Must({"P33"}, "a finished job is fired", there => j.st = "run")
  /\ Must({"P33"}, "a due job is fired twice", there => j.busy = "" \/ j.x)
  /\ Must({"P33"}, "a job is fired with other data than registered", there => e.cron = j.cron /\ e.data = j.data)
  /\ job' = IF there THEN [job EXCEPT ![e.key] = [@ EXCEPT !.busy = e.i, !.ph = "cb", !.ft = e.t, !.x = FALSE]] ELSE job
  /\ inst' = [inst EXCEPT ![e.i].cb = @ + 1]
  /\ UNCHANGED <<conf, svc, calls>>
Fired(e) ==
  LET j == job[e.key] IN
  /\ job' = IF e.key \in DOMAIN job /\ j.busy = e.i THEN [job EXCEPT ![e.key] = [@ EXCEPT !.ph = "end", !.et = e.t]] ELSE job
  /\ inst' = [inst EXCEPT ![e.i] = [idle |-> IF e.key \in DOMAIN job /\ j.ft = e.t THEN @.idle ELSE e.t, cb |-> @.cb - 1]]
  /\ UNCHANGED <<conf, svc, calls>>

(******************************** trouble **********************************)
Fault(e) ==
  /\ calls' = [c \in DOMAIN calls |-> IF calls[c].i = e.i THEN [calls[c] EXCEPT !.x = TRUE] ELSE calls[c]]
  /\ job' = [k \in DOMAIN job |-> IF job[k].busy = e.i /\ job[k].ph = "end" THEN [job[k] EXCEPT !.x = TRUE, !.since = e.t] ELSE job[k]]
  \* trouble with recording one job's firing is no excuse for the other jobs that are due
  /\ LET own == \E k \in DOMAIN job : job[k].busy = e.i /\ job[k].ph = "end" IN
     inst' = IF e.i \in DOMAIN inst /\ ~(own /\ e.k # "stall") THEN [inst EXCEPT ![e.i].idle = e.t] ELSE inst
  /\ UNCHANGED <<conf, svc>>
Crash(e) ==
  /\ calls' = Less(calls, {c \in DOMAIN calls : calls[c].i = e.i})
  /\ job' = [k \in DOMAIN job |-> IF job[k].busy = e.i THEN [job[k] EXCEPT !.busy = "", !.ph = "", !.since = e.t] ELSE job[k]]
  /\ inst' = Less(inst, {e.i})
  /\ UNCHANGED <<conf, svc>>

Tick(e) ==
  /\ Must({"P33"}, "a due job is not fired", InTime(e.t, DOMAIN job))
  /\ Must({"P33"}, "a firing is not recorded", conf.calm => \A k \in DOMAIN job : job[k].busy # "" /\ job[k].ph = "end" /\ ~job[k].x => job[k].et + conf.slack > e.t)
  /\ UNCHANGED vars

Step(e) ==
  CASE e.op = "cfg"   -> Cfg(e)
    [] e.op = "proc"  -> Proc(e)
    [] e.op = "boot"  -> Boot(e)
    [] e.op = "calm"  -> Calm(e)
    [] e.op = "call"  -> Call(e)
    [] e.op = "ret"   -> Ret(e)
    [] e.op = "row"   -> Row(e)
    [] e.op = "gone"  -> Gone(e)
    [] e.op = "fire"  -> Fire(e)
    [] e.op = "fired" -> Fired(e)
    [] e.op = "fault" -> Fault(e)
    [] e.op = "crash" -> Crash(e)
    [] e.op = "tick"  -> Tick(e)
=============================================================================
