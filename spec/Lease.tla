------------------------------- MODULE Lease -------------------------------
(***************************************************************************)
(* A lease lock kept in a store outside the processes: a row of a database *)
(* table (expires when it was not renewed for a time-to-live, is renewed   *)
(* while work runs under it) or a key of a Redis server (expires by        *)
(* itself, is not renewed).                                                *)
(*                                                                         *)
(* A step is the beginning or end of an API call of a process, one change  *)
(* of the store attributed to the process that made it, the beginning and  *)
(* end of work run under the lock, the end of the work's context, an       *)
(* injected fault, a process death, or a look at the clock.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Check, Loud
On(P) == P \cap Check # {}
Must(P, name, cond) == IF On(P) THEN (IF cond THEN TRUE ELSE Loud /\ PrintT(<<"GUARD", name>>) /\ FALSE) ELSE TRUE

VARIABLES
  conf,   \* [kind, ttl, ri (renewal interval), retry, least (a refusal takes at least so long), most]
  row,    \* key -> [own, at]: who holds it and since when (last renewal)
  free,   \* key -> since when it is free (as far as the store knows)
  made,   \* holding -> [i, key, at, c]: every holding ever stored by a process, and by which call
  calls,  \* <<process, call>> -> [k, key, own, t, done, ph, lost, cx, x, pc]
  dead    \* how many runs died with their processes
vars == <<conf, row, free, made, calls, dead>>

Nil == [x \in {} |-> x]
Upd(f, k, v) == (k :> v) @@ f
Less(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]

Init ==
  /\ conf = [kind |-> "", ttl |-> 0, ri |-> 0, retry |-> FALSE, slack |-> 0, least |-> 0, most |-> 0]
  /\ row = Nil /\ free = Nil /\ made = Nil /\ calls = Nil /\ dead = 0

Exp(r) == r.at + conf.ttl
Held(key, t) == key \in DOMAIN row /\ Exp(row[key]) > t
\* since when the key could have been acquired (t: now); t + 1 when it cannot
FreeSince(key, t) ==
  IF key \in DOMAIN row THEN (IF Exp(row[key]) <= t THEN Exp(row[key]) ELSE t + 1)
  ELSE IF key \in DOMAIN free THEN free[key] ELSE -1000000

Cfg(e) == conf' = [kind |-> e.kind, ttl |-> e.ttl, ri |-> e.ri, retry |-> e.retry, slack |-> e.slack, least |-> e.least, most |-> e.most]
          /\ UNCHANGED <<row, free, made, calls, dead>>

(******************************** work under the lock **********************)
Working(k) == calls[k].k = "run" /\ calls[k].ph = "work"
\* the lock of running work must not expire, and work that lost it must be told
Watch(e) ==
  /\ Must({"P31"}, "the lock of running work expires",
          \A k \in DOMAIN calls : Working(k) /\ calls[k].lost = -1 /\ ~calls[k].pc => row[calls[k].key].own = calls[k].own /\ Exp(row[calls[k].key]) + conf.slack > e.t)
  /\ Must({"P31"}, "work that lost its lock is not stopped",
          \A k \in DOMAIN calls : Working(k) /\ calls[k].lost # -1 /\ ~calls[k].cx => calls[k].lost + conf.ri + conf.slack >= e.t)

(******************************** API calls ********************************)
Call(e) ==
  /\ Must({"P31"}, "a finished run still uses the store", e.late = 0)
  /\ calls' = Upd(calls, <<e.i, e.c>>, [k |-> e.k, key |-> e.key, own |-> e.own, t |-> e.t, done |-> FALSE, ph |-> "", lost |-> -1,
                                         cx |-> FALSE, x |-> FALSE, pc |-> FALSE])
  /\ UNCHANGED <<conf, row, free, made, dead>>

\* a refusal is justified when the key was not free all the time the last attempt took
Refused(e, c) ==
  /\ Must({"P30", "P32"}, "refused although the key is free", FreeSince(c.key, e.t) + conf.slack >= (IF conf.retry THEN e.t ELSE c.t))
  /\ Must({"P32"}, "gives up too early", c.t + conf.least <= e.t)
  /\ Must({"P32"}, "keeps trying without end", c.t + conf.most + conf.slack >= e.t)

Ret(e) ==
  LET k == <<e.i, e.c>>
      c == calls[k] IN
  /\ k \in DOMAIN calls
  /\ CASE c.k = "lock" ->
            /\ Must({"P30", "P32"}, "lock reported but not acquired", e.r = "ok" => c.done)
            /\ Must({"P30", "P32"}, "another holding is reported than the one acquired", e.r = "ok" /\ e.own # "?" => e.own = c.own)
            /\ Must({"P30", "P32"}, "failure reported but the lock is kept", e.r # "ok" => ~c.done \/ c.x)
            /\ e.r = "locked" /\ ~c.x => Refused(e, c)
            /\ Must({"P30", "P32"}, "an error although nothing failed", e.r = "err" => c.x \/ c.pc)
       [] c.k = "unlock" ->
            /\ Must({"P30", "P32"}, "release reported but not done", e.r = "ok" => c.done)
            /\ Must({"P30", "P32"}, "release refused although the lock is held",
                    e.r # "ok" /\ c.own # "?" => c.x \/ c.pc \/ c.key \notin DOMAIN row \/ row[c.key].own # c.own)
       [] c.k = "run" ->
            /\ Must({"P31"}, "work neither run nor refused", e.r = "ok" \/ e.r = "pan" => c.ph = "end")
            /\ Must({"P31"}, "work refused but run", e.r \in {"locked", "err"} => c.ph = "")
            /\ Must({"P31"}, "failure reported but the lock is kept", e.r \in {"locked", "err"} => ~c.done \/ c.x)
            /\ e.r = "locked" /\ ~c.x => Must({"P31"}, "refused although the key is free", FreeSince(c.key, e.t) + conf.slack >= (IF conf.retry THEN e.t ELSE c.t))
            /\ Must({"P31"}, "an error although nothing failed", e.r = "err" => c.x \/ c.pc)
            /\ Must({"P31"}, "the context of finished work goes on", c.ph = "end" => e.cx)
            /\ Must({"P31"}, "the lock is kept after the work",
                    c.ph = "end" => c.x \/ c.key \notin DOMAIN row \/ row[c.key].own # c.own)
       [] OTHER -> TRUE
  /\ calls' = Less(calls, {k})
  /\ UNCHANGED <<conf, row, free, made, dead>>

WorkStart(e) ==
  LET k == <<e.i, e.c>>
      c == calls[k] IN
  /\ k \in DOMAIN calls
  /\ Must({"P31"}, "work is run twice", c.ph = "")
  /\ Must({"P31"}, "work is run without the lock", c.done /\ (c.x \/ conf.slack > 0 \/ (c.key \in DOMAIN row /\ row[c.key].own = c.own)))
  /\ calls' = [calls EXCEPT ![k].ph = "work",
                 ![k].lost = IF c.done /\ c.key \in DOMAIN row /\ row[c.key].own = c.own THEN -1 ELSE e.t]
  /\ UNCHANGED <<conf, row, free, made, dead>>
WorkEnd(e) ==
  LET k == <<e.i, e.c>> IN
  /\ k \in DOMAIN calls
  /\ calls' = [calls EXCEPT ![k].ph = "end"]
  /\ UNCHANGED <<conf, row, free, made, dead>>
Cancelled(e) ==       \* the work sees its context end
  LET k == <<e.i, e.c>>
      c == calls[k] IN
  /\ k \in DOMAIN calls
  /\ Must({"P31"}, "work is stopped although it holds the lock", c.ph = "work" => c.lost # -1 \/ c.pc \/ c.x)
  /\ calls' = [calls EXCEPT ![k].cx = TRUE]
  /\ UNCHANGED <<conf, row, free, made, dead>>
ParentEnds(e) ==      \* the caller's own context ends
  LET k == <<e.i, e.c>> IN
  /\ k \in DOMAIN calls
  /\ calls' = [calls EXCEPT ![k].pc = TRUE, ![k].lost = IF @ = -1 /\ calls[k].ph = "work" THEN e.t ELSE @]
  /\ UNCHANGED <<conf, row, free, made, dead>>

(******************************** the store ********************************)
\* (a call whose first success got lost on the way may acquire once more what it then lost)
Open(i, key, own) == {k \in DOMAIN calls : k[1] = i /\ calls[k].key = key /\ calls[k].k \in {"lock", "run"} /\ (~calls[k].done \/ (calls[k].x /\ calls[k].own = own))}
Lose(key, own, t) == [k \in DOMAIN calls |-> IF calls[k].k = "run" /\ calls[k].key = key /\ calls[k].own = own /\ calls[k].done /\ calls[k].ph # "end" /\ calls[k].lost = -1
                                              THEN [calls[k] EXCEPT !.lost = t] ELSE calls[k]]
First(S) == CHOOSE k \in S : \A m \in S : calls[k].t < calls[m].t \/ (calls[k].t = calls[m].t /\ k[2] <= m[2])

\* the store changes: e.key is now held by e.own ("" = by nobody) since e.at
Store(e) ==
  LET old == IF e.key \in DOMAIN row THEN row[e.key] ELSE [own |-> "", at |-> 0]
      ks == Open(e.i, e.key, e.own)
      k == IF <<e.i, e.c>> \in ks THEN <<e.i, e.c>> ELSE First(ks)
      mine == {c \in DOMAIN calls : c[1] = e.i /\ calls[c].key = e.key /\ calls[c].own \in {old.own, "?"}}
  IN
  IF e.i = "operator"
  THEN /\ row' = IF e.own = "" THEN Less(row, {e.key}) ELSE Upd(row, e.key, [own |-> e.own, at |-> e.at])
       /\ free' = IF e.own = "" THEN Upd(free, e.key, e.t) ELSE free
       /\ calls' = IF e.own # old.own THEN Lose(e.key, old.own, e.t) ELSE calls
       /\ UNCHANGED <<conf, made, dead>>
  ELSE IF e.own = ""
  THEN \* released
       /\ Must({"P30", "P31", "P32"}, "the holding of another is released", old.own \in DOMAIN made /\ made[old.own].i = e.i)
       /\ Must({"P30", "P31", "P32"}, "released although nobody releases it", \E c \in mine : calls[c].k = "unlock" \/ (calls[c].k = "run" /\ calls[c].ph = "end"))
       /\ row' = Less(row, {e.key})
       /\ free' = Upd(free, e.key, e.t)
       /\ calls' = [c \in DOMAIN calls |-> IF c \in mine /\ calls[c].k = "unlock" THEN [calls[c] EXCEPT !.done = TRUE] ELSE calls[c]]
       /\ UNCHANGED <<conf, made, dead>>
  ELSE IF e.own = old.own
  THEN \* renewed
       /\ Must({"P30", "P32"}, "the holding of another is renewed", old.own \in DOMAIN made /\ made[old.own].i = e.i)
       /\ Must({"P30", "P31"}, "a holding is renewed that no work runs under", \E c \in mine : calls[c].k = "run" /\ calls[c].ph # "end")
       /\ Must({"P30", "P31"}, "renewed into the past or future", e.at >= old.at /\ e.at <= e.t)
       /\ row' = Upd(row, e.key, [own |-> e.own, at |-> e.at])
       /\ UNCHANGED <<conf, free, made, calls, dead>>
  ELSE \* acquired
       /\ Must({"P30", "P32"}, "acquired although nobody asks for it", ks # {})
       /\ Must({"P30", "P31", "P32"}, "a live lock is taken over", old.own # "" => Exp(old) <= e.t)
       /\ Must({"P30", "P32"}, "a holding is not told apart from an earlier one", e.own \notin DOMAIN made \/ \E c \in ks : calls[c].own = e.own)
       /\ Must({"P30", "P32"}, "acquired for less or more than the time-to-live", e.at <= e.t /\ (ks # {} => e.at >= calls[k].t))
       /\ row' = Upd(row, e.key, [own |-> e.own, at |-> e.at])
       /\ made' = IF e.own \in DOMAIN made THEN made ELSE Upd(made, e.own, [i |-> e.i, key |-> e.key])
       /\ calls' = LET l == Lose(e.key, old.own, e.t) IN
                   IF ks = {} THEN l ELSE [l EXCEPT ![k].done = TRUE, ![k].own = e.own]
       /\ UNCHANGED <<conf, free, dead>>
\* a Redis key passes away by itself
Expire(e) ==
  /\ row' = Less(row, {e.key})
  /\ free' = Upd(free, e.key, e.t)
  /\ Must({"P32"}, "the server drops a live key", e.key \in DOMAIN row => Exp(row[e.key]) <= e.t)
  /\ UNCHANGED <<conf, made, calls, dead>>

(******************************** trouble **********************************)
Fault(e) ==
  /\ calls' = [k \in DOMAIN calls |->
                 IF k[1] = e.i
                 THEN [calls[k] EXCEPT !.x = TRUE,
                                       !.lost = IF calls[k].k = "run" /\ calls[k].ph = "work" /\ @ = -1 /\ e.k # "stall" THEN e.t ELSE @]
                 ELSE calls[k]]
  /\ UNCHANGED <<conf, row, free, made, dead>>
Crash(e) ==
  /\ dead' = dead + Cardinality({k \in DOMAIN calls : k[1] = e.i /\ calls[k].k = "run"})
  /\ calls' = [k \in {k \in DOMAIN calls : k[1] # e.i} |-> calls[k]]
  /\ UNCHANGED <<conf, row, free, made>>
Tick(e) == UNCHANGED vars
End(e) ==
  /\ Must({"P31"}, "background activity remains", e.left <= dead + Cardinality({k \in DOMAIN calls : calls[k].k = "run"}))
  /\ Must({"P31"}, "a finished run still uses the store", e.late = 0)
  /\ UNCHANGED vars

Step(e) ==
  /\ e.op # "cfg" /\ e.op # "crash" => Watch(e)
  /\ CASE e.op = "cfg"    -> Cfg(e)
       [] e.op = "call"   -> Call(e)
       [] e.op = "ret"    -> Ret(e)
       [] e.op = "ws"     -> WorkStart(e)
       [] e.op = "we"     -> WorkEnd(e)
       [] e.op = "cx"     -> Cancelled(e)
       [] e.op = "pc"     -> ParentEnds(e)
       [] e.op = "kv"     -> Store(e)
       [] e.op = "gone"   -> Expire(e)
       [] e.op = "fault"  -> Fault(e)
       [] e.op = "crash"  -> Crash(e)
       [] e.op = "tick"   -> Tick(e)
       [] e.op = "end"    -> End(e)
=============================================================================
