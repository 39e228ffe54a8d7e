------------------------------ MODULE MCTimer ------------------------------
(***************************************************************************)
(* Exhaustive exploration of a timer table polled by two instances, a      *)
(* statement (or short transaction) at a time, while clients register and  *)
(* cancel, callbacks last, an instance dies and time passes.  Every step   *)
(* is offered to Timer with all its guards; `bad` says that Timer refused  *)
(* one.  The scripts of how to get to each situation are replayed on the   *)
(* real timer statement by statement.                                      *)
(***************************************************************************)
EXTENDS Timer, Json, IOUtils
Profile == IOEnv.MC_PROFILE        \* poll: what instances do to two jobs; api: what clients do to one
Variant == IOEnv.MC_VARIANT
Depth   == CHOOSE d \in 0..60 : ToString(d) = IOEnv.MC_DEPTH

VARIABLES now, db, lk, pc, loc, ids, script, bad, n, drop
mcvars == <<vars, now, db, lk, pc, loc, ids, script, bad, n, drop>>

Insts == {"a", "b"}
Clients == IF Profile = "api" THEN {"c", "d"} ELSE {"c"}
Keys == IF Profile = "api" THEN {"k"} ELSE {"k", "m"}
Cron2 == "0/2 * * * * ?"
Cr2 == [p |-> 2000, o |-> 0, e |-> 0]
Cr1 == [p |-> 1000, o |-> 0, e |-> 0]
Loc0 == [list |-> <<>>, buf |-> FALSE, next |-> 0, c |-> 0, key |-> "", cron |-> "", at |-> 0, data |-> "", try |-> 0, k |-> ""]

MCInit ==
  /\ Init
  /\ now = 0 /\ script = <<>> /\ bad = "" /\ n = 0 /\ drop = 0 /\ ids = 0
  /\ db = Nil /\ lk = Nil
  /\ pc = [p \in Insts \cup Clients |-> IF p \in Insts THEN "new" ELSE "idle"]
  /\ loc = [p \in Insts \cup Clients |-> Loc0]

Do(e) == IF ENABLED Step(e) THEN Step(e) /\ bad' = bad ELSE bad' = e.op /\ UNCHANGED vars
Say(s) == script' = Append(script, s) /\ n' = n + 1
Quiet == script' = script /\ n' = n
Nothing == UNCHANGED vars /\ bad' = bad
Becomes(p, x) == pc' = [pc EXCEPT ![p] = x]
Locked(k) == k \in DOMAIN lk
RowRec(p, k, r) == [op |-> "row", i |-> p, key |-> k, svc |-> "s", id |-> r.id, next |-> r.next, st |-> r.st, cron |-> r.cron, data |-> r.data, t |-> now]

(* the beginning: processes, instances and (profile poll) two jobs *)
Begin ==
  /\ IF conf.ri = 0 THEN Do([op |-> "cfg", ri |-> 1000, slack |-> 50, calm |-> FALSE, t |-> 0]) /\ UNCHANGED <<pc, script>>
     ELSE IF \E p \in DOMAIN pc : p \notin DOMAIN svc
     THEN LET p == CHOOSE p \in DOMAIN pc : p \notin DOMAIN svc IN Do([op |-> "proc", i |-> p, svc |-> "s", t |-> 0]) /\ UNCHANGED <<pc, script>>
     ELSE LET p == CHOOSE p \in Insts : pc[p] = "new" IN
          /\ Do([op |-> "boot", i |-> p, t |-> 0]) /\ Becomes(p, "idle")
          /\ script' = Append(script, <<"boot", p, "s">>)
  /\ UNCHANGED <<now, db, lk, loc, ids, n, drop>>
Starting == conf.ri = 0 \/ (\E p \in DOMAIN pc : p \notin DOMAIN svc) \/ \E p \in Insts : pc[p] = "new"

(************************* instances ***************************************)
Rest(p) == LET l == loc[p] IN
  IF Len(l.list) > 1 THEN /\ Becomes(p, "job") /\ loc' = [loc EXCEPT ![p].list = Tail(@)]
  ELSE /\ Becomes(p, IF l.buf THEN "sel" ELSE "idle") /\ loc' = [loc EXCEPT ![p].list = <<>>, ![p].buf = FALSE]
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : \A m \in S : db[k].id <= db[m].id IN <<[key |-> k, id |-> db[k].id, cron |-> db[k].cron, data |-> db[k].data]>> \o InOrder(S \ {k})
DueNow(k) == db[k].st = "run" /\ db[k].next <= now
Sel(p) ==
  /\ pc[p] = "sel"
  /\ LET due == {k \in DOMAIN db : DueNow(k)} IN
     IF due = {} THEN Becomes(p, IF loc[p].buf THEN "sel" ELSE "idle") /\ loc' = [loc EXCEPT ![p].buf = FALSE]
     ELSE Becomes(p, "job") /\ loc' = [loc EXCEPT ![p].list = InOrder(due)]
  /\ Say(<<"go", p>>) /\ Nothing
  /\ UNCHANGED <<now, db, lk, ids, drop>>
Take(p) ==
  /\ pc[p] = "job"
  /\ LET j == loc[p].list[1]
         fit == IF Variant = "blind" THEN ~Locked(j.key)
                ELSE j.key \in DOMAIN db /\ db[j.key].id = j.id /\ DueNow(j.key) /\ (~Locked(j.key) \/ Variant = "nolock") IN
     IF fit
     THEN /\ IF Variant = "first" THEN LET r == [db[j.key] EXCEPT !.st = "done"] IN Do(RowRec(p, j.key, r)) ELSE Do([op |-> "fire", i |-> p, key |-> j.key, cron |-> j.cron, data |-> j.data, t |-> now])
          /\ lk' = Upd(lk, j.key, p) /\ Becomes(p, "cb") /\ UNCHANGED loc
     ELSE Rest(p) /\ Nothing /\ UNCHANGED lk
  /\ Say(<<"go", p>>)
  /\ UNCHANGED <<now, db, ids, drop>>
CbEnds(p) ==
  /\ pc[p] = "cb"
  /\ LET k == loc[p].list[1].key IN
     /\ Do([op |-> "fired", i |-> p, key |-> k, r |-> "ok", t |-> now])
     /\ loc' = [loc EXCEPT ![p].next = IF k \notin DOMAIN db \/ db[k].cron = "" THEN 0 ELSE IF Variant = "drift" THEN db[k].next + 2000 ELSE After(db[k].cr, now)]
  /\ Becomes(p, "save") /\ Say(<<"fin", p, IF n % 2 = 0 THEN "ok" ELSE "err">>)
  /\ UNCHANGED <<now, db, lk, ids, drop>>
Save(p) ==
  /\ pc[p] = "save"
  /\ LET k == loc[p].list[1].key
         r == IF db[k].cron = "" THEN [db[k] EXCEPT !.st = "done"] ELSE [db[k] EXCEPT !.next = loc[p].next] IN
     /\ db' = [db EXCEPT ![k] = r] /\ lk' = Less(lk, {k})
     /\ Do(RowRec(p, k, r))
  /\ Rest(p) /\ Say(<<"go", p>>)
  /\ UNCHANGED <<now, ids, drop>>
Die(p) ==
  /\ drop < 1 /\ pc[p] # "dead" /\ drop' = drop + 1
  /\ Do([op |-> "crash", i |-> p, t |-> now])
  /\ Becomes(p, "dead") /\ Say(<<"crash", p>>)
  /\ lk' = Less(lk, {k \in DOMAIN lk : lk[k] = p})
  /\ UNCHANGED <<now, db, loc, ids>>

(************************* clients *****************************************)
Ask(q, k, key, cron, at, data) ==
  LET c == n + 1 IN
  /\ pc[q] = "idle"
  /\ Do([op |-> "call", c |-> c, i |-> q, k |-> k, key |-> key, cron |-> cron, cr |-> IF cron = "" THEN Cr1 ELSE Cr2, valid |-> TRUE, fit |-> TRUE, at |-> at, data |-> data, t |-> now])
  /\ loc' = [loc EXCEPT ![q] = [Loc0 EXCEPT !.c = c, !.key = key, !.cron = cron, !.at = at, !.data = data, !.k = k, !.next = IF cron = "" THEN at ELSE After(Cr2, now)]]
  /\ Becomes(q, IF k = "cancel" THEN "del" ELSE "rsel")
  /\ Say(CASE k = "cancel" -> <<"cancel", q, "s", key>> [] k = "cron" -> <<"cron", q, "s", key, cron, data>> [] OTHER -> <<"once", q, "s", key, at - now, data>>)
  /\ UNCHANGED <<now, db, lk, ids, drop>>
Asks(q) == \E key \in Keys :
  IF Profile = "poll" /\ n < 6
  THEN key = (IF n = 0 THEN "k" ELSE "m") /\ Ask(q, IF key = "k" THEN "cron" ELSE "once", key, IF key = "k" THEN Cron2 ELSE "", now + 1000, "d" \o key)
  ELSE \/ Profile = "api" /\ (Ask(q, "cron", key, Cron2, 0, "d" \o q) \/ Ask(q, "once", key, "", now + 1000, "d" \o q))
       \/ Ask(q, "cancel", key, "", 0, "")
RetOf(q) == [op |-> "ret", c |-> loc[q].c, r |-> IF pc[q] = "retok" THEN "ok" ELSE "err", t |-> now]
Returns(q) ==
  /\ pc[q] \in {"retok", "reterr"}
  /\ Do(RetOf(q)) /\ Becomes(q, "idle") /\ Quiet
  /\ UNCHANGED <<now, db, lk, loc, ids, drop>>
Look(q) ==
  /\ pc[q] = "rsel"
  /\ IF loc[q].key \in DOMAIN db /\ Variant # "over" THEN Becomes(q, "retok") ELSE Becomes(q, "rins")
  /\ Say(<<"go", q>>) /\ Nothing
  /\ UNCHANGED <<now, db, lk, loc, ids, drop>>
Insert(q) ==
  /\ pc[q] = "rins"
  /\ LET l == loc[q]
         r == [id |-> IF Variant = "over" /\ l.key \in DOMAIN db THEN db[l.key].id ELSE ids + 1, next |-> l.next, st |-> "run", cron |-> l.cron, data |-> l.data, cr |-> IF l.cron = "" THEN Cr1 ELSE Cr2] IN
     IF l.key \in DOMAIN db /\ Variant # "over"
     THEN /\ Becomes(q, IF Variant = "dup" \/ l.try = 1 THEN "reterr" ELSE "rsel")
          /\ loc' = [loc EXCEPT ![q].try = @ + 1] /\ Nothing /\ UNCHANGED <<db, ids>>
     ELSE /\ db' = Upd(db, l.key, r) /\ ids' = ids + 1 /\ Do(RowRec(q, l.key, r))
          /\ Becomes(q, "retok") /\ UNCHANGED loc
  /\ Say(<<"go", q>>)
  /\ UNCHANGED <<now, lk, drop>>
Delete(q) ==
  /\ pc[q] \in {"del", "blk"}
  /\ LET k == loc[q].key IN
     IF k \in DOMAIN db /\ Variant # "deaf"
     THEN IF Locked(k) THEN pc[q] = "del" /\ Becomes(q, "blk") /\ Nothing /\ UNCHANGED db
          ELSE /\ db' = Less(db, {k}) /\ Becomes(q, "retok")
               /\ Do([op |-> "gone", i |-> q, key |-> k, t |-> now])
     ELSE Becomes(q, "retok") /\ Nothing /\ UNCHANGED db
  /\ Say(<<"go", q>>)
  /\ UNCHANGED <<now, lk, loc, ids, drop>>

(************************* time ********************************************)
Wait ==
  /\ now < 5000
  /\ now' = now + 1000
  /\ pc' = [p \in DOMAIN pc |-> IF p \in Insts /\ pc[p] = "idle" THEN "sel" ELSE pc[p]]
  /\ loc' = [p \in DOMAIN loc |-> IF p \in Insts /\ pc[p] \notin {"idle", "dead"} THEN [loc[p] EXCEPT !.buf = TRUE] ELSE loc[p]]
  /\ Do([op |-> "tick", t |-> now + 1000])
  /\ Say(<<"wait", 1000>>)
  /\ UNCHANGED <<db, lk, ids, drop>>

Freed == {q \in Clients : pc[q] = "blk" /\ ~Locked(loc[q].key)}
Urgent == \E q \in Clients : pc[q] \in {"retok", "reterr"} \/ q \in Freed
MCNext ==
  /\ bad = ""
  /\ IF Starting THEN Begin
     ELSE IF \E q \in Clients : pc[q] \in {"retok", "reterr"} THEN \E q \in Clients : Returns(q)
     ELSE IF Freed # {} THEN \E q \in Freed : Delete(q)
     ELSE IF Profile = "poll" /\ n < 6 THEN \E q \in Clients : Asks(q) \/ Look(q) \/ Insert(q)
     ELSE /\ n < Depth
          /\ \/ \E p \in Insts : Sel(p) \/ Take(p) \/ CbEnds(p) \/ Save(p) \/ Die(p)
             \/ \E q \in Clients : Asks(q) \/ Look(q) \/ Insert(q) \/ (pc[q] = "del" /\ Delete(q))
             \/ Wait
MCSpec == MCInit /\ [][MCNext]_mcvars

Fine == bad = ""
Last == IF script = <<>> THEN <<"">> ELSE script[Len(script)]
View == <<conf.ri, svc, db, lk, pc, [p \in DOMAIN loc |-> [loc[p] EXCEPT !.c = 0]], now, drop, bad, Last[1], [k \in DOMAIN job |-> <<job[k].busy, job[k].ph>>], n % 2>>
Emit == (n > 0 /\ ~Urgent /\ n >= Depth - 2) => PrintT("SC " \o ToJson([profile |-> Profile, steps |-> script]))
=============================================================================
