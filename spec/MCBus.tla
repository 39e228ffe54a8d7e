------------------------------- MODULE MCBus -------------------------------
(***************************************************************************)
(* Exhaustive exploration of a persisted event bus, a transaction (or the  *)
(* part of one between two locks) at a time: senders, instances that poll, *)
(* handle, ask and clean, processes that die, transactions that fail, and  *)
(* time.  Every step is offered to EventBus with all its guards; `bad`     *)
(* says that EventBus refused one.  Broken variants must be refused.       *)
(*                                                                         *)
(* Profiles  deliver  two instances of one service, two events             *)
(*           send     two services, sending in pieces, one comes late      *)
(*           tx       prepared messages, confirming against asking         *)
(*           clean    two services, handled and failed deliveries, time    *)
(* The committed database is the state of EventBus itself.                 *)
(***************************************************************************)
EXTENDS EventBus, Json, IOUtils
Profile == IOEnv.MC_PROFILE
Variant == IOEnv.MC_VARIANT
Depth   == CHOOSE d \in 0..60 : ToString(d) = IOEnv.MC_DEPTH

Decided == CASE Profile = "deliver" -> {"P21", "P22", "P23", "P24"} [] Profile = "send" -> {"P20"} [] Profile = "tx" -> {"P20", "P25"} [] OTHER -> {"P20", "P26"}

VARIABLES now, lk, pc, loc, todo, script, bad, n, drop, from, cnt, held
mcvars == <<vars, now, lk, pc, loc, todo, script, bad, n, drop, from, cnt, held>>

Insts == IF Profile \in {"deliver", "tx"} THEN {"a1", "a2"} ELSE {"a1", "b1"}
Home(i) == IF i = "b1" THEN "B" ELSE "A"
Services == {Home(i) : i \in Insts}
RunEvery == 100
TxTime == 200
Keep == 300
Conf == [k |-> "int", ms |-> 200, limit |-> IF Variant \in {"forever", "laxfifo"} THEN 0 - 1 ELSE 0, list |-> <<>>, tx |-> TxTime, retain |-> Keep]
Loc0 == [list |-> <<>>, h |-> 0, r |-> "", at |-> 0, x |-> FALSE]

DB0(i) == [op |-> "db", i |-> i, evAdd |-> <<>>, evUpd |-> <<>>, evDel |-> <<>>, dAdd |-> <<>>, dUpd |-> <<>>, dDel |-> <<>>,
           xAdd |-> <<>>, xUpd |-> <<>>, xDel |-> <<>>, svcAdd |-> <<>>, t |-> now]

MCInit ==
  /\ Init
  /\ now = 0 /\ lk = Nil /\ todo = <<>> /\ script = <<>> /\ bad = "" /\ n = 0 /\ drop = 0 /\ from = 0 /\ cnt = 0 /\ held = 0
  /\ pc = [i \in Insts |-> "new"] /\ loc = [i \in Insts |-> Loc0]

Do(e) == IF ENABLED Step(e) THEN Step(e) /\ bad' = bad ELSE bad' = e.op /\ UNCHANGED vars
Say(s) == script' = Append(script, s) /\ n' = n + 1
Quiet == script' = script /\ n' = n
Nothing == UNCHANGED vars /\ bad' = bad
Becomes(i, x) == pc' = [pc EXCEPT ![i] = x]
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Asc(S \ {x})
RECURSIVE SvcSeq(_)
SvcSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SvcSeq(S \ {x})
Locked(k) == k \in DOMAIN lk
Unlock(i) == lk' = Less(lk, {k \in DOMAIN lk : lk[k] = i})
Alive(i) == pc[i] \notin {"new", "off", "dead"}

\* what a process still has to say: nothing comes between unless it dies
Flow ==
  /\ todo # <<>> /\ Do(todo[1]) /\ todo' = Tail(todo)
  /\ UNCHANGED <<now, lk, pc, loc, script, n, drop, from, cnt, held>>

(************************* the beginning *************************************)
Begin ==
  /\ todo' = <<[op |-> "cfg", svcs |-> [j \in 1..Cardinality(Services) |-> ("n" :> SvcSeq(Services)[j]) @@ Conf]]>>
             \o (IF Profile = "send" THEN <<>> ELSE [j \in 1..Cardinality(Services) |-> [DB0("x") EXCEPT !.svcAdd = <<SvcSeq(Services)[j]>>]])
  /\ pc' = [i \in Insts |-> "off"] /\ Quiet /\ Nothing
  /\ UNCHANGED <<now, lk, loc, drop, from, cnt, held>>
Starts(i) ==
  /\ pc[i] = "off" /\ (Profile = "send" => (i = "a1" \/ pc["a1"] # "off"))
  /\ todo' = (IF Home(i) \in svcs THEN <<>> ELSE <<[DB0(i) EXCEPT !.svcAdd = <<Home(i)>>]>>) \o <<[op |-> "up", i |-> i, svc |-> Home(i), start |-> TRUE, t |-> now]>>
  /\ Becomes(i, "idle") /\ script' = Append(script, <<"up", i, Home(i)>>) /\ n' = n /\ Nothing
  /\ UNCHANGED <<now, lk, loc, drop, from, cnt, held>>

(************************* sending *******************************************)
EvN(k) == "e" \o ToString(k)
Ev(k, st) == [n |-> EvN(k), st |-> st, snd |-> "s", c |-> now]
NextId == IF evs = Nil THEN 1 ELSE MaxOf(DOMAIN evs \cup {0}) + 1
Adds(es, base) == [j \in 1..Len(es) |-> [id |-> base + j - 1, n |-> es[j].n, snd |-> es[j].snd, c |-> es[j].c]]
DAdds(es, base, to) == LET ss == SvcSeq(to) IN
  [q \in 1..(Len(es) * Len(ss)) |-> LET j == ((q - 1) % Len(es)) + 1 s == ((q - 1) \div Len(es)) + 1 IN
     [svc |-> ss[s], ev |-> base + j - 1, st |-> Pending, rc |-> 0, next |-> es[j].c, c |-> es[j].c]]
Names1(es) == [j \in 1..Len(es) |-> es[j].n]
Said(es) == [j \in 1..Len(es) |-> <<es[j].n, es[j].st, "s">>]
CallRec(i, c, k, es) == [op |-> "call", i |-> i, c |-> c, k |-> k, evs |-> es, ns |-> Names1(es), t |-> now]
RetRec(i, c, ok) == [op |-> "ret", i |-> i, c |-> c, ok |-> ok, t |-> now]
Targets(i) == IF Variant = "selfish" THEN {Home(i)} ELSE svcs
Send(i, es, how) ==
  LET c == "c" \o ToString(cnt)
      b == NextId
      whole == [DB0(i) EXCEPT !.evAdd = Adds(es, b), !.dAdd = DAdds(es, b, Targets(i))]
      p1 == [DB0(i) EXCEPT !.evAdd = Adds(es, b)]
      p2 == [DB0(i) EXCEPT !.dAdd = DAdds(es, b, Targets(i))] IN
  /\ Alive(i) /\ cnt < (IF Profile = "clean" THEN 3 ELSE 2)
  /\ todo' = <<CallRec(i, c, "disp", es)>>
             \o (CASE how = "ok" -> (IF Variant = "halfway" THEN <<p1, p2>> ELSE IF Variant = "late" THEN <<[whole EXCEPT !.dAdd = [q \in DOMAIN @ |-> [@[q] EXCEPT !.next = now + 100]]]>> ELSE <<whole>>) \o <<RetRec(i, c, TRUE)>>
                   [] how = "err" -> <<[op |-> "fault", i |-> i, k |-> "err", t |-> now]>> \o (IF Variant = "rest" THEN <<p1>> ELSE <<>>) \o <<RetRec(i, c, Variant = "lies")>>
                   [] how = "errafter" -> <<[op |-> "fault", i |-> i, k |-> "errafter", t |-> now], whole, RetRec(i, c, FALSE)>>
                   [] how = "dies" -> <<[op |-> "crash", i |-> i, t |-> now]>>
                   [] how = "dieslate" -> <<whole, [op |-> "crash", i |-> i, t |-> now]>>)
  /\ pc' = IF how \in {"dies", "dieslate"} THEN [pc EXCEPT ![i] = "dead"] ELSE pc
  /\ drop' = IF how = "ok" THEN drop ELSE drop + 1
  /\ (how # "ok" => drop < 1)
  /\ from' = IF how = "ok" THEN from ELSE now
  /\ cnt' = cnt + Len(es) /\ Nothing
  /\ Say(<<"disp", i, Said(es), how>>)
  /\ UNCHANGED <<now, lk, loc, held>>
Kinds == {"", "fifo", "lax"}
Dispatches ==
  CASE Profile = "deliver" -> \E s1 \in {"", "lax"}, s2 \in Kinds : cnt = 0 /\ Send("a1", <<Ev(1, s1), Ev(2, s2)>>, "ok")
    [] Profile = "send" -> \E i \in Insts, how \in {"ok", "err", "errafter", "dies", "dieslate"} :
                             \/ cnt < 2 /\ Send(i, <<Ev(cnt + 1, "")>>, how)
                             \/ cnt = 0 /\ Send(i, <<Ev(1, ""), Ev(2, "")>>, how)
    [] Profile = "clean" -> cnt < 2 /\ \E i \in Insts : Send(i, <<Ev(cnt + 1, "")>>, "ok")
    [] OTHER -> FALSE

(************************* handling ******************************************)
Mine(i) == {id \in DOMAIN evs : <<Home(i), id>> \in DOMAIN dels}
D(i, id) == dels[<<Home(i), id>>]
DueNow(i, id) == D(i, id).st = Pending /\ (D(i, id).next <= now \/ Variant = "hasty")
Rest(i) == IF Len(loc[i].list) > 1 THEN Becomes(i, "job") /\ loc' = [loc EXCEPT ![i] = [Loc0 EXCEPT !.list = Tail(loc[i].list)]]
           ELSE Becomes(i, "idle") /\ loc' = [loc EXCEPT ![i] = Loc0]
Scan(i) ==
  /\ pc[i] = "sel"
  /\ LET due == {id \in Mine(i) : DueNow(i, id)}
         take == IF Variant = "starves" THEN due \ {MaxOf(Mine(i) \cup {0})} ELSE due IN
     IF take = {} THEN Becomes(i, "idle") /\ UNCHANGED loc
     ELSE Becomes(i, "job") /\ loc' = [loc EXCEPT ![i].list = Asc(take)]
  /\ Say(<<"scan", i>>) /\ Nothing
  /\ UNCHANGED <<now, lk, todo, drop, from, cnt, held>>
MayRun(i, id) ==
  IF Variant = "anyorder" THEN TRUE
  ELSE IF Variant = "laxfifo" /\ evs[id].st = "fifo" THEN LET p == Pred(id) IN p = 0 \/ <<Home(i), p>> \notin DOMAIN dels \/ dels[<<Home(i), p>>].st # Pending
  ELSE Ready(Home(i), id)
Take(i) ==
  /\ pc[i] = "job"
  /\ LET id == loc[i].list[1]
         fit == /\ (Variant = "nolock" \/ ~Locked(<<Home(i), id>>))
                /\ (Variant = "stale" \/ DueNow(i, id))
                /\ MayRun(i, id) IN
     IF fit
     THEN /\ Do([op |-> "hs", i |-> i, h |-> n, n |-> evs[id].n, same |-> TRUE, t |-> now])
          /\ lk' = Upd(lk, <<Home(i), id>>, i) /\ Becomes(i, "cb") /\ loc' = [loc EXCEPT ![i].h = n, ![i].at = now]
     ELSE Rest(i) /\ Nothing /\ UNCHANGED lk
  /\ Say(<<"take", i>>)
  /\ UNCHANGED <<now, todo, drop, from, cnt, held>>
CbEnds(i, r) ==
  /\ pc[i] = "cb"
  /\ Do([op |-> "he", i |-> i, h |-> loc[i].h, r |-> r, m |-> 7, t |-> now])
  /\ loc' = [loc EXCEPT ![i].r = r]
  /\ from' = IF loc[i].at # now THEN now ELSE from
  /\ Becomes(i, "save") /\ Say(<<"fin", i, evs[loc[i].list[1]].n, r, now - loc[i].at>>)
  /\ UNCHANGED <<now, lk, todo, drop, cnt, held>>
After(i, id) ==
  LET d == D(i, id) IN
  IF loc[i].r = "ok" THEN [svc |-> Home(i), ev |-> id, st |-> IF Variant = "amnesia" THEN Pending ELSE Success, rc |-> d.rc, next |-> d.next, m |-> ""]
  ELSE IF (Again(Conf, d.rc) /\ Variant # "giveup") \/ Variant = "forever"
  THEN [svc |-> Home(i), ev |-> id, st |-> Pending, rc |-> d.rc + 1, next |-> now + (IF Variant = "atonce" THEN 0 ELSE Interval(Conf, 0)), m |-> 7]
  ELSE [svc |-> Home(i), ev |-> id, st |-> Failed, rc |-> d.rc, next |-> d.next, m |-> 7]
Save(i) ==
  /\ pc[i] = "save"
  /\ LET id == loc[i].list[1] IN Do([DB0(i) EXCEPT !.dUpd = <<After(i, id)>>])
  /\ Unlock(i) /\ Rest(i) /\ Say(<<"save", i>>)
  /\ UNCHANGED <<now, todo, drop, from, cnt, held>>
SaveFails(i) ==
  /\ pc[i] = "save" /\ drop < 1 /\ drop' = drop + 1
  /\ Do([op |-> "fault", i |-> i, k |-> "err", t |-> now])
  /\ Unlock(i) /\ Rest(i) /\ from' = now /\ Say(<<"savefails", i>>)
  /\ UNCHANGED <<now, todo, cnt, held>>
Die(i) ==
  /\ Alive(i) /\ drop < 1 /\ drop' = drop + 1
  /\ Do([op |-> "crash", i |-> i, t |-> now])
  /\ Becomes(i, "dead") /\ Unlock(i) /\ from' = now /\ Say(<<"crash", i>>)
  /\ UNCHANGED <<now, loc, todo, cnt, held>>

(* a whole handling at once, for the profiles that are about something else *)
Handled(i) == \E id \in Mine(i), r \in {"ok", "err"} :
  /\ Alive(i) /\ D(i, id).st = Pending /\ D(i, id).next <= now
  /\ todo' = <<[op |-> "hs", i |-> i, h |-> n, n |-> evs[id].n, same |-> TRUE, t |-> now],
               [op |-> "he", i |-> i, h |-> n, r |-> r, m |-> 7, t |-> now],
               [DB0(i) EXCEPT !.dUpd = <<IF r = "ok" THEN [svc |-> Home(i), ev |-> id, st |-> Success, rc |-> D(i, id).rc, next |-> D(i, id).next, m |-> ""]
                                        ELSE [svc |-> Home(i), ev |-> id, st |-> IF D(i, id).rc = 0 THEN Pending ELSE Failed,
                                              rc |-> IF D(i, id).rc = 0 THEN 1 ELSE D(i, id).rc, next |-> IF D(i, id).rc = 0 THEN now + 200 ELSE D(i, id).next, m |-> 7]>>]>>
  /\ Nothing /\ Say(<<"fin", i, evs[id].n, r, 0>>)
  /\ UNCHANGED <<now, lk, pc, loc, drop, from, cnt, held>>

(************************* messages ******************************************)
XEv == <<Ev(1, "")>>
Prepare(i) ==
  /\ Alive(i) /\ cnt = 0 /\ cnt' = 1
  /\ todo' = <<CallRec(i, "b", "begin", XEv), [DB0(i) EXCEPT !.xAdd = <<[x |-> 1, svc |-> "A", ns |-> <<"e1">>, due |-> now + (IF Variant = "shortfuse" THEN 50 ELSE TxTime)]>>], RetRec(i, "b", TRUE)>>
  /\ Nothing /\ Say(<<"begin", i, "x1", Said(XEv)>>)
  /\ UNCHANGED <<now, lk, pc, loc, drop, from, held>>
Stores(i) == [DB0(i) EXCEPT !.evAdd = <<[id |-> NextId, n |-> "e1", snd |-> "s", c |-> said["e1"].c]>>,
                            !.dAdd = <<[svc |-> "A", ev |-> NextId, st |-> Pending, rc |-> 0, next |-> said["e1"].c, c |-> said["e1"].c]>>,
                            !.xDel = IF 1 \in DOMAIN txs THEN <<[x |-> 1]>> ELSE <<>>]
Confirm(i, how) ==        \* calls by the process that prepared it, repeated and in any order
  LET k == how IN
  /\ Alive(i) /\ cnt >= 1 /\ cnt < 3 /\ cnt' = cnt + 1
  /\ ~Locked("x1") \/ Variant = "racing"
  /\ LET st == "e1" \in sent  prep == 1 \in DOMAIN txs  c == "c" \o ToString(cnt)
         call == [CallRec(i, c, k, <<>>) EXCEPT !.ns = <<"e1">>] IN
     todo' = IF k = "commit"
             THEN <<call>> \o (IF Variant = "twice" \/ (~st /\ (prep \/ Variant = "revives")) THEN <<Stores(i)>> ELSE <<>>) \o <<RetRec(i, c, st \/ prep \/ Variant \in {"revives", "twice"})>>
             ELSE <<call>> \o (IF prep /\ Variant # "ignored" THEN <<[DB0(i) EXCEPT !.xDel = <<[x |-> 1]>>]>> ELSE <<>>) \o <<RetRec(i, c, TRUE)>>
  /\ Nothing /\ Say(<<how, i, "x1">>)
  /\ UNCHANGED <<now, lk, pc, loc, drop, from, held>>
AskScan(i) ==
  /\ pc[i] = "sel"
  /\ IF 1 \in DOMAIN txs /\ (txs[1].due < now \/ Variant = "curious") /\ (~Locked("x1") \/ Variant = "racing") /\ Variant # "deaf"
     THEN /\ lk' = Upd(lk, "x1", i) /\ Becomes(i, "ask")
          /\ Do([op |-> "ask", i |-> i, n |-> "e1", same |-> TRUE, t |-> now]) /\ loc' = [loc EXCEPT ![i].at = now]
     ELSE Becomes(i, "idle") /\ Nothing /\ UNCHANGED <<lk, loc>>
  /\ Say(<<"scan", i>>)
  /\ UNCHANGED <<now, todo, drop, from, cnt, held>>
Answers(i, r) ==
  /\ pc[i] = "ask"
  /\ Do([op |-> "ans", i |-> i, n |-> "e1", r |-> r, t |-> now])
  /\ loc' = [loc EXCEPT ![i].r = r] /\ Becomes(i, "res")
  /\ from' = IF loc[i].at # now THEN now ELSE from
  /\ Say(<<"ans", i, r, now - loc[i].at>>)
  /\ UNCHANGED <<now, lk, todo, drop, cnt, held>>
Resolve(i) ==
  /\ pc[i] = "res"
  /\ LET r == loc[i].r IN
     CASE r = "commit" /\ "e1" \notin sent /\ (1 \in DOMAIN txs \/ Variant = "racing") -> Do(Stores(i))
       [] (r = "rollback" \/ (r = "unknown" /\ Variant = "impatient")) /\ 1 \in DOMAIN txs -> Do([DB0(i) EXCEPT !.xDel = <<[x |-> 1]>>])
       [] r = "unknown" /\ Variant = "guesses" /\ 1 \in DOMAIN txs -> Do(Stores(i))
       [] OTHER -> Nothing
  /\ Unlock(i) /\ Becomes(i, "idle") /\ loc' = [loc EXCEPT ![i] = Loc0] /\ Say(<<"res", i>>)
  /\ UNCHANGED <<now, todo, drop, from, cnt, held>>
ResolveFails(i) ==
  /\ pc[i] = "res" /\ drop < 1 /\ drop' = drop + 1
  /\ Do([op |-> "fault", i |-> i, k |-> "err", t |-> now])
  /\ Unlock(i) /\ Becomes(i, "idle") /\ loc' = [loc EXCEPT ![i] = Loc0] /\ from' = now /\ Say(<<"savefails", i>>)
  /\ UNCHANGED <<now, todo, cnt, held>>

(************************* cleaning ******************************************)
Old(i, id) == evs[id].c + (IF Variant = "early" THEN 0 ELSE Keep) < now
CleanNow(i) ==
  LET whose == IF Variant = "everybody" THEN Services ELSE {Home(i)}
      rows == {p \in DOMAIN dels : p[1] \in whose /\ p[2] \in DOMAIN evs /\ Old(i, p[2]) /\ (dels[p].st = Success \/ (Variant = "failedtoo" /\ dels[p].st = Failed))}
      left == DOMAIN dels \ rows
      evd == IF Variant = "eager" THEN {p[2] : p \in rows}
             ELSE IF Variant = "keepsevents" THEN {} ELSE {id \in {p[2] : p \in rows} : \A q \in left : q[2] # id}
      seqd == LET ids == Asc({p[2] : p \in rows}) ss == SvcSeq(whose) IN
              SelectSeq([q \in 1..(Len(ids) * Len(ss)) |-> <<ss[((q - 1) \div Len(ids)) + 1], ids[((q - 1) % Len(ids)) + 1]>>], LAMBDA p : p \in rows)
      rec == [DB0(i) EXCEPT !.dDel = [j \in DOMAIN seqd |-> [svc |-> seqd[j][1], ev |-> seqd[j][2]]], !.evDel = LET s == Asc(evd) IN [j \in DOMAIN s |-> [id |-> s[j]]]] IN
  /\ Alive(i) /\ pc[i] = "cln"
  /\ IF rows = {} \/ Variant = "never" THEN Nothing ELSE Do(rec)
  /\ Becomes(i, "idle") /\ Quiet
  /\ UNCHANGED <<now, lk, loc, todo, drop, from, cnt, held>>

(************************* time **********************************************)
Calm == \A i \in Insts : pc[i] \in {"idle", "dead", "off"} \/ (pc[i] \in {"cb", "ask"})
Idle == \A i \in Insts : pc[i] \in {"idle", "dead", "off"}
Wait ==
  /\ now < 900 /\ Calm /\ cnt > 0 /\ todo = <<>>
  /\ (~Idle => held < 2)
  /\ Profile = "clean" => \A i \in Insts : \A id \in Mine(i) : Alive(i) => ~(D(i, id).st = Pending /\ D(i, id).next <= now)
  /\ held' = IF Idle THEN held ELSE held + 1
  /\ LET T == now + RunEvery
         d == [op |-> "drain", from |-> from, g |-> (CASE Profile = "clean" -> 100 [] Profile = "send" -> 2000 [] OTHER -> 250), t |-> now, clean |-> Profile = "clean"] IN
     /\ IF Idle THEN Do(d) ELSE Nothing
     /\ now' = T
     /\ from' = IF Idle THEN from ELSE T
     /\ pc' = [i \in Insts |-> IF pc[i] = "idle" THEN (CASE Profile \in {"deliver", "tx"} -> "sel" [] Profile = "clean" -> "cln" [] OTHER -> "idle") ELSE pc[i]]
  /\ Say(<<"wait", RunEvery>>)
  /\ UNCHANGED <<lk, loc, todo, drop, cnt>>

Live2 == \E i \in Insts : Alive(i)
MCNext ==
  /\ bad = ""
  /\ IF todo # <<>> THEN Flow
     ELSE IF \E i \in Insts : pc[i] = "new" THEN Begin
     ELSE IF Profile # "send" /\ \E i \in Insts : pc[i] = "off" THEN LET i == CHOOSE i \in Insts : pc[i] = "off" IN Starts(i)
     ELSE IF \E i \in Insts : pc[i] = "cln" THEN \E i \in Insts : CleanNow(i)
     ELSE /\ n < Depth
          /\ Live2 \/ Profile = "send"
          /\ \/ Dispatches
             \/ Profile = "send" /\ \E i \in Insts : Starts(i)
             \/ Profile = "deliver" /\ cnt > 0 /\ \E i \in Insts : Scan(i) \/ Take(i) \/ CbEnds(i, "ok") \/ CbEnds(i, "err") \/ Save(i) \/ SaveFails(i) \/ Die(i)
             \/ Profile = "tx" /\ ((cnt = 0 /\ Prepare("a1")) \/ (cnt > 0 /\ (Confirm("a1", "commit") \/ Confirm("a1", "rollback")))
                                   \/ \E i \in Insts : AskScan(i) \/ Answers(i, "commit") \/ Answers(i, "rollback") \/ Answers(i, "unknown") \/ Resolve(i) \/ ResolveFails(i) \/ Die(i))
             \/ Profile = "clean" /\ \E i \in Insts : Handled(i)
             \/ Wait
MCSpec == MCInit /\ [][MCNext]_mcvars

Fine == bad = ""
View == <<svcs, evs, dels, txs, insts, calls, [k \in DOMAIN hands |-> [hands[k] EXCEPT !.t = 0]], answers, sent, gone, now, lk, pc, [i \in Insts |-> [loc[i] EXCEPT !.h = 0]], todo, bad, n, drop, from, cnt, held>>
Emit == (todo = <<>> /\ n = Depth) => PrintT("SC " \o ToJson([profile |-> Profile, steps |-> script]))
=============================================================================
