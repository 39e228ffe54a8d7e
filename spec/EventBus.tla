----------------------------- MODULE EventBus -----------------------------
(***************************************************************************)
(* The persisted event bus: events, one delivery of each event per         *)
(* service, prepared transactional messages, consumer instances that       *)
(* handle deliveries, ask about overdue messages and clean up.             *)
(*                                                                         *)
(* A step is one committed change of the database (attributed to the       *)
(* process that made it), the beginning or end of an API call, of a        *)
(* handler call or of a question to the checker, a process death, an       *)
(* injected fault, or the end of an undisturbed period ("drain").          *)
(* Guards Must(P, ..) state what a step has to satisfy for properties P.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Check, Loud
On(P) == P \cap Check # {}
Must(P, name, cond) == IF On(P) THEN (IF cond THEN TRUE ELSE Loud /\ PrintT(<<"GUARD", name>>) /\ FALSE) ELSE TRUE

VARIABLES
  cfg,     \* service -> its configuration
  svcs,    \* registered services
  evs,     \* stored events: row id -> [n, snd, st, c]
  dels,    \* deliveries: <<service, row id>> -> [st, rc, next, at, born]
  txs,     \* prepared messages: row id -> [svc, ns, due]
  insts,   \* live processes -> their service ("" = not consuming)
  calls,   \* open API calls: <<process, call>> -> [k, evs, ns, t, svcs, amb, done]
  hands,   \* handler calls whose outcome is not recorded yet: <<process, h>> -> [svc, n, t, r, te, m, x (its transaction may have failed)]
  answers, \* <<process, event name>> -> [r: answer of the checker ("open": still being asked), t: when]
  said,    \* event name -> [st, c, snd] of everything ever handed to the bus
  sent,    \* names of events ever stored
  gone     \* first names of withdrawn messages
vars == <<cfg, svcs, evs, dels, txs, insts, calls, hands, answers, said, sent, gone>>

Nil == [x \in {} |-> x]
Upd(f, k, v) == (k :> v) @@ f
Less(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Pending == 0
Success == 10
Failed  == 21
Expired == 31

Init ==
  /\ cfg = Nil /\ svcs = {} /\ evs = Nil /\ dels = Nil /\ txs = Nil /\ insts = Nil
  /\ calls = Nil /\ hands = Nil /\ answers = Nil /\ said = Nil /\ sent = {} /\ gone = {}

SvcOf(i) == IF i \in DOMAIN insts THEN insts[i].svc ELSE ""
RowsOf(n) == {id \in DOMAIN evs : evs[id].n = n}

(***************************** retry strategies ****************************)
\* does the strategy allow another try after rc tries were already granted?
Again(c, rc) ==
  CASE c.k = "int" -> rc <= c.limit
    [] c.k = "cus" -> rc < Len(c.list)
    [] c.k = "own" -> rc < c.limit
Interval(c, rc) ==
  CASE c.k = "int" -> c.ms
    [] c.k = "cus" -> c.list[rc + 1]
    [] c.k = "own" -> (rc + 1) * c.ms

(***************************** order of events *****************************)
\* the last event of the same sender sent before event id
Pred(id) ==
  LET e == evs[id]
      S == {x \in DOMAIN evs : x < id /\ evs[x].snd = e.snd /\ evs[x].c <= e.c}
  IN IF S = {} THEN 0
     ELSE CHOOSE x \in S : \A y \in S : evs[y].c < evs[x].c \/ (evs[y].c = evs[x].c /\ y <= x)
Ready(svc, id) ==      \* may be handled as far as order is concerned
  LET p == Pred(id) IN
  \/ evs[id].st \notin {"fifo", "lax"}
  \/ p = 0
  \/ <<svc, p>> \notin DOMAIN dels
  \/ evs[id].st = "fifo" /\ dels[<<svc, p>>].st \in {Success, Expired}
  \/ evs[id].st = "lax"  /\ dels[<<svc, p>>].st # Pending

(******************************* simple steps ******************************)
Cfg(e) ==
  /\ cfg' = [n \in {e.svcs[j].n : j \in 1..Len(e.svcs)} |-> LET j == CHOOSE j \in 1..Len(e.svcs) : e.svcs[j].n = n IN e.svcs[j]]
  /\ UNCHANGED <<svcs, evs, dels, txs, insts, calls, hands, answers, said, sent, gone>>
Up(e) ==
  /\ insts' = Upd(insts, e.i, [svc |-> e.svc, on |-> e.start])
  /\ UNCHANGED <<cfg, svcs, evs, dels, txs, calls, hands, answers, said, sent, gone>>
Crash(e) ==
  /\ insts' = Less(insts, {e.i})
  /\ calls' = [k \in {k \in DOMAIN calls : k[1] # e.i} |-> calls[k]]
  /\ hands' = [k \in {k \in DOMAIN hands : k[1] # e.i} |-> hands[k]]
  /\ answers' = [k \in {k \in DOMAIN answers : k[1] # e.i} |-> answers[k]]
  /\ UNCHANGED <<cfg, svcs, evs, dels, txs, said, sent, gone>>
Fault(e) ==            \* a commit that takes effect although it reports an error
  /\ calls' = [k \in DOMAIN calls |-> IF k[1] = e.i /\ e.k = "errafter" THEN [calls[k] EXCEPT !.amb = TRUE] ELSE calls[k]]
  /\ hands' = [k \in DOMAIN hands |-> IF k[1] = e.i /\ e.k # "stall" THEN [hands[k] EXCEPT !.x = TRUE] ELSE hands[k]]
  /\ UNCHANGED <<cfg, svcs, evs, dels, txs, insts, answers, said, sent, gone>>

Call(e) ==
  /\ calls' = Upd(calls, <<e.i, e.c>>, [k |-> e.k, evs |-> e.evs, ns |-> e.ns, t |-> e.t, svcs |-> svcs, amb |-> FALSE, done |-> FALSE])
  /\ said' = [n \in {e.evs[j].n : j \in 1..Len(e.evs)} |->
                LET j == CHOOSE j \in 1..Len(e.evs) : e.evs[j].n = n IN [st |-> e.evs[j].st, c |-> e.evs[j].c, snd |-> e.evs[j].snd]] @@ said
  /\ UNCHANGED <<cfg, svcs, evs, dels, txs, insts, hands, answers, sent, gone>>

Ret(e) ==
  LET k == <<e.i, e.c>>
      c == calls[k] IN
  /\ k \in DOMAIN calls
  /\ CASE c.k = "disp" ->
            /\ Must({"P20"}, "success reported but not everything stored", e.ok => c.done)
            /\ Must({"P20"}, "failure reported but something stored", ~e.ok => ~c.done \/ c.amb)
       [] c.k = "begin" ->
            /\ Must({"P25"}, "prepared message reported but not stored", e.ok => c.done)
            /\ Must({"P25"}, "failure reported but the message is prepared", ~e.ok => ~c.done \/ c.amb)
       [] c.k = "commit" ->
            Must({"P25"}, "confirmed but not stored", e.ok => RangeOf(c.ns) \subseteq sent)
       [] c.k = "rollback" ->
            Must({"P25"}, "withdrawn but still prepared", e.ok => \A x \in DOMAIN txs : txs[x].ns # c.ns)
       [] OTHER -> TRUE
  /\ calls' = Less(calls, {k})
  /\ UNCHANGED <<cfg, svcs, evs, dels, txs, insts, hands, answers, said, sent, gone>>

(***************************** handling a delivery *************************)
HandleStart(e) ==
  LET svc == SvcOf(e.i)
      ids == {id \in RowsOf(e.n) : <<svc, id>> \in DOMAIN dels}
      id  == CHOOSE id \in ids : TRUE
      d   == dels[<<svc, id>>]
  IN
  /\ Must({"P21"}, "event not as it was sent", e.same)
  /\ Must({"P20", "P21", "P25"}, "no such delivery", ids # {})
  /\ Must({"P22"}, "handled again after success", ids # {} => \E x \in ids : dels[<<svc, x>>].st # Success)
  /\ Must({"P21", "P23"}, "handled again after it was finally settled", ids # {} => \E x \in ids : dels[<<svc, x>>].st = Pending)
  /\ Must({"P22"}, "handled twice at the same time",
          \A k \in DOMAIN hands : ~(hands[k].svc = svc /\ hands[k].n = e.n /\ (hands[k].r = "" \/ ~hands[k].x)))
  /\ Must({"P23"}, "tried again too early", ids # {} => e.t >= d.next)
  /\ Must({"P24"}, "handled before its predecessor is settled", ids # {} => Ready(svc, id))
  /\ hands' = Upd([k \in {k \in DOMAIN hands : ~(k[1] = e.i /\ hands[k].svc = svc /\ hands[k].n = e.n /\ hands[k].r # "")} |-> hands[k]],
                  <<e.i, e.h>>, [svc |-> svc, n |-> e.n, t |-> e.t, r |-> "", te |-> 0, m |-> 0, x |-> FALSE])
  /\ UNCHANGED <<cfg, svcs, evs, dels, txs, insts, calls, answers, said, sent, gone>>

HandleEnd(e) ==
  LET k == <<e.i, e.h>> IN
  /\ k \in DOMAIN hands
  /\ hands' = [hands EXCEPT ![k].r = e.r, ![k].te = e.t, ![k].m = e.m]
  /\ UNCHANGED <<cfg, svcs, evs, dels, txs, insts, calls, answers, said, sent, gone>>

Ask(e) ==
  LET xs == {x \in DOMAIN txs : txs[x].ns[1] = e.n} IN
  /\ Must({"P25"}, "asked about the wrong message", e.same)
  /\ Must({"P25"}, "asked although the message is resolved", xs # {})
  /\ Must({"P25"}, "asked before the timeout", \A x \in xs : txs[x].due <= e.t)
  /\ Must({"P25"}, "asked by a foreign service", \A x \in xs : txs[x].svc = SvcOf(e.i))
  /\ answers' = Upd(answers, <<e.i, e.n>>, [r |-> "open", t |-> e.t])
  /\ UNCHANGED <<cfg, svcs, evs, dels, txs, insts, calls, hands, said, sent, gone>>
Answer(e) ==
  /\ answers' = Upd(answers, <<e.i, e.n>>, [r |-> e.r, t |-> e.t])
  /\ UNCHANGED <<cfg, svcs, evs, dels, txs, insts, calls, hands, said, sent, gone>>

(*************************** database changes ******************************)
\* everything below describes one committed transaction of process i
Names(e) == {e.evAdd[j].n : j \in 1..Len(e.evAdd)}
NewIds(e) == {e.evAdd[j].id : j \in 1..Len(e.evAdd)}
NewDels(e) == {<<e.dAdd[j].svc, e.dAdd[j].ev>> : j \in 1..Len(e.dAdd)}
CallNames(k) == RangeOf(calls[k].ns)
\* direct sends / prepared messages whose events this transaction stores
Sends(e) == {k \in DOMAIN calls : k[1] = e.i /\ calls[k].k = "disp" /\ ~calls[k].done /\ CallNames(k) \cap Names(e) # {}}
TxOf(e)  == {x \in DOMAIN txs : RangeOf(txs[x].ns) \cap Names(e) # {}}
Confirmed(i, x) ==
  \/ \E k \in DOMAIN calls : k[1] = i /\ calls[k].k = "commit" /\ calls[k].ns = txs[x].ns
  \/ (<<i, txs[x].ns[1]>> \in DOMAIN answers /\ answers[<<i, txs[x].ns[1]>>].r = "commit")
Withdrawn(i, x) ==
  \/ \E k \in DOMAIN calls : k[1] = i /\ calls[k].k = "rollback" /\ calls[k].ns = txs[x].ns
  \/ (<<i, txs[x].ns[1]>> \in DOMAIN answers /\ answers[<<i, txs[x].ns[1]>>].r = "rollback")

StoreOK(e) ==
  LET S == Sends(e)
      X == TxOf(e)
      whole == UNION {CallNames(k) : k \in S} \cup UNION {RangeOf(txs[x].ns) : x \in X}
      K == S \cup {k \in DOMAIN calls : k[1] = e.i /\ calls[k].k = "commit" /\ \E x \in X : calls[k].ns = txs[x].ns}
      due == svcs \cap (IF K = {} THEN svcs ELSE UNION {calls[k].svcs : k \in K})
      now == svcs \cup RangeOf(e.svcAdd)
      stray == {n \in Names(e) : n \in DOMAIN said} \ whole
  IN
  /\ Must({"P20"}, "an event is stored that nobody sends", Names(e) \subseteq whole)
  /\ Must({"P25"}, "a message is stored that is not prepared any more or was never prepared", Names(e) \subseteq whole)
  /\ Must({"P20", "P25"}, "an event is stored twice",
          Names(e) \cap sent = {} /\ Cardinality(Names(e)) = Len(e.evAdd))
  /\ Must({"P20"}, "only some of the events are stored", whole = Names(e))
  /\ Must({"P25"}, "only some events of a message are stored", \A x \in X : RangeOf(txs[x].ns) \subseteq Names(e))
  /\ Must({"P25"}, "a message is stored without having been confirmed", \A x \in X : Confirmed(e.i, x))
  /\ Must({"P25"}, "a withdrawn message is stored", Names(e) \cap gone = {})
  /\ Must({"P20"}, "a delivery without its event", \A p \in NewDels(e) : p[2] \in NewIds(e))
  /\ Must({"P20", "P25"}, "an event without its deliveries",
          \A id \in NewIds(e) : LET g == {p[1] : p \in {q \in NewDels(e) : q[2] = id}} IN due \subseteq g /\ g \subseteq now)
  /\ Must({"P20"}, "a delivery that is not immediately due",
          \A j \in 1..Len(e.dAdd) : e.dAdd[j].st = Pending /\ e.dAdd[j].rc = 0 /\ e.dAdd[j].next <= e.t)
  /\ Must({"P20"}, "a delivery without the event's creation time",
          \A j \in 1..Len(e.dAdd) : \A k \in 1..Len(e.evAdd) : e.evAdd[k].id = e.dAdd[j].ev => e.dAdd[j].c = e.evAdd[k].c)
  /\ Must({"P20", "P21"}, "an event is stored differently from what was sent",
          \A j \in 1..Len(e.evAdd) : LET v == e.evAdd[j] IN v.n \in DOMAIN said /\ said[v.n].c = v.c /\ said[v.n].snd = v.snd)

PrepareOK(e) ==
  \A j \in 1..Len(e.xAdd) : LET x == e.xAdd[j]
                                K == {k \in DOMAIN calls : k[1] = e.i /\ calls[k].k = "begin" /\ calls[k].ns = x.ns} IN
    /\ Must({"P25"}, "a message is prepared that nobody sends", K # {})
    /\ Must({"P25"}, "a message is prepared for a foreign service", x.svc = SvcOf(e.i))
    /\ Must({"P25"}, "wrong timeout", \A k \in K : x.due >= calls[k].t + cfg[x.svc].tx /\ x.due <= e.t + cfg[x.svc].tx)

ResolveOK(e) ==
  \A j \in 1..Len(e.xDel) : LET x == e.xDel[j].x IN
    Must({"P25"}, "a prepared message is lost",
         IF RangeOf(txs[x].ns) \subseteq (sent \cup Names(e)) THEN TRUE ELSE Withdrawn(e.i, x))

\* the handler call an update records
Outcome(e, u) == {k \in DOMAIN hands : k[1] = e.i /\ hands[k].svc = u.svc /\ hands[k].n = evs[u.ev].n /\ hands[k].r # ""}
UpdateOK(e, u) ==
  LET d == dels[<<u.svc, u.ev>>]
      c == cfg[u.svc]
      ks == Outcome(e, u)
      k == CHOOSE k \in ks : TRUE
      h == hands[k]
      same == u.st = d.st /\ u.rc = d.rc /\ u.next = d.next
  IN
  IF u.ev \notin DOMAIN evs THEN TRUE
  ELSE IF e.i = "operator" THEN TRUE
  ELSE
  /\ Must({"P22"}, "a recorded success is overwritten", d.st # Success)
  /\ Must({"P21", "P23"}, "a settled delivery is changed", d.st = Pending)
  /\ Must({"P21", "P22"}, "changed by a foreign service", u.svc = SvcOf(e.i))
  /\ IF ks = {}
     THEN Must({"P21", "P22", "P23"}, "a delivery is changed although it was not handled",
               same /\ evs[u.ev].st \in {"fifo", "lax"})
     ELSE IF h.r = "ok"
     THEN Must({"P21", "P22", "P23"}, "a success is not recorded as such", u.st = Success)
     ELSE
       /\ Must({"P21"}, "a failed handling is recorded as success", u.st # Success)
       /\ Must({"P23"}, "failure message is not that of the last attempt", u.m = h.m)
       /\ IF Again(c, d.rc)
          THEN /\ Must({"P23"}, "given up too early", u.st = Pending)
               /\ Must({"P23"}, "wrong retry count", u.rc = d.rc + 1)
               /\ Must({"P23"}, "wrong time of the next try",
                       u.next >= h.te + Interval(c, d.rc) /\ u.next <= e.t + Interval(c, d.rc))
          ELSE Must({"P23"}, "not given up after the last allowed try", u.st = Failed)

CleanOK(e) ==
  LET gonep == {<<e.dDel[j].svc, e.dDel[j].ev>> : j \in 1..Len(e.dDel)}
      goneev == {e.evDel[j].id : j \in 1..Len(e.evDel)} IN
  /\ Must({"P21", "P26"}, "a delivery is removed that has not succeeded", \A p \in gonep : dels[p].st = Success)
  /\ Must({"P26"}, "a delivery of a foreign service is removed", \A p \in gonep : p[1] = SvcOf(e.i))
  /\ Must({"P26"}, "a delivery is removed too early",
          \A p \in gonep : p[2] \in DOMAIN evs => evs[p[2]].c + cfg[p[1]].retain < e.t)
  /\ Must({"P21", "P26"}, "an event is removed that some service still needs",
          \A id \in goneev : \A p \in DOMAIN dels : p[2] = id => p \in gonep)

DB(e) ==
  LET upd == {<<e.dUpd[j].svc, e.dUpd[j].ev>> : j \in 1..Len(e.dUpd)}
      U(p) == LET j == CHOOSE j \in 1..Len(e.dUpd) : <<e.dUpd[j].svc, e.dUpd[j].ev>> = p IN e.dUpd[j]
      A(p) == LET j == CHOOSE j \in 1..Len(e.dAdd) : <<e.dAdd[j].svc, e.dAdd[j].ev>> = p IN e.dAdd[j]
      V(id) == LET j == CHOOSE j \in 1..Len(e.evAdd) : e.evAdd[j].id = id IN e.evAdd[j]
      W(x) == LET j == CHOOSE j \in 1..Len(e.xAdd) : e.xAdd[j].x = x IN e.xAdd[j]
      xadd == {e.xAdd[j].x : j \in 1..Len(e.xAdd)}
      xdel == {e.xDel[j].x : j \in 1..Len(e.xDel)}
      ddel == {<<e.dDel[j].svc, e.dDel[j].ev>> : j \in 1..Len(e.dDel)}
      vdel == {e.evDel[j].id : j \in 1..Len(e.evDel)}
      conf == {x \in xdel \cap DOMAIN txs : RangeOf(txs[x].ns) \subseteq (sent \cup Names(e))}
      used == UNION {Outcome(e, e.dUpd[j]) : j \in {j \in 1..Len(e.dUpd) : e.dUpd[j].ev \in DOMAIN evs}}
  IN
  /\ (e.evAdd # <<>> \/ e.dAdd # <<>>) => StoreOK(e)
  /\ PrepareOK(e)
  /\ ResolveOK(e)
  /\ Must({"P25"}, "a prepared message is changed", e.xUpd = <<>>)
  /\ Must({"P20", "P21"}, "a stored event is changed", e.evUpd = <<>>)
  /\ \A j \in 1..Len(e.dUpd) : UpdateOK(e, e.dUpd[j])
  /\ (e.dDel # <<>> \/ e.evDel # <<>>) => CleanOK(e)
  /\ svcs' = svcs \cup RangeOf(e.svcAdd)
  /\ evs' = [id \in (DOMAIN evs \cup NewIds(e)) \ vdel |->
               IF id \in NewIds(e) THEN [n |-> V(id).n, snd |-> V(id).snd, c |-> V(id).c,
                                         st |-> IF V(id).n \in DOMAIN said THEN said[V(id).n].st ELSE "n"]
               ELSE evs[id]]
  /\ dels' = [p \in (DOMAIN dels \cup NewDels(e)) \ ddel |->
               IF p \in upd THEN [st |-> U(p).st, rc |-> U(p).rc, next |-> U(p).next, at |-> e.t, born |-> dels[p].born]
               ELSE IF p \in NewDels(e) THEN [st |-> A(p).st, rc |-> A(p).rc, next |-> A(p).next, at |-> e.t, born |-> e.t]
               ELSE dels[p]]
  /\ txs' = [x \in (DOMAIN txs \cup xadd) \ xdel |-> IF x \in xadd THEN [svc |-> W(x).svc, ns |-> W(x).ns, due |-> W(x).due] ELSE txs[x]]
  /\ calls' = [k \in DOMAIN calls |->
                IF \/ k[1] = e.i /\ calls[k].k = "disp" /\ CallNames(k) \cap Names(e) # {}
                   \/ k[1] = e.i /\ calls[k].k = "begin" /\ \E x \in xadd : W(x).ns = calls[k].ns
                THEN [calls[k] EXCEPT !.done = TRUE] ELSE calls[k]]
  /\ hands' = Less(hands, used)
  /\ sent' = sent \cup Names(e)
  /\ gone' = gone \cup UNION {RangeOf(txs[x].ns) : x \in (xdel \cap DOMAIN txs) \ conf}
  /\ UNCHANGED <<cfg, insts, answers, said>>

(***************************** undisturbed periods *************************)
\* since e.from nothing failed; what was due for longer than e.g must be done
Live(svc) == \E i \in DOMAIN insts : insts[i].svc = svc /\ insts[i].on
Overdue(e, p) ==
  LET d == dels[p]
      q == Pred(p[2])
      pt == IF evs[p[2]].st \in {"fifo", "lax"} /\ q # 0 /\ <<p[1], q>> \in DOMAIN dels THEN dels[<<p[1], q>>].at ELSE 0
      since == MaxOf({d.next, d.born, pt, e.from})
  IN d.st = Pending /\ Live(p[1]) /\ (\A k \in DOMAIN hands : ~(hands[k].svc = p[1] /\ hands[k].n = evs[p[2]].n /\ hands[k].r = "")) /\ Ready(p[1], p[2]) /\ since + e.g <= e.t
\* a message that is being asked about, or was lately answered with "unknown", is not overdue
Unasked(e, x) == \A k \in DOMAIN answers : k[2] = txs[x].ns[1] =>
                    ~(answers[k].r = "open" \/ (answers[k].r = "unknown" /\ answers[k].t + e.g > e.t))
Drain(e) ==
  /\ Must({"P21", "P23", "P24"}, "a due delivery is not handled",
          \A p \in DOMAIN dels : p[2] \in DOMAIN evs => ~Overdue(e, p))
  /\ Must({"P21"}, "a delivery without its event is stuck", \A p \in DOMAIN dels : p[2] \in DOMAIN evs)
  /\ Must({"P25"}, "an overdue message is not asked about",
          \A x \in DOMAIN txs : ~(Live(txs[x].svc) /\ MaxOf({txs[x].due, e.from}) + e.g <= e.t /\ Unasked(e, x)))
  /\ Must({"P26"}, "something removable is not removed",
          e.clean => /\ \A p \in DOMAIN dels : p[2] \in DOMAIN evs =>
                          ~(dels[p].st = Success /\ Live(p[1]) /\ MaxOf({evs[p[2]].c + cfg[p[1]].retain, dels[p].at, e.from}) + e.g <= e.t)
                     /\ \A id \in DOMAIN evs : (\E p \in DOMAIN dels : p[2] = id) \/ svcs = {})
  /\ UNCHANGED vars

Step(e) ==
  CASE e.op = "cfg"   -> Cfg(e)
    [] e.op = "up"    -> Up(e)
    [] e.op = "crash" -> Crash(e)
    [] e.op = "fault" -> Fault(e)
    [] e.op = "call"  -> Call(e)
    [] e.op = "ret"   -> Ret(e)
    [] e.op = "hs"    -> HandleStart(e)
    [] e.op = "he"    -> HandleEnd(e)
    [] e.op = "ask"   -> Ask(e)
    [] e.op = "ans"   -> Answer(e)
    [] e.op = "db"    -> DB(e)
    [] e.op = "drain" -> Drain(e)
=============================================================================
