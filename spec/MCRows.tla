------------------------------- MODULE MCRows -------------------------------
(***************************************************************************)
(* Exhaustive exploration of two executors, contexts derived from each     *)
(* other, and actions on two rows inside and outside transactions.  Every  *)
(* step is offered to Rows with all its guards; `bad` says that Rows       *)
(* refused one.  The scripts are replayed on the real executor.            *)
(***************************************************************************)
EXTENDS Rows, Json, IOUtils
Variant == IOEnv.MC_VARIANT
Depth   == CHOOSE d \in 0..60 : ToString(d) = IOEnv.MC_DEPTH

VARIABLES idb,   \* the table: key -> columns
          itx,   \* transaction -> [open, buf, own (context), by]
          look,  \* context -> key in the context -> transaction
          todo, script, bad, n, m
mcvars == <<vars, idb, itx, look, todo, script, bad, n, m>>

Execs == {"x", "y"}
Key(x) == IF Variant = "shared" THEN "k" ELSE x
C(a, b) == [tab |-> "num", name |-> a, n |-> b]
K(i) == "num/" \o i
R(i, a, b) == [k |-> K(i), c |-> C(a, b)]
J(i, a, b) == <<i, a, b>>

MCInit ==
  /\ Init
  /\ idb = Nil /\ itx = Nil /\ look = ("" :> Nil)
  /\ todo = <<>> /\ script = <<>> /\ bad = "" /\ n = 0 /\ m = 0

Do(e) == IF ENABLED Step(e) THEN Step(e) /\ bad' = bad ELSE bad' = e.op /\ UNCHANGED vars
Flow == todo # <<>> /\ Do(todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<idb, itx, look, script, n, m>>

CallEv(k, x, c, op2, cur, prev, q) == [op |-> "call", n |-> m + 1, k |-> k, x |-> x, ctx |-> c, op2 |-> op2, cur |-> cur, prev |-> prev, tab |-> "num", q |-> q]
RetEv(r, c, rows) == [op |-> "ret", n |-> m + 1, r |-> r, c |-> c, rows |-> rows]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SeqOf(S \ {e})
\* the committed change from one table to another (touched: written although the same)
DbEv(x, a, b, touched) ==
  LET gone == DOMAIN a \ DOMAIN b
      set == {k \in DOMAIN b : k \notin DOMAIN a \/ a[k] # b[k] \/ k \in touched} IN
  IF gone = {} /\ set = {} THEN <<>> ELSE <<[op |-> "db", x |-> x, n |-> IF x = "operator" THEN 0 ELSE m + 1, set |-> SeqOf({[k |-> k, c |-> b[k]] : k \in set}), gone |-> SeqOf(gone)]>>
Tx(x, c) == IF Key(x) \in DOMAIN look[c] THEN look[c][Key(x)] ELSE 0
Say(s) == script' = Append(script, s) /\ n' = n + 1 /\ m' = m + 1
Others(t) == \E u \in DOMAIN itx : u # t /\ itx[u].open /\ itx[u].buf # <<>>

Begin == \E x \in Execs, c \in DOMAIN look :
  LET nc == "c" \o ToString(Cardinality(DOMAIN look)) IN
  /\ Cardinality(DOMAIN look) < 4
  /\ itx' = Upd(itx, m + 1, [open |-> TRUE, buf |-> <<>>])
  /\ look' = Upd(look, nc, Upd(look[c], Key(x), m + 1))
  /\ todo' = <<CallEv("begin", x, c, "", <<>>, <<>>, Nil), RetEv("ok", nc, <<>>)>>
  /\ Say(<<"begin", x, c, nc>>)
  /\ UNCHANGED <<idb>>
Finish == \E x \in Execs, c \in DOMAIN look, k \in {"commit", "rollback"} :
  LET t == Tx(x, c)
      live == t # 0 /\ itx[t].open
      after == IF live /\ (k = "commit" \/ Variant = "keeps") THEN Apply(idb, itx[t].buf) ELSE idb IN
  /\ idb' = after
  /\ itx' = IF live THEN [itx EXCEPT ![t].open = FALSE] ELSE itx
  /\ todo' = <<CallEv(k, x, c, "", <<>>, <<>>, Nil)>> \o DbEv(x, idb, after, IF live /\ k = "commit" THEN Of(itx[t].buf) \cap DOMAIN after ELSE {})
             \o <<RetEv(IF t = 0 THEN (IF Variant = "lenient" THEN "ok" ELSE "notx") ELSE IF live THEN "ok" ELSE "err", "", <<>>)>>
  /\ Say(<<k, x, c>>)
  /\ UNCHANGED look

Acts == {
  [o |-> "ins", cur |-> <<J("1", 1, 1)>>, prev |-> <<>>],
  [o |-> "ins", cur |-> <<J("2", 1, 2), J("1", 2, 0)>>, prev |-> <<>>],
  [o |-> "upd", cur |-> <<J("1", 0, 1)>>, prev |-> <<J("1", 1, 1)>>],
  [o |-> "upd", cur |-> <<J("1", 1, 2)>>, prev |-> <<J("1", 1, 1)>>],
  [o |-> "upd", cur |-> <<J("1", 1, 1)>>, prev |-> <<J("1", 1, 1)>>],
  [o |-> "upd", cur |-> <<J("1", 2, 0), J("2", 2, 2)>>, prev |-> <<J("1", 2, 1), J("2", 1, 2)>>],
  [o |-> "upd", cur |-> <<J("1", 2, 2)>>, prev |-> <<>>],
  [o |-> "del", cur |-> <<J("1", 0, 0)>>, prev |-> <<>>],
  [o |-> "del", cur |-> <<J("1", 0, 0), J("2", 0, 0)>>, prev |-> <<>>],
  [o |-> "qry", cur |-> <<>>, prev |-> <<>>]}
Rows2(s) == [i \in DOMAIN s |-> R(s[i][1], s[i][2], s[i][3])]
Q == [n |-> 1]
BadMeaning(e) ==
  CASE Variant = "full" /\ e.op2 = "upd" -> [i \in DOMAIN e.cur |-> [k |-> e.cur[i].k, op |-> "set", c |-> e.cur[i].c]]
    [] Variant = "zero" /\ e.op2 = "upd" /\ e.prev # <<>> ->
         Flat([i \in DOMAIN e.cur |-> LET D == {col \in DOMAIN e.cur[i].c \ {"tab"} : e.cur[i].c[col] # 0 /\ e.cur[i].c[col] # e.prev[i].c[col]} IN
                                      IF D = {} THEN <<>> ELSE <<[k |-> e.cur[i].k, op |-> "set", c |-> [col \in D |-> e.cur[i].c[col]]]>>])
    [] Variant = "first" /\ e.op2 = "del" -> SubSeq(Meaning(e), 1, 1)
    [] OTHER -> Meaning(e)
Act == \E x \in Execs, c \in DOMAIN look, a \in Acts :
  LET t == IF Variant = "outside" THEN 0 ELSE Tx(x, c)
      live == t # 0 /\ itx[t].open
      e == CallEv("exec", x, c, a.o, Rows2(a.cur), Rows2(a.prev), IF a.o = "qry" THEN Q ELSE Nil)
      eff == BadMeaning(e)
      writes == eff # <<>> \/ (Variant = "touch" /\ a.o = "upd")
      view == IF live THEN Apply(idb, itx[t].buf) ELSE idb
      dup == a.o = "ins" /\ Dup(view, eff)
      ended == t # 0 /\ ~live /\ (a.o # "upd" \/ eff # <<>>)
      found == {k \in DOMAIN view : view[k].n = 1}
      after == IF t = 0 /\ ~dup THEN Apply(idb, eff) ELSE idb IN
  /\ ~(writes /\ Others(t))                \* the other transaction is waited for
  /\ ~(dup /\ live)                        \* then the command is given up
  /\ idb' = after
  /\ itx' = IF live /\ ~dup THEN [itx EXCEPT ![t].buf = @ \o eff] ELSE itx
  /\ todo' = <<e>> \o (IF t = 0 /\ ~dup THEN DbEv(x, idb, after, (IF Variant = "touch" THEN {K("1")} ELSE Of(eff)) \cap DOMAIN after) ELSE <<>>)
             \o <<RetEv(IF dup \/ ended THEN "err" ELSE "ok", "", IF a.o = "qry" /\ ~ended THEN SeqOf({[k |-> k, c |-> view[k]] : k \in found}) ELSE <<>>)>>
  /\ Say(IF a.o = "qry" THEN <<"exec", x, c, "qry", "num", Q>> ELSE IF a.prev = <<>> THEN <<"exec", x, c, a.o, "num", a.cur>> ELSE <<"exec", x, c, a.o, "num", a.cur, a.prev>>)
  /\ UNCHANGED look
Outsider ==
  /\ ~Others(0) /\ K("1") \in DOMAIN idb
  /\ LET after == [idb EXCEPT ![K("1")].n = 0] IN idb' = after /\ todo' = DbEv("operator", idb, after, {})
  /\ script' = Append(script, <<"sys", "num", "1", [n |-> 0]>>) /\ n' = n + 1 /\ m' = m
  /\ UNCHANGED <<itx, look>>

MCNext ==
  /\ bad = ""
  /\ IF todo # <<>> THEN Flow
     ELSE n < Depth /\ (Begin \/ Finish \/ Act \/ Outsider) /\ UNCHANGED <<vars, bad>>
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<store, ctxs, txs, calls, idb, itx, look, todo, bad, n>>
Fine == bad = ""
Emit == (todo = <<>> /\ n = Depth) => PrintT("SC " \o ToJson([steps |-> script]))
=============================================================================
