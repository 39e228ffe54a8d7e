-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* The SQL executor: actions of commands become rows, inside or outside    *)
(* transactions that travel with contexts.                                 *)
(*                                                                         *)
(* A step is the beginning or end of a call (begin, commit, rollback,      *)
(* exec), one committed change of the database attributed to the executor  *)
(* (and call, if known) that made it, or an injected database error.  Values of columns are     *)
(* small numbers; rows are identified by "table/key".                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Check, Loud
On(P) == P \cap Check # {}
Must(P, name, cond) == IF On(P) THEN (IF cond THEN TRUE ELSE Loud /\ PrintT(<<"GUARD", name>>) /\ FALSE) ELSE TRUE

VARIABLES
  store,  \* key -> columns, as committed
  ctxs,   \* context -> executor -> transaction
  txs,    \* transaction -> [open, eff, idle (an update in it changed nothing)]
  calls   \* call in progress -> [k, x, ctx, op, ..., eff, left (effects not yet seen), seen (rows as visible to it), err, must, done]
vars == <<store, ctxs, txs, calls>>
Nil == [x \in {} |-> x]
Upd(f, k, v) == (k :> v) @@ f
Less(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Ran(s) == {s[i] : i \in DOMAIN s}

Init == store = Nil /\ ctxs = ("" :> Nil) /\ txs = Nil /\ calls = Nil

(******************************* effects ***********************************)
\* an effect: [k, op (put, set, del), c]
Apply1(s, e) ==
  CASE e.op = "put" -> Upd(s, e.k, e.c)
    [] e.op = "set" -> IF e.k \in DOMAIN s THEN [s EXCEPT ![e.k] = e.c @@ @] ELSE s
    [] e.op = "del" -> Less(s, {e.k})
RECURSIVE Apply(_, _)
Apply(s, es) == IF es = <<>> THEN s ELSE Apply(Apply1(s, es[1]), Tail(es))
Of(es) == {es[i].k : i \in DOMAIN es}

\* what an action means
Changed(cur, prev) == {col \in DOMAIN cur : cur[col] # prev[col]}
UpdEff(cur, prev) == LET D == Changed(cur.c, prev.c) IN IF D = {} THEN <<>> ELSE <<[k |-> cur.k, op |-> "set", c |-> [col \in D |-> cur.c[col]]]>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Meaning(e) ==
  CASE e.op2 = "ins" -> [i \in DOMAIN e.cur |-> [k |-> e.cur[i].k, op |-> "put", c |-> e.cur[i].c]]
    [] e.op2 = "upd" -> Flat([i \in DOMAIN e.cur |-> IF i <= Len(e.prev) THEN UpdEff(e.cur[i], e.prev[i]) ELSE <<[k |-> e.cur[i].k, op |-> "put", c |-> e.cur[i].c]>>])
    [] e.op2 = "del" -> [i \in DOMAIN e.cur |-> [k |-> e.cur[i].k, op |-> "del", c |-> Nil]]
    [] OTHER -> <<>>
Twice(es) == \E i, j \in DOMAIN es : i < j /\ es[i].k = es[j].k
Dup(s, es) == Twice(es) \/ \E k \in Of(es) : k \in DOMAIN s

TxOf(c, x) == IF c \in DOMAIN ctxs /\ x \in DOMAIN ctxs[c] THEN ctxs[c][x] ELSE 0
View(t) == IF t = 0 THEN store ELSE Apply(store, txs[t].eff)
Alive(t) == t # 0 /\ txs[t].open

(******************************** calls ************************************)
Call(e) ==
  LET t == TxOf(e.ctx, e.x)
      eff == IF e.k = "exec" THEN Meaning(e) ELSE IF e.k = "commit" /\ Alive(t) THEN txs[t].eff ELSE <<>> IN
  /\ calls' = Upd(calls, e.n, [k |-> e.k, x |-> e.x, ctx |-> e.ctx, t |-> t, live |-> Alive(t), op |-> e.op2, tab |-> e.tab, q |-> e.q, eff |-> eff,
                               left |-> IF e.k = "commit" \/ (e.k = "exec" /\ t = 0) THEN eff ELSE <<>>, seen |-> {IF e.k = "commit" THEN store ELSE View(t)}, base |-> store, err |-> FALSE, must |-> FALSE, done |-> FALSE, idle |-> e.k = "commit" /\ t # 0 /\ txs[t].idle])
  /\ txs' = IF e.k \in {"commit", "rollback"} /\ t # 0 THEN [txs EXCEPT ![t].open = FALSE] ELSE txs
  /\ UNCHANGED <<store, ctxs>>

Found(c, e, view) ==
  LET in == {k \in DOMAIN view : view[k].tab = c.tab /\ \A col \in DOMAIN c.q : view[k][col] = c.q[col]} IN
  /\ Len(e.rows) = Cardinality(in)
  /\ {r.k : r \in Ran(e.rows)} = in
  /\ \A r \in Ran(e.rows) : r.k \in DOMAIN view /\ \A col \in DOMAIN r.c : view[r.k][col] = r.c[col]

Kind(c, k) == IF \E i \in DOMAIN c.eff : c.eff[i].k = k THEN (CHOOSE f \in {c.eff[i] : i \in DOMAIN c.eff} : f.k = k).op ELSE ""
\* what was to be stored has been, or made no difference
Stored(c, when, es, why) ==
  LET odd(st) == LET want == Apply(st, es) IN {k \in DOMAIN want \cup DOMAIN st : ~(k \in DOMAIN want /\ k \in DOMAIN st /\ want[k] = st[k])}
      lost == IF ~when \/ es = <<>> THEN {}
              ELSE IF c.k = "commit" THEN IF \E st \in c.seen : odd(st) = {} THEN {} ELSE odd(store)
              ELSE {e.k : e \in {e \in Ran(es) : \A st \in c.seen : Apply1(st, e) # st}} IN
  /\ Must({"P16"}, "a changed column is not stored", \A k \in lost : Kind(c, k) # "set")
  /\ Must({"P17"}, why, \A k \in lost : Kind(c, k) = "set")

Ret(e) ==
  LET c == calls[e.n]
      t == c.t
      nw == View(t)
      ok == e.r = "ok" IN
  /\ e.n \in DOMAIN calls
  /\ Must({"P17"}, "a database error is not reported", c.must => ~ok)
  /\ CASE c.k = "begin" ->
            /\ Must({"P17"}, "beginning fails although nothing failed", ~ok => c.err)
            /\ ctxs' = IF ok THEN Upd(ctxs, e.c, Upd(ctxs[c.ctx], c.x, e.n)) ELSE ctxs
            /\ txs' = IF ok THEN Upd(txs, e.n, [open |-> TRUE, eff |-> <<>>, idle |-> FALSE]) ELSE txs
       [] c.k = "commit" ->
            /\ Must({"P17"}, "a commit without an open transaction is accepted", ok => c.live)
            /\ Must({"P17"}, "a commit without a transaction is not refused as such", t = 0 => e.r = "notx")
            /\ Must({"P17"}, "committing fails although nothing failed", ~ok => ~c.live \/ c.err)
            /\ Stored(c, ok /\ c.live /\ ~c.done, c.eff, "committed but not stored")
            /\ UNCHANGED <<ctxs, txs>>
       [] c.k = "rollback" ->
            /\ Must({"P17"}, "a rollback without an open transaction is accepted", ok => c.live)
            /\ Must({"P17"}, "a rollback without a transaction is not refused as such", t = 0 => e.r = "notx")
            /\ Must({"P17"}, "rolling back fails although nothing failed", ~ok => ~c.live \/ c.err)
            /\ UNCHANGED <<ctxs, txs>>
       [] c.k = "exec" ->
            /\ Must({"P17"}, "an operation succeeds after its transaction ended", ok /\ t # 0 /\ (c.op # "upd" \/ c.eff # <<>>) => c.live)
            /\ Must({"P17"}, "an existing key is inserted", ok /\ c.op = "ins" /\ t # 0 => ~Dup(nw, c.eff))
            /\ Must({"P17"}, "an operation fails although nothing failed", ~ok => c.err \/ (t # 0 /\ ~c.live) \/ (c.op = "ins" /\ \E v \in c.seen : Dup(v, c.eff)))
            /\ Stored(c, ok /\ t = 0, c.left, "reported as done but not stored")
            /\ Must({"P17"}, "not exactly the matching rows are found", ok /\ c.op = "qry" => \E v \in c.seen : Found(c, e, v))
            /\ txs' = IF ok /\ Alive(t) THEN [txs EXCEPT ![t].eff = @ \o c.eff, ![t].idle = @ \/ (c.op = "upd" /\ c.eff = <<>>)] ELSE txs
            /\ UNCHANGED ctxs
  /\ calls' = Less(calls, {e.n})
  /\ UNCHANGED store

(*************************** committed changes *****************************)
New(e) == LET gone == {e.gone[i] : i \in DOMAIN e.gone}
              set == {e.set[i] : i \in DOMAIN e.set} IN
  [k \in (DOMAIN store \cup {r.k : r \in set}) \ gone |-> IF \E r \in set : r.k = k THEN (CHOOSE r \in set : r.k = k).c ELSE store[k]]
Touched(e) == {e.gone[i] : i \in DOMAIN e.gone} \cup {e.set[i].k : i \in DOMAIN e.set}
\* the effects a call may bring about at once: all of them, or (outside a transaction) some of the first
Portions(c) == IF c.k = "commit" THEN {c.left} ELSE {SubSeq(c.left, i, j) : i \in 1..Len(c.left), j \in 1..Len(c.left)} \ {<<>>}
Explains(c, es, e) == /\ Apply(store, es) = New(e)
                      /\ Touched(e) \subseteq Of(es)
                      /\ c.op = "ins" => ~Dup(store, es)
Rest(c, es) == SelectSeq(c.left, LAMBDA x : \A i \in DOMAIN es : es[i] # x)
\* calls in progress see the rows before or after
Shown(cs, st) == [n \in DOMAIN cs |-> IF cs[n].k \in {"exec", "commit"} THEN [cs[n] EXCEPT !.seen = @ \cup {IF cs[n].t = 0 \/ cs[n].k = "commit" THEN st ELSE Apply(st, txs[cs[n].t].eff)}] ELSE cs[n]]
Idle(e) == \E n \in DOMAIN calls : calls[n].x = e.x /\ (e.n = 0 \/ e.n = n) /\ ((calls[n].op = "upd" /\ calls[n].eff = <<>>) \/ (calls[n].k = "commit" /\ calls[n].idle))
Db(e) ==
  IF e.x = "operator" THEN store' = New(e) /\ calls' = Shown(calls, New(e)) /\ UNCHANGED <<ctxs, txs>>
  ELSE
  LET cand == {n \in DOMAIN calls : calls[n].x = e.x /\ calls[n].left # <<>> /\ ~calls[n].done /\ (e.n = 0 \/ e.n = n)}
      fit == {n \in cand : \E es \in Portions(calls[n]) : Explains(calls[n], es, e)} IN
  /\ Must({"P16"}, "rows are touched although nothing differs", cand = {} => ~Idle(e))
  /\ Must({"P17"}, "rows change outside a commit", cand = {} => Idle(e))
  /\ IF cand = {} THEN calls' = Shown(calls, New(e))
     ELSE IF fit # {}
     THEN LET n == CHOOSE n \in fit : \A m \in fit : n <= m
              es == CHOOSE es \in Portions(calls[n]) : Explains(calls[n], es, e) IN
          calls' = Shown([calls EXCEPT ![n].done = (calls[n].k = "commit"), ![n].left = Rest(calls[n], es)], New(e))
     ELSE LET n == CHOOSE n \in cand : \A m \in cand : n <= m
              c == calls[n]
              want == Apply(store, c.left)
              have == New(e)
              odd == {k \in DOMAIN want \cup DOMAIN have \cup Touched(e) : ~(k \in DOMAIN want /\ k \in DOMAIN have /\ want[k] = have[k] /\ (k \in Touched(e) => k \in Of(c.left)))
                                                                 /\ ~(k \notin DOMAIN want /\ k \notin DOMAIN have)} IN
          /\ Must({"P16"}, "other columns are changed than those that differ", \A k \in odd : ~(Kind(c, k) = "set" \/ (Kind(c, k) = "" /\ k \in DOMAIN store /\ k \in DOMAIN have)))
          /\ Must({"P17"}, "rows are stored or removed other than given", \A k \in odd : Kind(c, k) = "set")
          /\ calls' = Shown([calls EXCEPT ![n].done = TRUE, ![n].left = <<>>], New(e))
  /\ store' = New(e)
  /\ UNCHANGED <<ctxs, txs>>

Fault(e) ==
  LET mine == {n \in DOMAIN calls : calls[n].x = e.i} IN
  /\ calls' = [n \in DOMAIN calls |-> IF n \in mine THEN [calls[n] EXCEPT !.err = (e.k # "stall"), !.must = (Cardinality(mine) = 1 /\ e.k \in {"err", "errafter"})] ELSE calls[n]]
  /\ UNCHANGED <<store, ctxs, txs>>
End(e) ==
  /\ Must({"P17"}, "a call does not return", DOMAIN calls = {})
  /\ UNCHANGED vars

Step(e) ==
  CASE e.op = "call"  -> Call(e)
    [] e.op = "ret"   -> Ret(e)
    [] e.op = "db"    -> Db(e)
    [] e.op = "fault" -> Fault(e)
    [] e.op = "end"   -> End(e)
=============================================================================
