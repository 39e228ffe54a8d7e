------------------------------- MODULE Router ------------------------------
(***************************************************************************)
(* How an event, a timer firing or a check-back question reaches the code  *)
(* registered for it.                                                      *)
(*                                                                         *)
(* Handlers take the raw event or decoded data, and either act themselves  *)
(* or produce a command that is run.  A step is a registration, the        *)
(* beginning or end of a delivery, the call of a handler (or of the        *)
(* function producing a command), the outcome of a handler or command, or  *)
(* a question and its answer.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Check, Loud
On(P) == P \cap Check # {}
Must(P, name, cond) == IF On(P) THEN (IF cond THEN TRUE ELSE Loud /\ PrintT(<<"GUARD", name>>) /\ FALSE) ELSE TRUE

VARIABLES
  hs,      \* type -> handlers in order of registration: [h, arg, cmd]
  chks,    \* type -> its checker [h, arg]
  ds,      \* open deliveries: c -> [type, pl, min, done, cur, res]
  qs       \* open questions:  c -> [type, pl, asked, st]
vars == <<hs, chks, ds, qs>>
Nil == [x \in {} |-> x]
Upd(f, k, v) == (k :> v) @@ f
Less(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Of(f, t, d) == IF t \in DOMAIN f THEN f[t] ELSE d

Init == hs = Nil /\ chks = Nil /\ ds = Nil /\ qs = Nil

(* payloads: full, part (fields missing), more (unknown fields), null,      *)
(* mis (a field of another type), bad (no JSON), none (empty)               *)
(* arguments: raw (the event itself), data, some (fewer fields), map, timer *)
Decodes(arg, pl) ==
  CASE arg = "raw" -> TRUE
    [] pl \in {"bad", "none"} -> FALSE
    [] pl = "mis" -> arg \in {"some", "map"}
    [] OTHER -> TRUE

Reg(e) ==
  /\ Must({"P14"}, "a registration is refused", e.r = "ok")
  /\ hs' = Upd(hs, e.type, Append(Of(hs, e.type, <<>>), [h |-> e.h, arg |-> e.arg, cmd |-> e.cmd]))
  /\ UNCHANGED <<chks, ds, qs>>
RegChk(e) ==
  /\ Must({"P14"}, "a registration is refused", e.r = "ok")
  /\ chks' = Upd(chks, e.type, [h |-> e.h, arg |-> e.arg])
  /\ UNCHANGED <<hs, ds, qs>>

(******************************** deliveries *******************************)
Deliver(e) ==
  /\ ds' = Upd(ds, e.c, [type |-> e.type, pl |-> e.pl, min |-> Len(Of(hs, e.type, <<>>)), done |-> 0, cur |-> "", res |-> "ok"])
  /\ UNCHANGED <<hs, chks, qs>>
\* the next handler of a delivery, if it has one
Next(d) == IF d.done < Len(Of(hs, d.type, <<>>)) THEN <<hs[d.type][d.done + 1]>> ELSE <<>>
Handle(e) ==
  LET d == ds[e.c] n == Next(d) IN
  /\ Must({"P14"}, "a handler is called though no event is being delivered", e.c \in DOMAIN ds)
  /\ Must({"P14"}, "the next handler is called before the command of the one before was run", d.cur = "" \/ d.res # "none")
  /\ Must({"P14"}, "a handler is called after another one failed", d.res \in {"ok", "none"})
  /\ Must({"P14"}, "a handler of another type is called", \E i \in DOMAIN Of(hs, d.type, <<>>) : hs[d.type][i].h = e.h)
  /\ Must({"P14"}, "a handler is called out of order", n # <<>> /\ n[1].h = e.h)
  /\ Must({"P14"}, "a handler gets data that cannot be decoded", n # <<>> => Decodes(n[1].arg, d.pl))
  /\ Must({"P14"}, "a handler gets other data than was sent", e.same)
  /\ ds' = [ds EXCEPT ![e.c].cur = e.h, ![e.c].done = @ + 1, ![e.c].res = "none"]
  /\ UNCHANGED <<hs, chks, qs>>
\* the handler's own result, or that of the command it produced
Outcome(e) ==
  LET d == ds[e.c] IN
  /\ Must({"P14"}, "a command is run though no event is being delivered", e.c \in DOMAIN ds)
  /\ Must({"P14"}, "another command is run than the one produced", d.cur = e.h)
  /\ Must({"P14"}, "a command is run twice", d.res = "none" \/ (e.late /\ d.res = "ok"))
  /\ ds' = [ds EXCEPT ![e.c].res = e.r]
  /\ UNCHANGED <<hs, chks, qs>>
Delivered(e) ==
  LET d == ds[e.c]
      n == Next(d)
      stuck == n # <<>> /\ ~Decodes(n[1].arg, d.pl) IN
  /\ e.c \in DOMAIN ds
  /\ Must({"P14"}, "the command of a handler was not run", d.res # "none")
  /\ CASE d.res = "none" -> TRUE
       [] d.res # "ok" -> Must({"P14"}, "the error of a handler is not reported as it is", e.r = d.res)
       [] OTHER -> /\ Must({"P14"}, "a handler was not called", d.done >= d.min \/ stuck)
                   /\ Must({"P14"}, "data that cannot be decoded is not reported", d.done < d.min /\ stuck => e.r # "ok")
                   /\ Must({"P14"}, "an error although nothing failed", e.r # "ok" => stuck)
  /\ ds' = Less(ds, e.c)
  /\ UNCHANGED <<hs, chks, qs>>

(******************************** check-backs ******************************)
Ask(e) ==
  /\ qs' = Upd(qs, e.c, [type |-> e.type, pl |-> e.pl, asked |-> FALSE, st |-> 2])
  /\ UNCHANGED <<hs, chks, ds>>
Checker(e) ==
  LET q == qs[e.c] IN
  /\ Must({"P14"}, "a checker is asked though nobody asks", e.c \in DOMAIN qs)
  /\ Must({"P14"}, "another checker is asked", q.type \in DOMAIN chks /\ chks[q.type].h = e.h)
  /\ Must({"P14"}, "a checker is asked twice", ~q.asked)
  /\ Must({"P14"}, "a checker gets data that cannot be decoded", q.type \in DOMAIN chks => Decodes(chks[q.type].arg, q.pl))
  /\ Must({"P14"}, "a checker gets other data than was sent", e.same)
  /\ qs' = [qs EXCEPT ![e.c].asked = TRUE, ![e.c].st = e.st]
  /\ UNCHANGED <<hs, chks, ds>>
Answer(e) ==
  LET q == qs[e.c] IN
  /\ e.c \in DOMAIN qs
  /\ Must({"P14"}, "the checker is not asked", q.type \in DOMAIN chks /\ Decodes(chks[q.type].arg, q.pl) => q.asked)
  /\ Must({"P14"}, IF q.asked THEN "another answer than the checker's" ELSE "not rolled back though nobody can tell", e.st = q.st)
  /\ qs' = Less(qs, e.c)
  /\ UNCHANGED <<hs, chks, ds>>

Step(e) ==
  CASE e.op = "reg"    -> Reg(e)
    [] e.op = "regchk" -> RegChk(e)
    [] e.op = "ev"     -> Deliver(e)
    [] e.op = "h"      -> Handle(e)
    [] e.op = "out"    -> Outcome(e)
    [] e.op = "evret"  -> Delivered(e)
    [] e.op = "ask"    -> Ask(e)
    [] e.op = "chk"    -> Checker(e)
    [] e.op = "ans"    -> Answer(e)
=============================================================================
