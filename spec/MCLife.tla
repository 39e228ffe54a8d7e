------------------------------- MODULE MCLife -------------------------------
(***************************************************************************)
(* Exhaustive exploration of every life a command may have under the       *)
(* guards of Command: all orders the guards leave open, every port call    *)
(* failing or panicking, two commands sharing locks.  Checks that the      *)
(* guards together imply the guarantees a user relies on, and that no      *)
(* command gets stuck.  The configurations are printed as scenarios.       *)
(***************************************************************************)
EXTENDS Command, Json, IOUtils
Profile == IOEnv.MC_PROFILE

Row(t, p, s, v) == [t |-> t, p |-> p, s |-> s, v |-> v]
Store == ("r1" :> Row("node", "", "", 1)) @@ ("a" :> Row("node", "r1", "kids", 2))
VARIABLES cfg,    \* command -> configuration
          pc,     \* command -> next instruction of its body
          log     \* what left the system: sets of <<command, what>>
mcvars == <<vars, cfg, pc, log>>

L(f) == f
OpLine(f) == [ev |-> "op"] @@ f
LoadR1(c) == OpLine([c |-> c, op |-> "load", mode |-> "getkids", root |-> "r1", r |-> "ok",
   ents |-> << [e |-> "r1", id |-> "r1", t |-> "node", v |-> 1, p |-> "", s |-> ""],
               [e |-> "a", id |-> "a", t |-> "node", v |-> 2, p |-> "r1", s |-> "kids"] >>])
AddN(c, n) == OpLine([c |-> c, op |-> "new", e |-> n, t |-> "node", id |-> "", v |-> 9, p |-> Root, s |-> ""])
NewN(c, n, p) == OpLine([c |-> c, op |-> "new", e |-> n, t |-> "alt", id |-> n, v |-> 9, p |-> p, s |-> "kids"])
SetE(c, n, v) == OpLine([c |-> c, op |-> "set", e |-> n, v |-> v])
DetE(c, n) == OpLine([c |-> c, op |-> "det", e |-> n])
EvE(c, n, evt, txe) == OpLine([c |-> c, op |-> "ev", e |-> n, evt |-> evt, txe |-> txe])
SaveI(c) == [ev |-> "save", c |-> c]

\* bodies: the specification's steps and the driver's instructions side by side
Bodies == {"edit", "create", "twice", "move"}
Body(b, c) ==
  CASE b = "edit"   -> <<LoadR1(c), SetE(c, "a", 5), EvE(c, "a", c \o "e1", FALSE), EvE(c, "r1", c \o "e2", TRUE)>>
    [] b = "create" -> <<AddN(c, c \o "n"), EvE(c, c \o "n", c \o "e1", TRUE)>>
    [] b = "twice"  -> <<LoadR1(c), SetE(c, "a", 5), SaveI(c), DetE(c, "a")>>
    [] b = "move"   -> <<LoadR1(c), AddN(c, c \o "n"), DetE(c, "a")>>

Cfg(c) == [ev : {"cmd"}, c : {c}, body : {"edit"}, shape : {"main"}, rec : {FALSE}, dry : BOOLEAN, tx : BOOLEAN, persist : BOOLEAN,
           bus : {"none", "plain", "tx"}, keys : {<<>>, <<"k1", "k2">>, <<"k1", "k1">>}, hooks : {<<"eng1", "own:" \o c>>}]
Configs ==
  IF Profile = "one"
  THEN {[c1 |-> [ev |-> "cmd", c |-> "c1", body |-> b, shape |-> "main", rec |-> FALSE, dry |-> d, tx |-> t, persist |-> p, bus |-> u,
                 keys |-> k, hooks |-> <<"eng1", "own:c1">>]] :
          b \in Bodies, d \in BOOLEAN, t \in BOOLEAN, p \in BOOLEAN, u \in {"none", "plain", "tx"}, k \in {<<>>, <<"k1">>}}
       \cup {[c1 |-> [ev |-> "cmd", c |-> "c1", body |-> "create", shape |-> "main", rec |-> FALSE, dry |-> FALSE, tx |-> t, persist |-> FALSE, bus |-> "tx",
                 keys |-> k, hooks |-> <<"eng1">>]] : t \in BOOLEAN, k \in {<<"k1", "k2">>, <<"k1", "k1">>}}
  ELSE {[c1 |-> [ev |-> "cmd", c |-> "c1", body |-> "create", shape |-> "main", rec |-> FALSE, dry |-> FALSE, tx |-> t, persist |-> FALSE, bus |-> "tx",
                 keys |-> k, hooks |-> <<"own:c1">>],
         c2 |-> [ev |-> "cmd", c |-> "c2", body |-> "create", shape |-> "main", rec |-> FALSE, dry |-> FALSE, tx |-> TRUE, persist |-> FALSE, bus |-> "none",
                 keys |-> m, hooks |-> <<"own:c2">>]] :
          t \in BOOLEAN, k \in {<<"k1">>, <<"k1", "k2">>}, m \in {<<"k1">>, <<"k2", "k1">>}}

MCInit ==
  /\ rows = Store /\ evrows = {} /\ holder = EmptyFn /\ ord = {} /\ cmds = EmptyFn
  /\ cfg \in Configs
  /\ pc = [c \in DOMAIN cfg |-> 0]
  /\ log = {}

Rs == {"ok", "err"}
RsP == {"ok", "err", "panic"}
St(n) == cmds[n]
Started(n) == n \in DOMAIN cmds
Note(x) == log' = log \cup {x}
Quiet == UNCHANGED log
Keep == UNCHANGED <<cfg, pc>>

\* the steps that may happen next; Step's guards decide which of them are allowed
Begin(n) == ~Started(n) /\ Step(cfg[n]) /\ Quiet /\ Keep
Setup(n) ==
  /\ Started(n) /\ ~St(n).done
  /\ \/ \E r \in {"ok", "err", "brk"} : pc[n] = 0 /\ Step([ev |-> "cinit", c |-> n, r |-> r]) /\ St(n).fail = ""
          /\ pc' = [pc EXCEPT ![n] = 1] /\ UNCHANGED cfg /\ Quiet
     \/ \E k \in St(n).keys, r \in Rs : pc[n] = 1 /\ (r = "ok" => k \notin DOMAIN holder)
          /\ (k = "k2" => "k1" \in St(n).got \cup ({"k1"} \ St(n).keys))    \* the design's lock order
          /\ Step([ev |-> "lock", c |-> n, k |-> k, r |-> r]) /\ Quiet /\ Keep
     \/ \E k \in St(n).keys : Step([ev |-> "unlock", c |-> n, k |-> k, cx |-> FALSE]) /\ Quiet /\ Keep
     \/ \E r \in Rs : pc[n] = 1 /\ Step([ev |-> "begin", c |-> n, r |-> r]) /\ Quiet /\ Keep
Main(n) ==
  /\ Started(n) /\ ~St(n).done
  /\ \/ pc[n] = 1 /\ St(n).fail = "" /\ Step([ev |-> "mainstart", c |-> n]) /\ pc' = [pc EXCEPT ![n] = 2] /\ UNCHANGED cfg /\ Quiet
     \/ /\ pc[n] >= 2 /\ pc[n] - 1 <= Len(Body(cfg[n].body, n)) /\ St(n).fail = "" /\ St(n).main = "no" /\ ~St(n).s.on
        /\ Step(Body(cfg[n].body, n)[pc[n] - 1]) /\ pc' = [pc EXCEPT ![n] = @ + 1] /\ UNCHANGED cfg /\ Quiet
     \/ /\ St(n).s.on /\ ~St(n).final /\ \E r \in Rs : ((r = "err") <=> (St(n).fail # "")) /\ Step([ev |-> "saved", c |-> n, r |-> r]) /\ Quiet /\ Keep
     \/ /\ pc[n] >= 2 /\ St(n).main = "no" /\ (~St(n).s.on \/ St(n).fail # "")
        /\ \E r \in {"ok", "err", "brk", "panic"} :
             /\ (r = "ok" => pc[n] - 1 = Len(Body(cfg[n].body, n)) + 1 /\ St(n).fail = "")
             /\ (St(n).fail # "" => r = St(n).fail)
             /\ Step([ev |-> "mainend", c |-> n, r |-> r])
        /\ Quiet /\ Keep
Ports(n) ==
  /\ Started(n) /\ ~St(n).done /\ Keep
  /\ \/ \E h \in St(n).s.B \cup St(n).s.A \cup St(n).s.BO \cup St(n).s.AO, r \in RsP :
          Step([ev |-> "hook", c |-> n, k |-> h[1], e |-> h[2], r |-> r, v |-> St(n).ent[h[2]].v]) /\ Quiet
     \/ St(n).s.on /\ St(n).gen = {} /\ (\E x \in St(n).s.ins : St(n).ent[x].id = "") /\ Step([ev |-> "gen", c |-> n, id |-> n \o "g1"]) /\ Quiet
     \/ St(n).s.on /\ St(n).fail = "" /\ \E r \in {"err", "panic"} : Step([ev |-> "x", c |-> n, r |-> r]) /\ Quiet
     \/ \E op \in {"ins", "upd", "del"} : \E x \in (CASE op = "ins" -> St(n).s.ins [] op = "upd" -> St(n).s.upd [] OTHER -> St(n).s.del \cup St(n).s.opt) :
          LET c == St(n)
              pl == PlaceNow(c, x)
              id == IF c.ent[x].id # "" THEN c.ent[x].id ELSE CHOOSE i \in c.gen \cup {"?"} : c.gen # {} => i # "?"
              new == x \notin DOMAIN c.snap
          IN /\ (op = "ins" /\ c.ent[x].id = "" => c.gen # {})
             /\ Step([ev |-> "w", c |-> n, op |-> op, e |-> x, id |-> id,
                   p |-> IdOf(c, pl[1]), s |-> pl[2], v |-> c.ent[x].v,
                   cp |-> new \/ pl[1] # c.snap[x].pl[1], cs |-> new \/ pl[2] # c.snap[x].pl[2], cv |-> new \/ c.ent[x].v # c.snap[x].v,
                   intx |-> c.tx = "open"])
             /\ Note(<<n, "write">>)
     \/ \E m \in RangeOf(EvNames(St(n))) : Step([ev |-> "evrow", c |-> n, evt |-> m, intx |-> St(n).tx = "open"]) /\ Note(<<n, "evrow">>)
     \/ \E kind \in {"send", "prep"}, r \in RsP :
          LET got == SelectSeq(EvNames(St(n)), LAMBDA m : m \in MayNames(St(n), kind)) IN
          got # <<>> /\ Step([ev |-> kind, c |-> n, evs |-> got, r |-> r]) /\ Note(<<n, kind>>)
End(n) ==
  /\ Started(n) /\ ~St(n).done /\ Keep
  /\ \/ \E r \in RsP : Step([ev |-> "commit", c |-> n, r |-> r]) /\ Quiet
     \/ Step([ev |-> "rollback", c |-> n, r |-> "ok"]) /\ Quiet
     \/ \E k \in {"busCommit", "busRollback"} : Step([ev |-> k, c |-> n, tok |-> n]) /\ Note(<<n, k>>)
     \/ St(n).post < Len(St(n).hooks) /\ \E h \in RangeOf(St(n).hooks) : Step([ev |-> "post", c |-> n, h |-> h, res |-> TRUE, err |-> FALSE]) /\ Note(<<n, "post">>)
     \/ LET r == Expect(St(n)) IN
        /\ (pc[n] >= 2 \/ Failed(St(n)))
        /\ (r = "ok" => St(n).main = "ok")
        /\ Step([ev |-> "ret", c |-> n, panic |-> r = "panic", err |-> r = "err", brk |-> r = "brk", ids |-> <<>>, acts |-> St(n).nw, outok |-> TRUE]) /\ Note(<<n, "ret:" \o r>>)
Done == \A n \in DOMAIN cfg : Started(n) /\ St(n).done
MCNext == (\E n \in DOMAIN cfg : Begin(n) \/ Setup(n) \/ Main(n) \/ Ports(n) \/ End(n)) \/ (Done /\ UNCHANGED mcvars)
MCSpec == MCInit /\ [][MCNext]_mcvars

\* ---- what the user relies on
Has(n, x) == <<n, x>> \in log
Want(n) ==  \* rows the body of a successful command means
  CASE cfg[n].body = "edit" -> [Store EXCEPT !["a"].v = 5]
    [] cfg[n].body = "create" -> (n \o "g1") :> Row("node", "", "", 9) @@ Store
    [] cfg[n].body = "twice" -> "r1" :> Store["r1"]
    [] cfg[n].body = "move" -> (n \o "g1") :> Row("node", "", "", 9) @@ ("r1" :> Store["r1"])
Atomic == \A n \in DOMAIN cmds : LET c == cmds[n] IN
  Cardinality(DOMAIN cfg) = 1 /\ c.o.tx =>
    IF c.tx = "committed" THEN rows = (IF c.o.dry THEN Store ELSE Want(n)) ELSE rows = Store /\ evrows = {}
Reported == \A n \in DOMAIN cmds :
  /\ (Has(n, "ret:ok") /\ cmds[n].o.tx => cmds[n].tx = "committed")
  /\ (cmds[n].tx = "committed" /\ cmds[n].done => Has(n, "ret:ok"))
  /\ (cmds[n].done => cmds[n].tx # "open")
DryQuiet == \A n \in DOMAIN cmds : cmds[n].o.dry => \A w \in {"write", "evrow", "send", "prep"} : ~Has(n, w)
EventsAll == \A n \in DOMAIN cmds : Has(n, "ret:ok") /\ ~cmds[n].o.dry /\ cmds[n].evs # <<>> =>
  /\ Has(n, "send") \/ Has(n, "prep")
  /\ (cmds[n].o.persist => evrows # {})
TxEvents == \A n \in DOMAIN cmds :
  /\ (Has(n, "busCommit") => cmds[n].tx = "committed" /\ Has(n, "prep"))
  /\ ~(Has(n, "busCommit") /\ Has(n, "busRollback"))
  /\ (Has(n, "busRollback") => cmds[n].tx # "committed")
Locks == /\ \A n, m \in DOMAIN cmds : n # m => cmds[n].held \cap cmds[m].held = {}
         /\ \A n \in DOMAIN cmds : (cmds[n].tx = "open" => cmds[n].held = cmds[n].keys)
                                 /\ (Has(n, "write") /\ ~cmds[n].done /\ cmds[n].fail = "" /\ cmds[n].main # "ok" => cmds[n].held = cmds[n].keys)
                                 /\ (cmds[n].done => cmds[n].held = {})
PostOk == \A n \in DOMAIN cmds : Has(n, "post") /\ cmds[n].fail # "brk" =>
            ~Failed(cmds[n]) /\ cmds[n].held = {} /\ (cmds[n].o.tx => cmds[n].tx = "committed")
=============================================================================
