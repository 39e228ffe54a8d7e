------------------------------- MODULE MCAgg -------------------------------
(***************************************************************************)
(* One command working on a small store: explores the operations a command *)
(* body can perform, checks that the difference the specification demands  *)
(* leads to the rows the user means (design check), and prints every       *)
(* distinct situation once, as a scenario for the driver of the real code. *)
(***************************************************************************)
EXTENDS Command, Json, IOUtils

Profile == IOEnv.MC_PROFILE
Depth   == atoi(IOEnv.MC_DEPTH)
Part    == atoi(IOEnv.MC_PART)      \* this run's share of the initial situations
Parts   == atoi(IOEnv.MC_PARTS)

VARIABLES hist,    \* scenario operations so far
          saves,   \* number of intermediate saves
          store    \* the initial rows
mcvars == <<vars, hist, saves, store>>

R(t, p, s, v) == [t |-> t, p |-> p, s |-> s, v |-> v]
T1 == ("r1" :> R("node", "", "", 1)) @@ ("a" :> R("node", "r1", "kids", 2)) @@ ("b" :> R("node", "r1", "kids", 3))
   @@ ("s" :> R("single", "r1", "one", 4)) @@ ("g" :> R("node", "a", "kids", 5))
   @@ ("r2" :> R("node", "", "", 6)) @@ ("d" :> R("node", "r2", "map", 7))
\* three siblings that can move at once
T3 == ("r1" :> R("node", "", "", 1)) @@ ("a" :> R("node", "r1", "kids", 2)) @@ ("b" :> R("node", "r1", "kids", 3))
   @@ ("d" :> R("node", "r1", "kids", 4)) @@ ("r2" :> R("node", "", "", 5)) @@ ("g" :> R("node", "r2", "kids", 6))
\* explicit children, mixed types
T4 == ("r1" :> R("node", "", "", 1)) @@ ("x" :> R("alt", "r1", "oth", 2)) @@ ("a" :> R("node", "x", "a", 3))
   @@ ("s" :> R("single", "x", "b", 4)) @@ ("b" :> R("node", "s", "kids", 5))
   @@ ("r2" :> R("alt", "", "", 6)) @@ ("d" :> R("node", "r2", "a", 7))
T2 == ("r1" :> R("node", "", "", 1)) @@ ("a" :> R("node", "r1", "kids", 2)) @@ ("s" :> R("single", "r1", "one", 3))
   @@ ("r2" :> R("node", "", "", 4)) @@ ("b" :> R("node", "r2", "kids", 5))
T0 == "r1" :> R("node", "", "", 1)

Slots(t) == CASE t = "node" -> {"kids", "one", "map", "oth"} [] t = "single" -> {"kids"} [] OTHER -> {"a", "b"}
Fits(t, s) == IF s \in {"kids", "map"} THEN t = "node" ELSE IF s = "one" THEN t = "single" ELSE TRUE

C == cmds["c1"]
BaseCmd(rec) == [ev |-> "cmd", c |-> "c1", shape |-> "func", keys |-> <<>>, rec |-> rec, dry |-> FALSE, tx |-> TRUE,
                 persist |-> FALSE, bus |-> "none", hooks |-> <<>>]

RECURSIVE TreeRec(_, _)
TreeRec(vis, S) ==
  LET T == S \cup {i \in DOMAIN vis : vis[i].p \in S} IN IF T = S THEN S ELSE TreeRec(vis, T)
LoadIds(vis, id, mode) == IF mode = "custom" THEN TreeRec(vis, {id}) ELSE LoadSet(vis, id, mode)
RECURSIVE SetToSeqRec(_)
SetToSeqRec(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeqRec(S \ {x})
LoadLine(id, mode) ==
  LET vis == Visible(C)
      ids == SetToSeqRec(LoadIds(vis, id, mode))
  IN [ev |-> "op", c |-> "c1", op |-> "load", mode |-> mode, root |-> id, r |-> "ok",
      ents |-> [k \in DOMAIN ids |-> [e |-> ids[k], id |-> ids[k], t |-> vis[ids[k]].t, v |-> vis[ids[k]].v,
                                      p |-> IF ids[k] = id THEN "" ELSE vis[ids[k]].p, s |-> vis[ids[k]].s]]]

Line(f) == [ev |-> "op", c |-> "c1"] @@ f

Known == DOMAIN C.ent
Unplaced(x) == C.ent[x].at = {}
IsRoot(x) == <<Root, "">> \in C.ent[x].at
Free(p, s) == s = "one" => \A y \in Known : <<p, "one">> \notin C.ent[y].at
Cyc(p, x) == p = x \/ p \in Below(C.ent, {x})

\* an operation: kind, entity, parent, slot, type/mode
Op(k, x, p, s, t) == [k |-> k, x |-> x, p |-> p, s |-> s, t |-> t]
Expl(n) == IF n = "n1" THEN 0 ELSE 1      \* n2 brings its own identity
IdFor(n) == IF n = "n1" THEN "" ELSE n
Ok(o) ==
  CASE o.k = "new" -> o.x \notin Known /\ o.s \in Slots(C.ent[o.p].t) /\ Fits(o.t, o.s) /\ Free(o.p, o.s)
    [] o.k = "add" -> o.x \notin Known
    [] o.k = "mov" -> /\ Cardinality(C.ent[o.x].at) <= 1 /\ ~IsRoot(o.x)
                      /\ o.s \in Slots(C.ent[o.p].t) /\ Fits(C.ent[o.x].t, o.s)
                      /\ <<o.p, o.s>> \notin C.ent[o.x].at /\ Free(o.p, o.s) /\ ~Cyc(o.p, o.x)
    [] o.k = "dup" -> /\ Cardinality(C.ent[o.x].at) = 1 /\ ~IsRoot(o.x) /\ ~Cyc(o.p, o.x)
                      \* (an entity kept in its stored place and attached elsewhere too is left open)
                      /\ o.x \in DOMAIN C.snap => C.snap[o.x].pl \notin C.ent[o.x].at \cup {<<o.p, o.s>>}
                      /\ o.s \in Slots(C.ent[o.p].t) /\ Fits(C.ent[o.x].t, o.s)
                      /\ <<o.p, o.s>> \notin C.ent[o.x].at /\ Free(o.p, o.s)
    [] o.k = "det" -> Cardinality(C.ent[o.x].at) = 1 /\ ~IsRoot(o.x)
    [] o.k \in {"set", "touch"} -> ~C.ent[o.x].dirty
    [] o.k = "rm" -> IsRoot(o.x)
    [] o.k = "rmid" -> o.x \notin Known /\ o.x \in DOMAIN Visible(C) /\ Visible(C)[o.x].p = ""
    [] o.k = "load" -> /\ o.x \notin Known /\ o.x \in DOMAIN Visible(C) /\ Visible(C)[o.x].p = ""
                       /\ (o.t # "custom" => Visible(C)[o.x].t = "node")
                       /\ LoadIds(Visible(C), o.x, o.t) \cap Known = {}
    [] o.k = "ev" -> Len(C.evs) < 3
    [] o.k = "save" -> /\ saves < 2 /\ C.ent # EmptyFn /\ ~Diff(C).amb
                       /\ (hist # <<>> => hist[Len(hist)] # <<"save">>)
EvName == IF Len(C.evs) = 0 THEN "e1" ELSE IF Len(C.evs) = 1 THEN "e2" ELSE "e3"
AsOp(o) ==        \* as an instruction for the driver
  CASE o.k = "new" -> <<"new", o.x, o.t, 9, Expl(o.x), o.p, o.s>>
    [] o.k = "add" -> <<"add", o.x, o.t, 9, Expl(o.x)>>
    [] o.k \in {"mov", "dup"} -> <<o.k, o.x, o.p, o.s>>
    [] o.k = "set" -> <<"set", o.x, 50 + saves>>
    [] o.k = "load" -> <<"load", o.t, o.x>>
    [] o.k = "ev" -> <<"ev", o.x, EvName, o.t>>
    [] o.k = "save" -> <<"save">>
    [] OTHER -> <<o.k, o.x>>
AsLine(o) ==      \* as a step of Command
  CASE o.k = "new" -> Line([op |-> "new", e |-> o.x, t |-> o.t, id |-> IdFor(o.x), v |-> 9, p |-> o.p, s |-> o.s])
    [] o.k = "add" -> Line([op |-> "new", e |-> o.x, t |-> o.t, id |-> IdFor(o.x), v |-> 9, p |-> Root, s |-> ""])
    [] o.k \in {"mov", "dup"} -> Line([op |-> o.k, e |-> o.x, p |-> o.p, s |-> o.s])
    [] o.k = "set" -> Line([op |-> "set", e |-> o.x, v |-> 50 + saves])
    [] o.k = "touch" -> Line([op |-> "set", e |-> o.x, v |-> C.ent[o.x].v])
    [] o.k = "rmid" -> Line([op |-> "rmid", e |-> o.x, t |-> Visible(C)[o.x].t, id |-> o.x, v |-> 0])
    [] o.k = "load" -> LoadLine(o.x, o.t)
    [] o.k = "ev" -> Line([op |-> "ev", e |-> o.x, evt |-> EvName, txe |-> o.t = "tx"])
    [] OTHER -> Line([op |-> o.k, e |-> o.x])

\* the rows a save leaves, and what they must be
After(c) ==
  LET d == Diff(c)
      vis == Visible(c)
      N(x) == IF x = Root THEN "" ELSE x
      ins == [x \in d.ins |-> [t |-> c.ent[x].t, p |-> N(PlaceNow(c, x)[1]), s |-> PlaceNow(c, x)[2], v |-> c.ent[x].v]]
      upd == [x \in d.upd |-> [t |-> vis[x].t, p |-> N(PlaceNow(c, x)[1]), s |-> PlaceNow(c, x)[2], v |-> c.ent[x].v]]
  IN ins @@ upd @@ Less(vis, d.del)

Save ==
  /\ LET c2 == TakeSnap(C)
         aft == After(C)
         del == {i \in DOMAIN Visible(C) : i \notin DOMAIN aft}
     IN cmds' = Upd(cmds, "c1", [c2 EXCEPT !.ent = [x \in DOMAIN c2.ent |-> IF c2.ent[x].id = "" /\ x \in Attached(c2.ent) THEN [c2.ent[x] EXCEPT !.id = x] ELSE c2.ent[x]],
                     !.d = [i \in DOMAIN aft \cup del |->
                              IF i \in del THEN [gone |-> TRUE, t |-> "", p |-> "", s |-> "", v |-> 0]
                              ELSE [gone |-> FALSE, t |-> aft[i].t, p |-> aft[i].p, s |-> aft[i].s, v |-> aft[i].v]]])
  /\ UNCHANGED <<rows, evrows, holder, ord>>
Apply(o) ==
  /\ IF o.k = "save" THEN Save ELSE DoOp(AsLine(o))
  /\ hist' = Append(hist, AsOp(o))
  /\ saves' = saves + (IF o.k = "save" THEN 1 ELSE 0)
  /\ UNCHANGED store

DesignOk ==
  LET c == C
      A == Attached(c.ent)
      aft == After(c)
      gone == (DOMAIN c.snap \ A)
      sub == Below(c.ent, {x \in gone : c.snap[x].pl \notin c.ent[x].at})
  IN ~Diff(c).amb =>
     /\ \A x \in A : x \in DOMAIN aft /\ aft[x].v = (IF x \in DOMAIN c.snap /\ ~c.ent[x].dirty /\ NewPlaces(c, x, A) = {} THEN c.snap[x].v ELSE c.ent[x].v)
     /\ \A x \in A : \E pl \in c.ent[x].at : aft[x].s = pl[2] /\ aft[x].p = (IF pl[1] = Root THEN "" ELSE pl[1])
     /\ \A i \in DOMAIN Visible(c) \ DOMAIN c.ent : i \in DOMAIN aft /\ aft[i] = Visible(c)[i]
     \* a stored entity that is no longer attached is gone, unless it still sits below what was removed
     /\ \A x \in gone : x \in DOMAIN aft <=> (c.snap[x].pl \in c.ent[x].at /\ ~(c.o.rec /\ x \in sub))
     /\ DOMAIN aft \subseteq A \cup DOMAIN Visible(c)

Stores == CASE Profile = "diff" -> {T1, T3, T4} [] Profile = "move3" -> {T3} [] Profile = "multi" -> {T2, T0}
            [] Profile = "events" -> {T2} [] OTHER -> {T2}
PreLoads(st) ==   \* loads done ahead of the explored operations
  CASE Profile = "multi" -> {<<>>}
    [] Profile = "events" -> {<<>>, <<<<"r1", "get">>>>}
    [] Profile = "move3" -> {<<<<"r1", "custom">>, <<"r2", "custom">>>>}
    [] OTHER -> {<<<<"r1", "custom">>, <<"r2", "custom">>>>}
                 \cup (IF st = T4 THEN {} ELSE {<<<<"r1", "get">>>>})
Recs == IF Profile \in {"diff", "multi"} THEN BOOLEAN ELSE {FALSE}

VARIABLE pre
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Starts == SetSeq({<<st, rec, pl>> : st \in Stores, rec \in Recs, pl \in UNION {PreLoads(s) : s \in Stores}})
MyStarts == {Starts[k] : k \in {j \in DOMAIN Starts : j % Parts = Part /\ Starts[j][3] \in PreLoads(Starts[j][1])}}
MCInit ==
  \E b \in MyStarts : LET st == b[1] rec == b[2] pl == b[3] IN
    /\ rows = st /\ store = st
    /\ evrows = {} /\ holder = EmptyFn /\ ord = {}
    /\ cmds = ("c1" :> [ o |-> [rec |-> rec, dry |-> FALSE, tx |-> TRUE, persist |-> FALSE, bus |-> "none", shape |-> "func"],
                keys |-> {}, hooks |-> <<>>, held |-> {}, got |-> {}, tx |-> "open", fail |-> "",
                main |-> "no", rerr |-> FALSE, final |-> FALSE,
                ent |-> EmptyFn, snap |-> EmptyFn, ever |-> {}, evs |-> <<>>, gen |-> {}, d |-> EmptyFn, rec |-> {},
                s |-> NoSave, out |-> [prep |-> "no", send |-> "no"], res |-> "none", post |-> 0, done |-> FALSE ])
    /\ hist = <<>> /\ saves = 0 /\ pre = pl

MovSlots == IF Profile = "diff" THEN {"kids", "one", "map", "oth", "a", "b"} ELSE {"kids", "one", "oth"}
NewSlots == IF Profile = "diff" THEN {"kids", "one", "map", "oth", "a", "b"} ELSE {"kids", "one"}
NewNames == IF "n1" \in Known THEN {"n2"} ELSE {"n1"}
Cands == {o \in
  (IF Profile # "events" THEN {Op("mov", x, p, s, "") : x \in Known, p \in Known, s \in MovSlots} ELSE {})
  \cup {Op(k, x, "", "", "") : k \in {"det", "set", "rm"} \cup (IF Profile = "diff" THEN {"touch"} ELSE {}), x \in Known}
  \cup (IF Profile = "move3" THEN {Op("dup", x, p, s, "") : x \in Known, p \in Known, s \in {"kids", "oth"}} ELSE {})
  \cup {Op("new", n, p, s, t) : n \in NewNames, p \in Known, s \in NewSlots, t \in {"node", "single"}}
  \cup {Op("add", n, "", "", "node") : n \in NewNames}
  \cup (IF Profile \in {"multi", "events"}
        THEN {Op("rmid", x, "", "", "") : x \in {"r1", "r2"}} \cup {Op("save", "", "", "", "")}
             \cup {Op("load", x, "", "", m) : x \in {"r1", "r2"}, m \in {"get", "custom", "getkids"}}
        ELSE {})
  \cup (IF Profile = "events" THEN {Op("ev", x, "", "", t) : x \in Known, t \in {"", "tx"}} ELSE {})
  : Ok(o)}
Steps == IF Profile \in {"diff", "move3"} THEN Cardinality({k \in DOMAIN hist : hist[k][1] # "load"}) ELSE Len(hist)
Pre == /\ pre # <<>>
       /\ Apply(Op("load", Head(pre)[1], "", "", Head(pre)[2])) /\ pre' = Tail(pre)
MCNext == Pre \/ (pre = <<>> /\ Steps < Depth /\ \E o \in Cands : Apply(o) /\ UNCHANGED pre)
\* random walk: first the kind of the operation, then the operation
SimNext ==
  \/ Pre
  \/ /\ pre = <<>> /\ Steps < Depth
     /\ \E cs \in {Cands} : \E k \in {RandomElement({o.k : o \in cs})} :
          \E o \in {RandomElement({q \in cs : q.k = k})} : Apply(o)
     /\ UNCHANGED pre
SimSpec == MCInit /\ [][SimNext]_<<mcvars, pre>>
MCSpec == MCInit /\ [][MCNext]_<<mcvars, pre>>
View == <<store, pre, saves, C.o.rec, C.ent, C.snap, C.d, C.evs, C.ever, IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]>>
\* printed once per distinct state; simulation prints the ends of the walks
Emit ==
  (pre = <<>> /\ hist # <<>>) =>
     \/ hist[Len(hist)][1] \in {"save"}
     \/ PrintT("SC " \o ToJson([rec |-> C.o.rec, store |-> [i \in DOMAIN store |-> store[i]], ops |-> hist]))
EmitEnd == (pre = <<>> /\ Steps = Depth) => Emit
=============================================================================
