------------------------------ MODULE Command ------------------------------
(***************************************************************************)
(* The life of commands run by the engine, at the level of its ports:      *)
(* locks, transaction, rows written, lifecycle hooks, events, post-save    *)
(* callbacks -- together with the change tracking of the entity trees the  *)
(* commands work on.                                                       *)
(*                                                                         *)
(* Every action takes the observable step `e' (a record) as argument.  The *)
(* exhaustive configurations (MCAgg, MCLife) offer the steps themselves;   *)
(* the trace configuration (CommandTrace) offers the steps recorded from   *)
(* the real code.  A guard Must(P, ..) states what a step has to satisfy   *)
(* for the properties in P; constant Check selects the properties that are *)
(* enforced, so that each property is decided separately.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Check, Loud

On(P) == P \cap Check # {}
Must(P, name, cond) == IF On(P) THEN (IF cond THEN TRUE ELSE Loud /\ PrintT(<<"GUARD", name>>) /\ FALSE) ELSE TRUE

VARIABLES rows,    \* committed rows: id -> [t, p, s, v]
          evrows,  \* committed event rows (set of event names)
          holder,  \* lock key -> command holding it
          ord,     \* pairs of keys <<a,b>>: b was acquired while a was held
          cmds     \* command name -> its state
vars == <<rows, evrows, holder, ord, cmds>>

Root == "$"
EmptyFn == [x \in {} |-> x]
Upd(f, k, v) == (k :> v) @@ f
Less(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
HasHooks(t) == t \in {"node", "single"}

Init == /\ rows = EmptyFn
        /\ evrows = {}
        /\ holder = EmptyFn
        /\ ord = {}
        /\ cmds = EmptyFn

(***************************** entity trees ********************************)
RECURSIVE Grow(_, _)
Grow(ent, S) ==
  LET T == S \cup {x \in DOMAIN ent : \E pl \in ent[x].at : pl[1] \in S}
  IN IF T = S THEN S ELSE Grow(ent, T)
Attached(ent) == Grow(ent, {Root}) \ {Root}
Below(ent, S) == Grow(ent, S) \ S

(* What a save has to do: the declarative difference between the entities  *)
(* attached now and the snapshot of what is stored.                        *)
NewPlaces(c, x, A) ==
  {pl \in c.ent[x].at : pl[1] \in A \cup {Root}}
     \ (IF x \in DOMAIN c.snap THEN {c.snap[x].pl} ELSE {})
Diff(c) ==
  LET A     == Attached(c.ent)
      S     == DOMAIN c.snap
      ins   == A \ S
      moved == {x \in A \cap S : NewPlaces(c, x, A) # {}}
      upd   == moved \cup {x \in A \cap S : c.ent[x].dirty}
      top   == {x \in S \ A : c.snap[x].pl \notin c.ent[x].at}
      sub   == IF c.o.rec THEN Below(c.ent, top) ELSE {}
  IN [ A |-> A, ins |-> ins, upd |-> upd,
       del |-> top \cup ((sub \cap S) \ A), delOpt |-> (sub \ S) \ A,
       amb |-> \E x \in A : Cardinality(NewPlaces(c, x, A)) >= 2 ]

PlaceNow(c, x) ==       \* the place a save stores for x (unique unless ambiguous)
  LET A == Attached(c.ent)
      N == NewPlaces(c, x, A)
  IN IF N # {} THEN CHOOSE pl \in N : TRUE
     ELSE IF x \in DOMAIN c.snap THEN c.snap[x].pl ELSE <<Root, "">>
IdOf(c, x) == IF x = Root THEN "" ELSE c.ent[x].id

HookCalls(c, d) ==
  LET H(S) == {x \in S : HasHooks(c.ent[x].t)} IN
  [ B  |-> {<<"bc", x>> : x \in H(d.ins)} \cup {<<"bu", x>> : x \in H(d.upd)} \cup {<<"bd", x>> : x \in H(d.del)},
    A  |-> {<<"ac", x>> : x \in H(d.ins)} \cup {<<"au", x>> : x \in H(d.upd)} \cup {<<"ad", x>> : x \in H(d.del)},
    BO |-> {<<"bd", x>> : x \in H(d.delOpt)},
    AO |-> {<<"ad", x>> : x \in H(d.delOpt)} ]

NoSave == [ on |-> FALSE, ins |-> {}, upd |-> {}, del |-> {}, opt |-> {}, B |-> {}, A |-> {}, BO |-> {}, AO |-> {},
            wrote |-> FALSE, amb |-> FALSE, par |-> EmptyFn ]
StartSave(c) ==
  LET d == Diff(c)
      h == HookCalls(c, d)
  IN [ on |-> TRUE, amb |-> d.amb,
       ins |-> IF c.o.dry THEN {} ELSE d.ins,
       upd |-> IF c.o.dry THEN {} ELSE d.upd,
       del |-> IF c.o.dry THEN {} ELSE d.del,
       opt |-> IF c.o.dry THEN {} ELSE d.delOpt,
       B |-> IF c.o.dry THEN {} ELSE h.B, A |-> IF c.o.dry THEN {} ELSE h.A,
       BO |-> IF c.o.dry THEN h.BO \cup h.B ELSE h.BO, AO |-> IF c.o.dry THEN h.AO \cup h.A ELSE h.AO,
       wrote |-> FALSE, par |-> EmptyFn ]

\* an update that changes no column may be left out
NeedsUpd(c, x) ==
  LET pl == PlaceNow(c, x) IN pl # c.snap[x].pl \/ c.ent[x].v # c.snap[x].v
WritesDone(c) ==
  c.s.ins = {} /\ c.s.del = {} /\ \A x \in c.s.upd : ~NeedsUpd(c, x)
HooksDone(c) == c.s.B = {} /\ c.s.A = {}
ParentsRight(c) == \A x \in DOMAIN c.s.par : c.s.par[x] = IdOf(c, PlaceNow(c, x)[1])

TakeSnap(c) ==           \* after an intermediate save
  LET A == Attached(c.ent) IN
  [c EXCEPT !.snap = [x \in A |-> [pl |-> PlaceNow(c, x), v |-> c.ent[x].v]],
            !.ent  = [x \in DOMAIN c.ent |-> IF x \in A THEN [c.ent[x] EXCEPT !.dirty = FALSE] ELSE c.ent[x]],
            !.ever = @ \cup A,
            !.s    = NoSave ]

(******************************* events ************************************)
MustEvents(c) == {i \in DOMAIN c.evs : c.evs[i].e \in Attached(c.ent) \cup c.ever}
EvNames(c) == [i \in DOMAIN c.evs |-> c.evs[i].n]
TxEv(c) == {c.evs[i].n : i \in {j \in DOMAIN c.evs : c.evs[j].tx}}
Split(c) == c.o.bus = "tx" /\ c.o.tx     \* transactional events go their own way
MustNames(c, kind) ==
  LET M == {c.evs[i].n : i \in MustEvents(c)} IN
  CASE kind = "prep" -> IF Split(c) THEN M \cap TxEv(c) ELSE {}
    [] kind = "send" -> IF Split(c) THEN M \ TxEv(c) ELSE M
MayNames(c, kind) ==
  LET M == RangeOf(EvNames(c)) IN
  CASE kind = "prep" -> IF Split(c) THEN M \cap TxEv(c) ELSE {}
    [] kind = "send" -> IF Split(c) THEN M \ TxEv(c) ELSE M
NoBus(c) == c.o.bus = "none" /\ ~c.o.dry /\ MustEvents(c) # {}
\* events of entities that were never part of a save may or may not count
MayFail(c) == c.o.bus = "none" /\ ~c.o.dry /\ c.evs # <<>> /\ c.final
EventsDone(c) == c.o.dry \/ \A k \in {"prep", "send"} : MustNames(c, k) # {} => c.out[k] = "ok"
RowsDone(c) == c.o.persist /\ ~c.o.dry => {c.evs[i].n : i \in MustEvents(c)} \subseteq c.rec

(****************************** commands ***********************************)
Failed(c) == c.fail # "" \/ (c.final /\ (c.s.amb \/ NoBus(c)))
Put(n, c) == cmds' = Upd(cmds, n, c)
Fail(c, kind) == IF c.fail = "" THEN [c EXCEPT !.fail = kind] ELSE c

Visible(c) ==
  LET alive == {i \in DOMAIN c.d : ~c.d[i].gone} IN
  [i \in (DOMAIN rows \ DOMAIN c.d) \cup alive |->
      IF i \in alive THEN [t |-> c.d[i].t, p |-> c.d[i].p, s |-> c.d[i].s, v |-> c.d[i].v] ELSE rows[i]]

\* the work of a successful command is over
Over(c) == /\ ~Failed(c) /\ c.main = "ok" /\ WritesDone(c) /\ HooksDone(c) /\ EventsDone(c) /\ RowsDone(c)
           /\ (c.o.tx => c.tx = "committed")

DoInit(e) ==
  /\ rows' = [i \in {e.rows[k].id : k \in DOMAIN e.rows} |->
                LET r == e.rows[CHOOSE k \in DOMAIN e.rows : e.rows[k].id = i]
                IN [t |-> r.t, p |-> r.p, s |-> r.s, v |-> r.v]]
  /\ UNCHANGED <<evrows, holder, ord, cmds>>

DoCmd(e) ==
  /\ Put(e.c, [ o |-> [rec |-> e.rec, dry |-> e.dry, tx |-> e.tx, persist |-> e.persist, bus |-> e.bus, shape |-> e.shape],
                keys |-> RangeOf(e.keys), hooks |-> e.hooks,
                held |-> {}, got |-> {}, tx |-> "none",
                fail |-> IF Cardinality(RangeOf(e.keys)) # Len(e.keys) THEN "dup" ELSE "",
                main |-> "no", rerr |-> FALSE, final |-> FALSE,
                ent |-> EmptyFn, snap |-> EmptyFn, ever |-> {}, evs |-> <<>>, gen |-> {}, d |-> EmptyFn, rec |-> {},
                s |-> NoSave, out |-> [prep |-> "no", send |-> "no"], res |-> "none", post |-> 0, nw |-> 0, done |-> FALSE ])
  /\ UNCHANGED <<rows, evrows, holder, ord>>

DoCInit(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P01", "P09"}, "initialisation comes first", c.tx = "none" /\ c.got = {} /\ c.main = "no")
  /\ Put(e.c, IF e.r = "ok" THEN c ELSE Fail(c, e.r))
  /\ UNCHANGED <<rows, evrows, holder, ord>>

\* duplicate keys make the command fail without taking any lock
DoLock(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P09"}, "locks are taken before the transaction and only the declared ones",
          /\ c.fail = "" /\ c.tx = "none" /\ c.main = "no"
          /\ e.k \in c.keys /\ e.k \notin c.got)
  /\ Must({"P09"}, "one global lock order", \A h \in c.held : <<e.k, h>> \notin ord)
  /\ IF e.r = "ok"
     THEN /\ holder' = Upd(holder, e.k, e.c)
          /\ ord' = ord \cup {<<h, e.k>> : h \in c.held}
          /\ Put(e.c, [c EXCEPT !.held = @ \cup {e.k}, !.got = @ \cup {e.k}])
     ELSE /\ Put(e.c, Fail(c, "err"))
          /\ UNCHANGED <<holder, ord>>
  /\ UNCHANGED <<rows, evrows>>

DoUnlock(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P09"}, "each held lock is given back once, after the transaction ended",
          e.k \in c.held /\ c.tx # "open")
  /\ Must({"P09"}, "locks are kept until the work is over",
          Failed(c) \/ MayFail(c) \/ Over(c))
  /\ Must({"P09"}, "a lock can be given back although the caller's context has ended", ~e.cx)
  /\ holder' = Less(holder, {e.k})
  /\ Put(e.c, [c EXCEPT !.held = @ \ {e.k}])
  /\ UNCHANGED <<rows, evrows, ord>>

Covered(c) == c.held = c.keys
Plain(c) == c.o.shape \in {"create", "delete"}

DoBegin(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P01"}, "one transaction per transactional command", c.o.tx /\ c.tx = "none" /\ c.fail = "")
  /\ Must({"P09"}, "locks cover the transaction", Covered(c) /\ c.fail = "")
  /\ Put(e.c, IF e.r = "ok" THEN [c EXCEPT !.tx = "open"] ELSE Fail(c, "err"))
  /\ UNCHANGED <<rows, evrows, holder, ord>>

DoMainStart(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P01"}, "logic runs inside the transaction", (c.o.tx => c.tx = "open") /\ c.fail = "")
  /\ Must({"P09"}, "logic runs under all locks", Covered(c) /\ c.fail = "")
  /\ UNCHANGED vars

DoMainEnd(e) ==
  LET c0 == cmds[e.c]
      c1 == IF e.r = "ok" THEN (IF c0.rerr THEN Fail(c0, "err") ELSE c0) ELSE Fail(c0, e.r)
      c2 == IF c1.fail = "" THEN [c1 EXCEPT !.s = StartSave(c1), !.final = TRUE] ELSE c1
  IN /\ Put(e.c, [c2 EXCEPT !.main = e.r])
     /\ UNCHANGED <<rows, evrows, holder, ord>>

\* ---- operations of the command body (environment)
Attach(c, e, at, snap) ==
  Upd(c.ent, e.e, [t |-> e.t, id |-> e.id, v |-> e.v, dirty |-> FALSE, at |-> at])

\* what loading must find
KidsOf(vis, p) == {i \in DOMAIN vis : vis[i].t = "node" /\ vis[i].p = p}
OneOf(vis, p)  == {i \in DOMAIN vis : vis[i].t = "single" /\ vis[i].p = p}
RECURSIVE LoadRec(_, _)
LoadRec(vis, id) == {id} \cup OneOf(vis, id) \cup UNION {LoadRec(vis, k) : k \in KidsOf(vis, id)}
LoadSet(vis, id, mode) ==
  CASE mode = "get"     -> {id} \cup KidsOf(vis, id) \cup OneOf(vis, id)
    [] mode = "getkids" -> {id} \cup KidsOf(vis, id)
    [] mode = "getone"  -> {id} \cup OneOf(vis, id)
    [] mode = "build"   -> LoadRec(vis, id)
    [] OTHER            -> {id}
\* of several rows that fit a single reference one is loaded
LoadedRight(vis, id, mode, got) ==
  LET deep == mode = "build"
      par  == IF deep THEN {k \in got : vis[k].t = "node"} ELSE {id}
      kids == IF mode \in {"get", "getkids", "build"} THEN UNION {KidsOf(vis, k) : k \in par} ELSE {}
      ones == [k \in par |-> OneOf(vis, k)]
      one  == got \cap UNION {ones[k] : k \in par}
  IN /\ got = {id} \cup kids \cup one
     /\ IF mode \in {"get", "getone", "build"}
        THEN \A k \in par : Cardinality(one \cap ones[k]) = (IF ones[k] = {} THEN 0 ELSE 1)
        ELSE one = {}
LoadOk(c, e) ==
  LET vis == Visible(c)
      exists == e.root \in DOMAIN vis /\ vis[e.root].t = "node"
      got == {e.ents[k].id : k \in DOMAIN e.ents}
  IN CASE e.mode \in {"noid", "badarg", "badarg2"} -> e.r # "ok"
       [] e.mode = "custom" -> TRUE
       [] ~exists -> e.r = "notfound"
       [] OTHER ->
            /\ e.r = "ok"
            /\ got \subseteq DOMAIN vis /\ LoadedRight(vis, e.root, e.mode, got) /\ Len(e.ents) = Cardinality(got)
            /\ (e.mode = "getval" => e.one \in (IF OneOf(vis, e.root) = {} THEN {""} ELSE OneOf(vis, e.root)))
            /\ \A k \in DOMAIN e.ents : LET x == e.ents[k] IN
                 /\ x.t = vis[x.id].t /\ x.v = vis[x.id].v
                 /\ (x.id # e.root => x.p = vis[x.id].p)

DoLoad(e, c) ==
  LET ents == {e.ents[k] : k \in DOMAIN e.ents}
      PlaceOf(x) == IF x.p = "" THEN <<Root, "">> ELSE <<x.p, x.s>>
      ent2 == [n \in {x.e : x \in ents} |-> LET x == CHOOSE y \in ents : y.e = n IN
                 [t |-> x.t, id |-> x.id, v |-> x.v, dirty |-> FALSE, at |-> {PlaceOf(x)}]]
      snap2 == [n \in {x.e : x \in ents} |-> LET x == CHOOSE y \in ents : y.e = n IN
                 [pl |-> PlaceOf(x), v |-> x.v]]
  IN /\ Must({"P13"}, "loading returns exactly what is stored", c.fail = "" => LoadOk(c, e))
     /\ Must({"P01"}, "a failed query is reported", c.fail # "" => e.r # "ok")
     /\ Put(e.c, IF e.r # "ok" THEN c
                 ELSE [c EXCEPT !.ent = ent2 @@ @, !.snap = snap2 @@ @, !.ever = @ \cup DOMAIN ent2])

DoOp(e) ==
  LET c == cmds[e.c] IN
  /\ CASE e.op = "load" -> DoLoad(e, c)
       [] e.op = "new" ->
            Put(e.c, [c EXCEPT !.ent = Upd(@, e.e, [t |-> e.t, id |-> e.id, v |-> e.v, dirty |-> FALSE, at |-> {<<e.p, e.s>>}])])
       [] e.op = "rm" -> Put(e.c, [c EXCEPT !.ent[e.e].at = {}])
       [] e.op = "rmid" ->
            Put(e.c, [c EXCEPT !.ent = Upd(@, e.e, [t |-> e.t, id |-> e.id, v |-> e.v, dirty |-> FALSE, at |-> {}]),
                               !.snap = Upd(@, e.e, [pl |-> <<Root, "">>, v |-> e.v]),
                               !.ever = @ \cup {e.e}])
       [] e.op = "det" -> Put(e.c, [c EXCEPT !.ent[e.e].at = {}])
       [] e.op = "mov" -> Put(e.c, [c EXCEPT !.ent[e.e].at = {<<e.p, e.s>>}])
       [] e.op = "dup" -> Put(e.c, [c EXCEPT !.ent[e.e].at = @ \cup {<<e.p, e.s>>}])
       [] e.op = "set" -> Put(e.c, [c EXCEPT !.ent[e.e].v = e.v, !.ent[e.e].dirty = TRUE])
       [] e.op = "undirty" -> Put(e.c, [c EXCEPT !.ent[e.e].dirty = FALSE])
       [] e.op = "ev" -> Put(e.c, [c EXCEPT !.evs = Append(@, [n |-> e.evt, e |-> e.e, tx |-> e.txe])])
       [] e.op = "cxl" -> UNCHANGED cmds
       [] e.op \in {"dupadd", "rmnone"} -> Put(e.c, [c EXCEPT !.rerr = TRUE])
  /\ UNCHANGED <<rows, evrows, holder, ord>>

DoSave(e) ==
  LET c == cmds[e.c]
      c1 == IF c.rerr /\ c.o.shape # "icmd" THEN Fail(c, "err") ELSE c
  IN /\ Put(e.c, IF c1.fail = "" THEN [c1 EXCEPT !.s = StartSave(c1)] ELSE c1)
     /\ UNCHANGED <<rows, evrows, holder, ord>>

Content == {"P02", "P03", "P04", "P12"}

DoSaved(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P01", "P12"}, "a failed intermediate save is reported", (c.fail # "" \/ c.s.amb) => e.r # "ok")
  /\ Must({"P03"}, "an ambiguous entity is refused", c.s.amb => e.r # "ok")
  /\ Must({"P01", "P11", "P12"}, "a save without failure succeeds", (c.fail = "" /\ ~c.s.amb) => e.r = "ok")
  /\ Must(Content, "the save wrote every change", e.r = "ok" => WritesDone(c))
  /\ Must({"P06"}, "every hook of the save ran", e.r = "ok" => HooksDone(c))
  /\ Must({"P05", "P02"}, "children refer to their parent's identity", e.r = "ok" => ParentsRight(c))
  /\ Put(e.c, IF e.r = "ok" THEN TakeSnap(c) ELSE Fail(c, "err"))
  /\ UNCHANGED <<rows, evrows, holder, ord>>

\* ---- what the framework does on the ports
DoHook(e) ==
  LET c == cmds[e.c]
      h == <<e.k, e.e>>
      before == e.k \in {"bc", "bu", "bd"}
  IN /\ Must({"P06"}, "hooks belong to the changes of a running save",
             /\ c.s.on /\ ~Failed(c)
             /\ IF before THEN h \in c.s.B \cup c.s.BO ELSE h \in c.s.A \cup c.s.AO)
     /\ Must({"P06"}, "before-hooks ahead of the first write, after-hooks behind the last",
             IF before THEN ~c.s.wrote ELSE (c.s.B = {} /\ WritesDone(c)))
     /\ Must({"P01"}, "nothing runs after a failure or the commit", c.fail = "" /\ c.tx # "committed")
     /\ Must({"P10"}, "post-save callbacks come last", c.post = 0 \/ c.fail = "brk")
     /\ Put(e.c, LET c1 == [c EXCEPT !.s.B = @ \ {h}, !.s.A = @ \ {h}, !.s.BO = @ \ {h}, !.s.AO = @ \ {h}]
                     c2 == IF before /\ e.e \in DOMAIN c1.ent THEN [c1 EXCEPT !.ent[e.e].v = e.v] ELSE c1
                 IN IF e.r = "ok" THEN c2 ELSE Fail(c2, e.r))
     /\ UNCHANGED <<rows, evrows, holder, ord>>

DoGen(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P05"}, "identities are assigned before the first write", c.s.on /\ ~c.s.wrote /\ c.fail = "")
  /\ Put(e.c, [c EXCEPT !.gen = @ \cup {e.id}])
  /\ UNCHANGED <<rows, evrows, holder, ord>>

UsedIds(c) == {c.ent[x].id : x \in DOMAIN c.ent}

RowAfter(c, e) ==    \* delta entry of the written row
  LET vis == Visible(c) IN
  CASE e.op = "ins" -> [gone |-> FALSE, t |-> c.ent[e.e].t, p |-> e.p, s |-> e.s, v |-> e.v]
    [] e.op = "upd" -> [gone |-> FALSE, t |-> vis[e.id].t,
                        p |-> IF e.cp THEN e.p ELSE vis[e.id].p,
                        s |-> IF e.cs THEN e.s ELSE vis[e.id].s,
                        v |-> IF e.cv THEN e.v ELSE vis[e.id].v]
    [] OTHER -> [gone |-> TRUE, t |-> "", p |-> "", s |-> "", v |-> 0]

DoWrite(e) ==
  LET c == cmds[e.c]
      known == e.e \in DOMAIN c.ent
      pl == PlaceNow(c, e.e)
      x == c.ent[e.e]
      expected == CASE e.op = "ins" -> c.s.ins
                    [] e.op = "upd" -> c.s.upd
                    [] e.op = "del" -> c.s.del \cup c.s.opt
                    [] OTHER -> {}
  IN /\ Must({"P11"}, "a dry run writes nothing", ~c.o.dry)
     /\ Must({"P01"}, "writes happen in the command's transaction and not after a failure",
             c.fail = "" /\ (c.o.tx => (c.tx = "open" /\ e.intx)))
     /\ Must({"P10"}, "post-save callbacks come last", c.post = 0 \/ c.fail = "brk")
     /\ Must({"P03"}, "an ambiguous entity makes the command write nothing", ~c.s.amb)
     /\ Must(Content, "the write is one the changes call for, done once",
             c.s.on /\ ~c.s.amb /\ known /\ e.e \in expected)
     /\ Must({"P03"}, "a moved entity is updated",
             known /\ e.e \in DOMAIN c.snap /\ e.e \in Attached(c.ent) => e.op = "upd")
     /\ Must(Content \cup {"P05"}, "inserted data is the entity's data",
             e.op = "ins" /\ known => e.s = pl[2] /\ e.v = x.v)
     /\ Must(Content, "updated data is the entity's data",
             e.op = "upd" /\ known /\ e.e \in DOMAIN c.snap =>
                /\ (pl[1] # c.snap[e.e].pl[1] => e.cp)
                /\ (pl[2] # c.snap[e.e].pl[2] => e.cs)
                /\ (x.v # c.snap[e.e].v => e.cv)
                /\ (e.cs => e.s = pl[2])
                /\ (e.cv => e.v = x.v))
     /\ Must({"P16"}, "only changed columns are part of an update",
             e.op = "upd" /\ known /\ e.e \in DOMAIN c.snap =>
                /\ (e.cp => pl[1] # c.snap[e.e].pl[1])
                /\ (e.cs => pl[2] # c.snap[e.e].pl[2])
                /\ (e.cv => x.v # c.snap[e.e].v))
     /\ Must({"P05"}, "identity: kept if present, else fresh from the generator",
             known => IF x.id # "" THEN e.id = x.id
                      ELSE e.op = "ins" => IF c.o.shape \in {"create", "delete"}   \* own default generator
                                           THEN e.id # "" /\ e.id \notin UsedIds(c) \cup DOMAIN Visible(c)
                                           ELSE e.id \in c.gen \ UsedIds(c))
     /\ Must(Content, "the row written is the entity's own row", known /\ x.id # "" => e.id = x.id)
     /\ Must({"P06"}, "every before-hook ran ahead of the first write", c.s.B = {})
     /\ LET d2 == IF e.op = "upd" /\ e.id \notin DOMAIN Visible(c) THEN c.d ELSE Upd(c.d, e.id, RowAfter(c, e))
            c1 == IF known /\ x.id = "" THEN [c EXCEPT !.ent[e.e].id = e.id] ELSE c
            c2 == [c1 EXCEPT !.s.ins = @ \ (IF e.op = "ins" THEN {e.e} ELSE {}),
                             !.s.upd = @ \ (IF e.op = "upd" THEN {e.e} ELSE {}),
                             !.s.del = @ \ (IF e.op = "del" THEN {e.e} ELSE {}),
                             !.s.opt = @ \ (IF e.op = "del" THEN {e.e} ELSE {}),
                             !.s.wrote = TRUE,
                             !.nw = @ + 1,
                             !.s.par = IF e.op = "ins" \/ e.cp THEN Upd(@, e.e, e.p) ELSE @]
        IN IF c.o.tx
           THEN /\ Put(e.c, [c2 EXCEPT !.d = d2])
                /\ UNCHANGED rows
           ELSE /\ rows' = LET a == Visible([c EXCEPT !.d = d2]) IN a
                /\ Put(e.c, c2)
     /\ UNCHANGED <<evrows, holder, ord>>

DoQuery(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P13", "P01"}, "queries run in the command's transaction", c.o.tx => (c.tx = "open" /\ e.intx))
  /\ UNCHANGED vars

DoFault(e) ==        \* a port call failed or panicked
  /\ Must({"P01"}, "nothing runs after the commit", cmds[e.c].tx # "committed")
  /\ Must({"P10"}, "post-save callbacks come last", cmds[e.c].post = 0 \/ cmds[e.c].fail = "brk")
  /\ Put(e.c, IF e.r = "err" /\ "rm" \in DOMAIN e /\ e.rm     \* Remove reports its error when the command ends
              THEN [cmds[e.c] EXCEPT !.rerr = TRUE]
              ELSE Fail(cmds[e.c], e.r))
  /\ UNCHANGED <<rows, evrows, holder, ord>>

DoDupKey(e) ==
  /\ Must(Content, "no entity is inserted twice", FALSE)
  /\ Put(e.c, Fail(cmds[e.c], "err"))
  /\ UNCHANGED <<rows, evrows, holder, ord>>

DoEvRow(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P11"}, "a dry run records no event", ~c.o.dry)
  /\ Must({"P10"}, "post-save callbacks come last", c.post = 0 \/ c.fail = "brk")
  /\ Must({"P07"}, "one row per event of the command, in its transaction",
          /\ c.o.persist /\ c.final /\ c.fail = "" /\ WritesDone(c)
          /\ e.evt \in RangeOf(EvNames(c)) \ c.rec
          /\ (c.o.tx => (c.tx = "open" /\ e.intx)))
  /\ Must({"P01"}, "writes happen in the command's transaction and not after a failure",
          c.fail = "" /\ (c.o.tx => (c.tx = "open" /\ e.intx)))
  /\ Put(e.c, [c EXCEPT !.rec = @ \cup {e.evt}, !.nw = @ + 1])
  /\ evrows' = IF c.o.tx THEN evrows ELSE evrows \cup {e.evt}
  /\ UNCHANGED <<rows, holder, ord>>

DoSend(e) ==         \* e.ev is "send" (ordinary) or "prep" (transactional, prepared)
  LET c == cmds[e.c]
      got == RangeOf(e.evs)
      all == EvNames(c)
  IN /\ Must({"P11"}, "a dry run sends no event", ~c.o.dry)
     /\ Must({"P07"}, "events are complete, unique and in creation order",
             /\ e.evs = SelectSeq(all, LAMBDA n : n \in got)
             /\ IF "P08" \in Check \/ Split(c) = FALSE \/ TRUE
                THEN (MustNames(c, "prep") \cup MustNames(c, "send")) \cap (MayNames(c, e.ev)) \subseteq got
                ELSE TRUE)
     /\ Must({"P07"}, "events are sent once, after all writes and before the commit",
             /\ c.final /\ c.fail = "" /\ ~c.s.amb /\ WritesDone(c)
             /\ c.out[e.ev] = "no"
             /\ (c.o.tx => c.tx = "open"))
     /\ Must({"P01"}, "nothing runs after a failure", c.fail = "")
     /\ Must({"P08"}, "transactional and ordinary events go their own ways",
             /\ got \subseteq MayNames(c, e.ev)
             /\ MustNames(c, e.ev) \subseteq got
             /\ (e.ev = "prep" => c.tx = "open"))
     /\ Put(e.c, LET c1 == [c EXCEPT !.out[e.ev] = e.r] IN IF e.r = "ok" THEN c1 ELSE Fail(c1, e.r))
     /\ UNCHANGED <<rows, evrows, holder, ord>>

DoCommit(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P01"}, "only a command without failure commits, once",
          ~Failed(c) /\ c.main = "ok" /\ c.tx = "open" /\ e.r # "notx")
  /\ Must(Content, "everything is written before the commit", ~c.s.amb /\ WritesDone(c))
  /\ Must({"P05", "P02"}, "children refer to their parent's identity", ParentsRight(c))
  /\ Must({"P06"}, "every hook ran, none failed", HooksDone(c) /\ c.fail = "")
  /\ Must({"P07"}, "every event was sent and recorded before the commit",
          EventsDone(c) /\ RowsDone(c) /\ ~NoBus(c) /\ \A k \in {"prep", "send"} : c.out[k] \in {"no", "ok"})
  /\ Must({"P08"}, "transactional events are prepared before the commit",
          c.o.dry \/ (MustNames(c, "prep") # {} => c.out["prep"] = "ok"))
  /\ IF e.r = "ok"
     THEN /\ rows' = Visible(c)
          /\ evrows' = evrows \cup c.rec
          /\ Put(e.c, [c EXCEPT !.tx = "committed", !.d = EmptyFn])
     ELSE /\ Put(e.c, [Fail(c, IF e.r = "panic" THEN "panic" ELSE "err") EXCEPT !.tx = "failed", !.d = EmptyFn])
          /\ UNCHANGED <<rows, evrows>>
  /\ UNCHANGED <<holder, ord>>

DoRollback(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P01"}, "one rollback, and only after a failure", (Failed(c) \/ MayFail(c)) /\ c.tx \in {"open", "failed"} /\ e.r = "ok")
  /\ Put(e.c, [Fail(c, "err") EXCEPT !.tx = "rolled", !.d = EmptyFn])
  /\ UNCHANGED <<rows, evrows, holder, ord>>

DoBusEnd(e) ==       \* e.ev is "busCommit" or "busRollback"
  LET c == cmds[e.c] IN
  /\ Must({"P08"}, "prepared events are confirmed only after the commit and withdrawn only on failure, once",
          /\ c.res = "none"
          /\ IF e.ev = "busCommit"
             THEN c.out["prep"] = "ok" /\ c.tx = "committed" /\ e.tok = e.c
             ELSE c.out["prep"] # "no" /\ Failed(c) /\ c.tx \in {"open", "rolled"} /\ (c.out["prep"] = "ok" => e.tok = e.c))
  /\ Put(e.c, [c EXCEPT !.res = e.ev])
  /\ UNCHANGED <<rows, evrows, holder, ord>>

DoPost(e) ==
  LET c == cmds[e.c] IN
  /\ Must({"P10"}, "post-save callbacks: the command's own, in order, after success, commit and unlock",
          \/ c.fail = "brk"
          \/ /\ Over(c)
             /\ c.held = {}
             /\ c.post < Len(c.hooks) /\ c.hooks[c.post + 1] = e.h
             /\ e.res /\ ~e.err)
  /\ Put(e.c, [c EXCEPT !.post = @ + 1])
  /\ UNCHANGED <<rows, evrows, holder, ord>>

Expect(c) == IF ~Failed(c) THEN "ok" ELSE IF c.fail \in {"brk", "panic"} THEN c.fail ELSE "err"

DoRet(e) ==
  LET c == cmds[e.c]
      r == IF e.panic THEN "panic" ELSE IF e.err THEN "err" ELSE IF e.brk THEN "brk" ELSE "ok"
  IN /\ Must({"P01", "P11"}, "the outcome is reported as it was", r = Expect(c) \/ (MayFail(c) /\ r = "err"))
     /\ Must({"P01"}, "a success lists what was written, and carries the output", r = "ok" => e.acts = c.nw /\ e.outok)
     /\ Must({"P06"}, "a hook's error fails the command", c.fail # "" => r # "ok")
     /\ Must({"P03"}, "an ambiguous entity is refused", c.final /\ c.s.amb => r = "err")
     /\ Must({"P05"}, "a generator failure fails the command", c.fail # "" => r # "ok")
     /\ Must({"P01"}, "no transaction is left open and success means committed",
             /\ c.tx # "open" /\ (c.tx = "failed" \/ c.tx # "none" => TRUE)
             /\ (r = "ok" /\ c.o.tx => c.tx = "committed")
             /\ (c.tx = "none" /\ c.o.tx => r # "ok"))
     /\ Must({"P09"}, "every lock was given back", c.held = {})
     /\ Must({"P09"}, "a command that lacks a lock fails", r = "ok" => c.got = c.keys)
     /\ Must({"P10"}, "all callbacks ran after success, none after failure",
             CASE r = "ok" -> c.post = Len(c.hooks) [] r = "brk" -> TRUE [] OTHER -> c.post = 0)
     /\ Must({"P08"}, "prepared events were resolved unless the commit itself failed",
             /\ (c.out["prep"] = "ok" /\ c.tx = "committed" => c.res = "busCommit")
             /\ (c.out["prep"] = "ok" /\ c.tx = "rolled" /\ r \in {"err", "brk"} => c.res = "busRollback")
             /\ (c.tx = "failed" => c.res = "none"))
     /\ Must(Content, "everything is written", r = "ok" => WritesDone(c))
     /\ Must({"P06"}, "every hook ran", r = "ok" => HooksDone(c))
     /\ Must({"P07"}, "every event was sent", r = "ok" => EventsDone(c) /\ RowsDone(c))
     /\ Must({"P05", "P02"}, "children refer to their parent's identity", r = "ok" => ParentsRight(c))
     /\ Must({"P05"}, "entities carry the identity that was stored",
             r = "ok" /\ ~c.o.dry => \A k \in DOMAIN e.ids : LET n == e.ids[k].e IN
                n \in DOMAIN c.ent /\ n \in c.ever \cup Attached(c.ent) => e.ids[k].id = c.ent[n].id /\ e.ids[k].id # "")
     /\ Put(e.c, [c EXCEPT !.done = TRUE])
     /\ UNCHANGED <<rows, evrows, holder, ord>>

RowSet(f) == {<<i, f[i].t, f[i].p, f[i].s, f[i].v>> : i \in DOMAIN f}
DoFin(e) ==
  /\ Must(Content \cup {"P01", "P11"}, "the stored rows are the committed ones",
          RowSet(rows) = {<<e.rows[k].id, e.rows[k].t, e.rows[k].p, e.rows[k].s, e.rows[k].v>> : k \in DOMAIN e.rows})
  /\ Must({"P07", "P01"}, "the recorded events are the committed ones",
          evrows = RangeOf(e.evrows) /\ Len(e.evrows) = Cardinality(evrows))
  /\ Must({"P09"}, "all commands ended", \A n \in DOMAIN cmds : cmds[n].done)
  /\ UNCHANGED vars

DoStuck(e) ==
  /\ Must({"P09"}, "commands with overlapping keys do not deadlock", FALSE)
  /\ UNCHANGED vars

Step(e) ==
  CASE e.ev = "init" -> DoInit(e)
    [] e.ev = "cmd" -> DoCmd(e)
    [] e.ev = "cinit" -> DoCInit(e)
    [] e.ev = "lock" -> DoLock(e)
    [] e.ev = "unlock" -> DoUnlock(e)
    [] e.ev = "begin" -> DoBegin(e)
    [] e.ev \in {"mainstart", "buildstart"} -> DoMainStart(e)
    [] e.ev = "mainend" -> DoMainEnd(e)
    [] e.ev = "op" -> DoOp(e)
    [] e.ev = "save" -> DoSave(e)
    [] e.ev = "saved" -> DoSaved(e)
    [] e.ev = "hook" -> DoHook(e)
    [] e.ev = "gen" -> DoGen(e)
    [] e.ev = "w" -> DoWrite(e)
    [] e.ev = "q" -> DoQuery(e)
    [] e.ev = "x" -> DoFault(e)
    [] e.ev = "dupkey" -> DoDupKey(e)
    [] e.ev = "evrow" -> DoEvRow(e)
    [] e.ev \in {"send", "prep"} -> DoSend(e)
    [] e.ev = "commit" -> DoCommit(e)
    [] e.ev = "rollback" -> DoRollback(e)
    [] e.ev \in {"busCommit", "busRollback"} -> DoBusEnd(e)
    [] e.ev = "post" -> DoPost(e)
    [] e.ev = "ret" -> DoRet(e)
    [] e.ev = "fin" -> DoFin(e)
    [] e.ev = "stuck" -> DoStuck(e)
=============================================================================
