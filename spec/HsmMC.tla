------------------------------- MODULE HsmMC -------------------------------
(***************************************************************************)
(* Exploration of the semantics of module Hsm for a set of machines.       *)
(*                                                                         *)
(* The environment is as free as a user of the library: in every idle      *)
(* state it sends any event (or calls set()), it decides the outcome of    *)
(* every guard when the guard is first evaluated, and, where the machine   *)
(* description asks for it, makes any callback throw or call               *)
(* process_event. All design-level properties are checked in every state.  *)
(* Every completed call is printed as an edge of the machine's state       *)
(* graph; the test generator covers these edges in the implementation.     *)
(*                                                                         *)
(* m.mc : [throw : BOOLEAN, nest : Seq(event), nests : bound on nested     *)
(*         calls, set : BOOLEAN, dep : BOOLEAN (replace dependencies), q : *)
(*         bound on deferred events, fine : BOOLEAN (visit every micro     *)
(*         step)]                                                          *)
(***************************************************************************)
EXTENDS Hsm, Json, IOUtils

Machines == JsonDeserialize(IOEnv.HSM_MACHINES)
CM == TLCEval([k \in DOMAIN Machines |-> TLCEval(Compile(Machines[k]))])

VARIABLES mi, phase, c, pre, lab
vars == <<mi, phase, c, pre, lab>>

M == CM[mi]
Multi == {p \in CompSet(M.m) : p # M.root /\ M.n[p] > 1}
NoLab == [op |-> "", ev |-> "", r |-> 0, p |-> "", s |-> "", thr |-> <<>>, nest |-> <<>>,
          fin |-> <<>>]

(* the canonical form of a configuration between calls: data, identities   *)
(* and histories of the last call abstracted away                          *)
Canon(X) == [X EXCEPT !.q = [j \in DOMAIN @ |-> [ev |-> @[j].ev, id |-> 0, touch |-> 0]],
                      !.objs = [s \in DOMAIN @ |-> IF @[s] = -1 THEN -1 ELSE 0],
                      !.out = <<>>, !.tk = <<>>, !.val = <<>>, !.thr = <<>>, !.nest = <<>>,
                      !.ret = FALSE, !.thrown = FALSE, !.touch = 0]

Idle(X) == [regs |-> X.regs, nreg |-> X.nreg, hist |-> X.hist, q |-> X.q, objs |-> X.objs]

Init == /\ mi \in DOMAIN Machines
        /\ phase = "idle"
        /\ c = Canon(InitC(CM[mi], 0))
        /\ pre = <<>>
        /\ lab = NoLab
        /\ PrintT("INIT " \o ToJson([m |-> mi, at |-> Idle(c)]))

(* the callback the machine is about to run, or <<>> *)
Pending ==
    LET f == Top(c) IN
    CASE f.pc = "cb" /\ f.cb # <<>> /\ Head(f.cb).k # "log" ->
            LET b == Head(f.cb) IN <<(IF b.k \in {"create", "reuse"} THEN "act" ELSE b.k), b.n>>
      [] f.pc = "cand" /\ f.cl # <<>> /\ Head(f.cl).g -> <<"guard", ToString(Head(f.cl).id)>>
      [] f.pc = "result" /\ f.res = "invalid" /\ M.m.handler -> <<"unexp", "">>
      [] OTHER -> <<>>
FirstTime(kn) == \A j \in DOMAIN c.out : <<c.out[j].k, c.out[j].n>> # kn
FactoryNext == Top(c).pc = "cb" /\ Head(Top(c).cb).k \in {"create", "reuse"}

Calls == {x \in DOMAIN c.stk : c.stk[x].k = "call"}
CanThrow == M.m.mc.throw /\ lab.thr = <<>> /\ Pending # <<>> /\ FirstTime(Pending)
CanNest  == /\ Len(M.m.mc.nest) > 0 /\ Len(lab.nest) < M.m.mc.nests /\ Pending # <<>> /\ FirstTime(Pending)
            /\ Pending[1] \in {"act", "exit", "entry", "unexp"} /\ ~FactoryNext
Choice == c.stk # <<>> /\ (NeedsGuard(M, c) \/ CanThrow \/ CanNest)

PendingIn(X) ==
    LET f == Top(X) IN
    \/ f.pc = "cb" /\ f.cb # <<>> /\ Head(f.cb).k # "log"
    \/ f.pc = "cand" /\ f.cl # <<>> /\ Head(f.cl).g
    \/ f.pc = "result" /\ f.res = "invalid" /\ M.m.handler
Stop(X) == M.m.mc.fine \/ NeedsGuard(M, X)
           \/ ((M.m.mc.throw \/ Len(M.m.mc.nest) > 0) /\ PendingIn(X))
RECURSIVE RunOn(_)
RunOn(X) == IF X.stk = <<>> \/ Stop(X) THEN X ELSE RunOn(MStep(M, X))
Advance(X) == RunOn(MStep(M, X))

Send == /\ phase = "idle"
        /\ \E k \in DOMAIN M.m.evs :
             LET ev == M.m.evs[k] IN
             /\ c' = Advance(Begin(c, ev, 0, <<>>, <<>>, <<>>))
             /\ lab' = [NoLab EXCEPT !.op = "P", !.ev = ev]
        /\ pre' = c
        /\ phase' = "busy"
        /\ UNCHANGED mi

Set == /\ phase = "idle" /\ M.m.mc.set
       /\ \E r \in 1..M.maxr : \E x \in M.plc :
            /\ r <= c.nreg
            /\ \/ Multi = {}
               \/ M.n[M.root] = 1 /\ (c.nreg = 1 \/ x[1] = c.regs[r][1] \/ (r = 1 /\ x[1] \notin Multi))
            /\ M.m.st[x[2]].cu = FALSE
            /\ c' = [SetState(M, c, r, x[1], x[2]) EXCEPT !.ret = TRUE]
            /\ lab' = [NoLab EXCEPT !.op = "S", !.r = r, !.p = x[1], !.s = x[2]]
       /\ pre' = c
       /\ phase' = "busy"
       /\ UNCHANGED mi

SetDep == /\ phase = "idle" /\ M.m.mc.dep
          /\ c' = [c EXCEPT !.dep = 1 - @]
          /\ lab' = [NoLab EXCEPT !.op = "D"]
          /\ pre' = c
          /\ phase' = "busy"
          /\ UNCHANGED mi

GuardChoice == /\ phase = "busy" /\ c.stk # <<>> /\ NeedsGuard(M, c)
               /\ LET id == Head(Top(c).cl).id
                      loop == M.m.loop /\ Top(c).k = "anon"   \* may be part of a cycle
                  IN \E b \in (IF loop THEN 0..2 ELSE {0, Always}) :
                       /\ c' = [c EXCEPT !.val = (id :> b) @@ @]
                       /\ lab' = IF loop THEN [lab EXCEPT !.fin = @ \o [j \in 1..b |-> id]] ELSE lab
               /\ UNCHANGED <<mi, phase, pre>>

(* the next callback throws (nests), or it does not and the call goes on   *)
Plan == /\ phase = "busy" /\ c.stk # <<>> /\ ~NeedsGuard(M, c)
        /\ \/ /\ CanThrow
              /\ c' = Advance([c EXCEPT !.thr = Pending])
              /\ lab' = [lab EXCEPT !.thr = Pending]
           \/ /\ CanNest
              /\ \E k \in DOMAIN M.m.mc.nest :
                 \E b \in (IF M.m.mc.throw THEN BOOLEAN ELSE {FALSE}) :
                   LET n == [k |-> Pending[1], n |-> Pending[2], ev |-> M.m.mc.nest[k], id |-> 0, c |-> b] IN
                   /\ c' = Advance([c EXCEPT !.nest = <<n>>])
                   /\ lab' = [lab EXCEPT !.nest = Append(@, n)]
        /\ UNCHANGED <<mi, phase, pre>>

Run == /\ phase = "busy" /\ c.stk # <<>> /\ ~NeedsGuard(M, c)
       /\ c' = Advance(c)
       /\ UNCHANGED <<mi, phase, pre, lab>>

Settle == /\ phase = "busy" /\ c.stk = <<>>
          /\ phase' = "idle"
          /\ c' = Canon(c)
          /\ pre' = <<>>
          /\ lab' = NoLab
          /\ UNCHANGED mi
          /\ PrintT("EDGE " \o ToJson([m |-> mi, pre |-> Idle(pre), post |-> Idle(Canon(c)),
                lab |-> lab, ev |-> [k \in DOMAIN c.tk |-> c.tk[k].cand.id],
                tv |-> {g \in DOMAIN c.val : c.val[g] = Always}, known |-> DOMAIN c.val,
                ret |-> c.ret]))

Next == Send \/ Set \/ SetDep \/ GuardChoice \/ Plan \/ Run \/ Settle
Spec == Init /\ [][Next]_vars

(* bound on deferred events; no use of a state object that a factory has   *)
(* not made yet (known limitation KF6)                                     *)
CapOf == atoi(IOEnv.HSM_CAP)
Cap    == CapOf = 0 \/ TLCGet("distinct") < CapOf     \* exploration of a part only
QBound == /\ Len(c.q) <= M.m.mc.q
          /\ c.stk = <<>> \/ NeedsGuard(M, c) => \A r \in 1..c.nreg : c.objs[c.regs[r][2]] # -1
          /\ c.stk # <<>> /\ NeedsGuard(M, c) => c.objs[Head(Top(c).cl).tgt] # -1

(* -------------------------- design properties -------------------------- *)
Busy     == phase = "busy" /\ c.stk # <<>>
Returned == phase = "busy" /\ c.stk = <<>>        \* the outcome is visible
Plain    == Returned /\ lab.op = "P" /\ lab.thr = <<>> /\ lab.nest = <<>>
Taken(seg, k) == SelectSeq(c.tk, LAMBDA x : x.seg = seg /\ x.k = k)
TopTaken == Taken("top", "disp")
Cbs(k)   == SelectSeq(c.out, LAMBDA x : x.k = k)

TypeOK ==
    /\ c.nreg \in 1..M.maxr
    /\ \A r \in 1..c.nreg : c.regs[r] \in M.plc
    /\ \A p \in CompSet(M.m) : \A i \in 1..M.n[p] : c.hist[p][i] \in M.plc /\ c.hist[p][i][1] = p
    /\ \A j \in DOMAIN c.q : c.q[j].ev \in EvSet(M.m)

(* C01, declaratively: the transition taken in a region is enabled and no  *)
(* other enabled one precedes it in the order: external before internal,   *)
(* later declared before earlier                                           *)
Pos(id) == IF \E i \in DOMAIN M.rows : M.rows[i].row.id = id
           THEN Cardinality({i \in DOMAIN M.rows : i <= (CHOOSE j \in DOMAIN M.rows :
                  M.rows[j].row.id = id /\ \A k \in DOMAIN M.rows : M.rows[k].row.id = id => k <= j)})
           ELSE 0
Holds(v, id) == id \in DOMAIN v /\ v[id] > 0
Val(id) == Holds(c.val, id)
Higher(a, b) == \/ ~a.int /\ b.int
                \/ ~a.int /\ ~b.int /\ Pos(a.id) > Pos(b.id)
                \/ a.int /\ b.int /\ SrcOwn(M, a) /\ ~SrcOwn(M, b)
C01_Priority ==
    Returned => \A k \in DOMAIN c.tk :
        LET t == c.tk[k]
            evn == IF t.k = "anon" THEN "none" ELSE IF t.seg = "recall" THEN "?" ELSE
                   IF t.d = 1 THEN lab.ev ELSE IF Len(lab.nest) = 1 THEN lab.nest[1].ev ELSE "?"
        IN /\ t.cand.g => Holds(t.v, t.cand.id)
           /\ evn # "?" =>
               LET cs == SeqToSet(M.tab[t.from][evn]) IN
               /\ t.cand \in cs
               /\ \A d \in cs : (d # t.cand /\ ~d.df /\ Higher(d, t.cand)) => (d.g /\ ~Holds(t.v, d.id))

(* at most one transition per region for the event itself *)
C01_OnePerRegion ==
    Plain => \A a, b \in DOMAIN TopTaken : a # b => TopTaken[a].r # TopTaken[b].r

(* C02: nothing but transitions and set moves a region *)
C02_NoSpuriousMove ==
    Returned /\ lab.op = "P" /\ c.tk = <<>> =>
        /\ c.regs = pre.regs /\ c.nreg = pre.nreg /\ c.hist = pre.hist

(* C03 *)
C03_GuardsFailed ==
    (Plain /\ c.tk = <<>> /\ Cbs("guard") # <<>>) =>
        /\ Len(c.out) = Len(Cbs("guard"))
        /\ ~c.ret
        /\ \A j \in DOMAIN c.out : ~c.out[j].r

(* C04: the callbacks of a transition run in order and without interruption *)
C04_Order ==
    Plain => LET seq == ConcatAll([k \in DOMAIN c.tk |->
                          LET x == c.tk[k]
                              evn == IF x.k = "anon" THEN "none" ELSE IF x.seg = "recall" THEN pre.q[1].ev ELSE lab.ev IN
                          [j \in DOMAIN x.cand.cb |->
                             LET b == x.cand.cb[j] IN
                             CASE b.k \in {"create", "reuse"} -> <<"act", b.n>>
                               [] b.k = "log" -> <<"log", x.cand.src \o "|" \o evn \o "|" \o x.cand.tgt>>
                               [] OTHER -> <<b.k, b.n>>]])
                 eff == SelectSeq(c.out, LAMBDA x : x.k \notin {"guard", "unexp"})
             IN [j \in DOMAIN eff |-> <<eff[j].k, eff[j].n>>] = seq

(* the machine reports the target while the callbacks run *)
C04_TargetVisible ==
    (phase = "busy" /\ c.stk # <<>> /\ Top(c).k \in {"disp", "anon"} /\ Top(c).pc = "cb" /\ Top(c).cb # <<>>
       /\ ~Top(c).cur.int /\ ~Top(c).cur.hist /\ Top(c).left = "" /\ lab.nest = <<>>)
      => c.regs[Top(c).r] = Top(c).cur.to

C05_Internal ==
    Plain => ((\A k \in DOMAIN c.tk : c.tk[k].cand.int) =>
        /\ c.regs = pre.regs /\ c.hist = pre.hist
        /\ Cbs("exit") = <<>> /\ Cbs("entry") = <<>>)

(* C06: unless a region without event-less rows has ended the completion   *)
(* run, no further pass could take a completion transition                 *)
Stops(r) == M.tab[c.regs[r]]["none"] = <<>>
C06_Complete ==
    (Plain /\ c.tk # <<>> /\ \A r \in 1..c.nreg : ~Stops(r)) =>
        \A r \in 1..c.nreg : \A j \in DOMAIN M.tab[c.regs[r]]["none"] :
            LET d == M.tab[c.regs[r]]["none"][j] IN d.g /\ ~Val(d.id)
C06_OnlyAfter == Returned /\ lab.op = "P" /\ TopTaken = <<>> => c.tk = <<>>

C07_RootRegions == c.nreg >= M.n[M.root]
C07_EachOnce ==
    Plain => LET rs == [k \in DOMAIN TopTaken |-> TopTaken[k].r]
             IN \A a, b \in DOMAIN rs : a < b => rs[a] < rs[b]
Single(p) == M.n[p] = 1
C07_Independent ==   \* with regions of their own, what a region takes depends on its state alone
    (Plain /\ M.n[M.root] > 1) =>
        \A r \in 1..pre.nreg :
            LET cs == M.tab[pre.regs[r]][lab.ev]
                en == SelectSeq(cs, LAMBDA d : ~d.df /\ (d.g => Val(d.id)))
                defers == \E j \in DOMAIN cs : cs[j].df
                took == SelectSeq(TopTaken, LAMBDA x : x.r = r)
            IN IF defers \/ en = <<>> THEN took = <<>>
               ELSE Len(took) = 1 /\ took[1].cand = en[1]

C08_Whole ==
    (~Busy /\ M.n[M.root] = 1) =>
        \A p \in Multi : (\E r \in 1..c.nreg : c.regs[r][1] = p) =>
            c.nreg = M.n[p] /\ \A r \in 1..c.nreg : c.regs[r][1] = p
C08_OnlyThen ==
    (~Busy /\ M.n[M.root] = 1 /\ c.regs[1][1] \notin Multi) => c.nreg = 1

(* only active regions react, and after a composite has been left only     *)
(* those of the root state get the event                                   *)
C08_ActiveOnly == Returned => \A k \in DOMAIN c.tk : c.tk[k].act
C08_LeaveOnce ==
    Plain => \A a, b \in DOMAIN TopTaken :
        (a < b /\ ~TopTaken[a].cand.int /\ TopTaken[a].from[1] \in Multi
             /\ TopTaken[a].cand.decl # TopTaken[a].from[1]) => TopTaken[b].r <= M.n[M.root]

(* C09: what is recorded for a composite changes only when it is left *)
C09_History ==
    Returned /\ lab.op = "P" =>
        \A p \in CompSet(M.m) :
            (\A k \in DOMAIN c.tk : c.tk[k].from[1] # p) => c.hist[p] = pre.hist[p]
C09_SetKeeps == Returned /\ lab.op = "S" => c.hist = pre.hist

Count(q, ev) == Cardinality({j \in DOMAIN q : q[j].ev = ev})
C10_Conservation ==
    Plain =>
        IF c.ret
        THEN \/ pre.q = <<>> /\ c.q = <<>>
             \/ pre.q # <<>> /\ [j \in DOMAIN c.q |-> c.q[j].ev] =
                                [j \in 1..(Len(pre.q) - 1) |-> pre.q[j + 1].ev]
             \/ pre.q # <<>> /\ [j \in DOMAIN c.q |-> c.q[j].ev] =
                                Append([j \in 1..(Len(pre.q) - 1) |-> pre.q[j + 1].ev], pre.q[1].ev)
        ELSE \/ [j \in DOMAIN c.q |-> c.q[j].ev] = [j \in DOMAIN pre.q |-> pre.q[j].ev]
             \/ /\ [j \in DOMAIN c.q |-> c.q[j].ev] = Append([j \in DOMAIN pre.q |-> pre.q[j].ev], lab.ev)
                /\ \E r \in 1..pre.nreg : lab.ev \in SeqToSet(M.m.st[pre.regs[r][2]].df)
                /\ \A j \in DOMAIN c.out : c.out[j].k = "guard"

C11_Result == Plain => (c.ret <=> TopTaken # <<>>)

C12_Unexpected ==
    Plain => LET none == \A r \in 1..pre.nreg : M.tab[pre.regs[r]][lab.ev] = <<>> IN
             IF M.m.handler /\ none
             THEN Len(c.out) = 1 /\ c.out[1].k = "unexp" /\ c.regs = pre.regs /\ ~c.ret
             ELSE Cbs("unexp") = <<>>

(* C13: every callback works on the one object of its states *)
IsEffect(x) == x.k \in {"act", "exit", "entry", "unexp"}
Factories == UNION {{M.rows[i].row.a[j].n : j \in {x \in DOMAIN M.rows[i].row.a : M.rows[i].row.a[x].k \in {"create", "reuse"}}}
                    : i \in DOMAIN M.rows}
C13_Data ==
    (Returned /\ lab.op = "P" /\ Factories = {}) =>
        \A s \in StateSet(M.m) :
            c.objs[s] = Cardinality({j \in DOMAIN c.out : IsEffect(c.out[j]) /\ c.out[j].src = s})
                      + Cardinality({j \in DOMAIN c.out : IsEffect(c.out[j]) /\ c.out[j].tgt = s})
C13_SetKeeps == Returned /\ lab.op \in {"S", "D"} => c.objs = pre.objs

(* C15: all callbacks get the present dependencies, which only             *)
(* set_dependency replaces; it changes nothing else                        *)
C15_Present == Returned => \A j \in DOMAIN c.out :
    (c.out[j].k \in {"guard", "act", "exit", "entry", "unexp"} /\ c.out[j].n \notin Factories) => c.out[j].dep = c.dep
C15_OnlyThen == Returned /\ lab.op # "D" => c.dep = pre.dep
C15_NothingElse == Returned /\ lab.op = "D" => c.dep # pre.dep /\ Idle(c) = Idle(pre) /\ c.out = <<>>

(* C16: the callbacks see one event object, each with the changes of those *)
(* before, and so does the caller                                          *)
C16_OneEvent ==
    (Plain /\ pre.q = <<>> /\ Factories = {}) =>
        LET e == SelectSeq(c.out, LAMBDA x : IsEffect(x) /\ x.ev # "none") IN
        /\ \A j \in DOMAIN e : e[j].ev = lab.ev /\ e[j].touch = j - 1
        /\ c.touch = Len(e)
(* a deferred event keeps the changes made before it was deferred: none, as *)
(* it is deferred only if no region has processed it                        *)
C16_Deferred == Returned /\ lab.op = "P" /\ lab.thr = <<>> /\ Len(c.q) > Len(pre.q) => c.q[Len(c.q)].touch = 0

C17_Set ==
    Returned /\ lab.op = "S" =>
        /\ c.regs[lab.r] = <<lab.p, lab.s>>
        /\ c.out = <<>>
        /\ \A r \in 1..Min2(pre.nreg, c.nreg) : r # lab.r => c.regs[r] = pre.regs[r]

(* C20: an object appears only by a factory *)
C20_OnlyFactories ==
    Returned => \A s \in StateSet(M.m) :
        /\ (pre.objs[s] = -1 /\ c.objs[s] # -1) =>
              \E k \in DOMAIN c.tk : c.tk[k].cand.tgt = s /\ \E j \in DOMAIN c.tk[k].cand.cb : c.tk[k].cand.cb[j].k = "create"
        /\ pre.objs[s] # -1 => c.objs[s] # -1

(* C22: rows of a composite apply only inside it, those of the enclosing   *)
(* table only to its direct sub states                                     *)
C22_Scope ==
    \A x \in M.plc : \A ev \in DOMAIN M.tab[x] : \A j \in DOMAIN M.tab[x][ev] :
        LET d == M.tab[x][ev][j] IN
        (~d.int /\ ~d.df) =>
            LET f == CHOOSE f \in SeqToSet(M.rows) : f.row.id = d.id IN
            \/ f.p = x[1] /\ f.row.s = x[2]
            \/ f.row.sk # "st" /\ f.row.sp = x[1] /\ f.row.s = x[2]
            \/ f.row.sk = "st" /\ f.row.s = x[1] /\ x[2] \in Children(M.m, x[1])

C23_Throw ==
    (Returned /\ c.thrown) =>
        /\ ~c.ret
        /\ c.out # <<>>
        /\ <<c.out[Len(c.out)].k, c.out[Len(c.out)].n>> = lab.thr
        /\ (c.out[Len(c.out)].k = "guard" /\ c.tk = <<>> => c.regs = pre.regs /\ c.hist = pre.hist)

C24_NestedReturns ==
    (Returned /\ ~c.thrown) =>
        Cardinality({j \in DOMAIN c.out : c.out[j].k = "ret"}) = Len(lab.nest)
=============================================================================
