-------------------------------- MODULE Hsm --------------------------------
(***************************************************************************)
(* The semantics of hsm state machines.                                    *)
(*                                                                         *)
(* Part 1 gives meaning to a machine description (transition tables,       *)
(* composites, pseudo states): which candidate transitions a state has for *)
(* an event, and in which priority.                                        *)
(*                                                                         *)
(* Part 2 is the dynamic semantics: one call of the API is executed in     *)
(* small steps by an explicit control stack, one visible action per        *)
(* callback (guard, exit, row action, entry, unexpected-event handler).    *)
(*                                                                         *)
(* A machine description m is a record                                     *)
(*   root, comps : [composite -> [rows : Seq(row), ints : Seq(int row)]],  *)
(*   st    : [state -> [en, ex : BOOLEAN, df : Seq(event),                 *)
(*                      ints : Seq(int row), cu : BOOLEAN]],               *)
(*   evs   : Seq(event), handler : BOOLEAN, ...                            *)
(* A row is  [id, ini, sk, sp, s, ev, g, a, tk, tp, t]                     *)
(*   sk \in {"st","exit","direct"}  kind of source; s its state, sp its    *)
(*                                  composite (pseudo sources only)        *)
(*   tk \in {"st","entry","direct","hist"}  kind of target; t, tp likewise *)
(*   ini: the source is marked initial; ev: event name or "none"           *)
(*   g: the row has a guard; a: sequence of actions, <<>> for none         *)
(* An action is [k, n] with k \in {"act","create","reuse","log"}.                *)
(* An internal row is [id, ev, g, a].                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

(***************************** Part 1: tables *****************************)

CompSet(m)   == DOMAIN m.comps
IsComp(m, s) == s \in DOMAIN m.comps
StateSet(m)  == DOMAIN m.st
EvSet(m)     == {m.evs[i] : i \in DOMAIN m.evs}
Rows(m, p)   == m.comps[p].rows

SeqToSet(q) == {q[i] : i \in DOMAIN q}
RECURSIVE ConcatAll(_)      \* of sequences
ConcatAll(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o ConcatAll(Tail(qs))
RECURSIVE Join(_)           \* of strings
Join(qs) == IF qs = <<>> THEN "" ELSE Head(qs) \o Join(Tail(qs))
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), Head(q))
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>>
            ELSE LET r == Dedup(SubSeq(q, 1, Len(q) - 1)) IN
                 IF q[Len(q)] \in SeqToSet(r) THEN r ELSE Append(r, q[Len(q)])
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* the initial states of composite p, one per region *)
InitNames(m, p) ==
    LET rs == SelectSeq(Rows(m, p), LAMBDA r : r.ini) IN
    Dedup([i \in DOMAIN rs |-> rs[i].s])
NRegions(m, p) == Len(InitNames(m, p))
MaxRegions(m) ==
    LET N == {NRegions(m, p) : p \in CompSet(m)} IN
    CHOOSE n \in N : \A k \in N : k <= n

(* the composite a row enters, or "" *)
Enters(m, row) ==
    IF row.tk = "st" THEN (IF IsComp(m, row.t) THEN row.t ELSE "")
    ELSE row.tp

(* all rows, each with its declaring composite; the table of a composite   *)
(* follows every row that enters it                                        *)
RECURSIVE Flatten(_, _)
Flatten(m, p) ==
    ConcatAll([i \in DOMAIN Rows(m, p) |->
        LET row == Rows(m, p)[i] IN
        <<[row |-> row, p |-> p]>> \o
        (IF Enters(m, row) = "" THEN <<>> ELSE Flatten(m, Enters(m, row)))])

(* the plain (not pseudo) sub states of composite p *)
Children(m, p) ==
    UNION {(IF Rows(m,p)[i].sk = "st" THEN {Rows(m,p)[i].s} ELSE {})
           \cup (IF Rows(m,p)[i].tk = "st" THEN {Rows(m,p)[i].t} ELSE {})
           : i \in DOMAIN Rows(m, p)}

SrcP(f) == IF f.row.sk = "st" THEN f.p ELSE f.row.sp
SrcS(f) == f.row.s

TgtP(m, f) ==
    CASE f.row.tk # "st"      -> f.row.tp
      [] IsComp(m, f.row.t)   -> f.row.t
      [] OTHER                -> f.p
TgtS(m, f) ==
    CASE f.row.tk = "hist"    -> InitNames(m, f.row.tp)[1]
      [] f.row.tk # "st"      -> f.row.t
      [] IsComp(m, f.row.t)   -> InitNames(m, f.row.t)[1]
      [] OTHER                -> f.row.t

HasExit(m, s)  == m.st[s].ex
HasEntry(m, s) == m.st[s].en

(* m.ideal lists intended behaviours which the library is known not to have *)
(* (known findings); it is empty for all machines but those that reproduce  *)
(* a known finding                                                          *)
Ideal(m, x) == \E i \in DOMAIN m.ideal : m.ideal[i] = x

(* the callbacks of an external transition, in order *)
ExitCbs(m, row) ==
    CASE row.sk = "st"   -> IF HasExit(m, row.s) THEN <<[k |-> "exit", n |-> row.s]>> ELSE <<>>
      [] row.sk = "exit" -> IF HasExit(m, row.sp) THEN <<[k |-> "exit", n |-> row.sp]>> ELSE <<>>
      [] OTHER           -> IF Ideal(m, "direct_exit") /\ HasExit(m, row.s)
                            THEN <<[k |-> "exit", n |-> row.s]>> ELSE <<>>
ActionCbs(row) == row.a
EntryCbs(m, row) ==
    IF row.tk # "st"
    THEN IF row.tk # "hist" /\ Ideal(m, "pseudo_entry") /\ HasEntry(m, row.t)
         THEN <<[k |-> "entry", n |-> row.t]>> ELSE <<>>
    ELSE (IF HasEntry(m, row.t) THEN <<[k |-> "entry", n |-> row.t]>> ELSE <<>>)
         \o (IF IsComp(m, row.t) /\ HasEntry(m, InitNames(m, row.t)[1])
             THEN <<[k |-> "entry", n |-> InitNames(m, row.t)[1]]>> ELSE <<>>)
         \o (IF IsComp(m, row.t) /\ Ideal(m, "region_entry")
             THEN ConcatAll([i \in 1..(NRegions(m, row.t) - 1) |->
                    IF HasEntry(m, InitNames(m, row.t)[i + 1])
                    THEN <<[k |-> "entry", n |-> InitNames(m, row.t)[i + 1]]>> ELSE <<>>])
             ELSE <<>>)

(* candidate transitions *)
ExtCand(m, f) ==
    [id |-> f.row.id, int |-> FALSE, df |-> FALSE, decl |-> f.p, g |-> f.row.g,
     src |-> f.row.s, tgt |-> TgtS(m, f), to |-> <<TgtP(m, f), TgtS(m, f)>>,
     hist |-> f.row.tk = "hist",
     cb |-> ExitCbs(m, f.row) \o ActionCbs(f.row) \o EntryCbs(m, f.row)]
IntCand(m, p, s, r) ==
    [id |-> r.id, int |-> TRUE, df |-> FALSE, decl |-> p, g |-> r.g,
     src |-> s, tgt |-> s, to |-> <<p, s>>, hist |-> FALSE, cb |-> r.a]
DeferCand(p, s) ==
    [id |-> -1, int |-> FALSE, df |-> TRUE, decl |-> p, g |-> FALSE,
     src |-> s, tgt |-> s, to |-> <<p, s>>, hist |-> FALSE, cb |-> <<>>]

(* a row applies in the sub state it names, and, if its source is a        *)
(* composite, in each direct sub state of that composite                   *)
RowApplies(m, f, p, s, ev) ==
    /\ f.row.ev = ev
    /\ \/ SrcP(f) = p /\ SrcS(f) = s
       \/ f.row.sk = "st" /\ IsComp(m, f.row.s) /\ f.row.s = p /\ s \in Children(m, p)

ExtCands(m, flat, p, s, ev) ==
    LET sel == SelectSeq(flat, LAMBDA f : RowApplies(m, f, p, s, ev)) IN
    Rev([i \in DOMAIN sel |-> ExtCand(m, sel[i])])

(* internal rows, in order of collection: (declaring composite, state)     *)
(* pairs of the flattened table, root first; a composite contributes its   *)
(* internal rows to its sub states, however it is entered, a plain state   *)
(* to itself                                                               *)
IntPair(m, p, s) == [p |-> IF IsComp(m, s) THEN s ELSE p, s |-> s]
IntPairs(m, flat) ==
    Dedup(<<IntPair(m, m.root, m.root)>> \o
        ConcatAll([i \in DOMAIN flat |->
            LET f == flat[i] IN
            (IF f.row.sk = "st" THEN <<IntPair(m, f.p, f.row.s)>> ELSE <<>>) \o
            <<IntPair(m, f.p, IF f.row.tk = "st" THEN f.row.t ELSE f.row.tp)>>]))
IntApplies(m, pr, p, s) ==
    IF IsComp(m, pr.s)
    THEN \/ pr.s = p /\ s \in Children(m, p)
         \/ \E i \in DOMAIN Rows(m, pr.s) :
              LET r == Rows(m, pr.s)[i] IN
              \/ r.sk # "st" /\ r.sp = p /\ r.s = s
              \/ r.tk = "direct" /\ r.tp = p /\ r.t = s
    ELSE pr.p = p /\ pr.s = s
IntRowsOf(m, s) == IF IsComp(m, s) THEN m.comps[s].ints ELSE m.st[s].ints
IntCands(m, pairs, p, s, ev) ==
    LET sel == SelectSeq(pairs, LAMBDA pr : IntApplies(m, pr, p, s))
        rows == ConcatAll([i \in DOMAIN sel |->
                  SelectSeq(IntRowsOf(m, sel[i].s), LAMBDA r : r.ev = ev)])
    IN Rev([i \in DOMAIN rows |-> IntCand(m, p, s, rows[i])])

DeferCands(m, p, s, ev) ==
    IF ev \in SeqToSet(m.st[s].df) \/ (Ideal(m, "comp_defer") /\ ev \in SeqToSet(m.st[p].df))
    THEN <<DeferCand(p, s)>> ELSE <<>>

(* all candidates in priority order *)
Cands(m, flat, pairs, p, s, ev) ==
    DeferCands(m, p, s, ev) \o ExtCands(m, flat, p, s, ev) \o IntCands(m, pairs, p, s, ev)

(* an internal candidate stems from the state itself, not from its parent *)
SrcOwn(M, e) == e.id \in {M.m.st[e.src].ints[i].id : i \in DOMAIN M.m.st[e.src].ints}

Pairs(m) == UNION {{<<p, s>> : s \in Children(m, p)} : p \in CompSet(m)}

(* everything the dynamic semantics needs to know about a machine *)
Compile(m) ==
    LET flat == Flatten(m, m.root)
        prs == IntPairs(m, flat)
        plc == UNION {{<<p, s>> : s \in {x \in Children(m, p) : ~IsComp(m, x)}} : p \in CompSet(m)}
    IN [m |-> m,
        root |-> m.root,
        maxr |-> MaxRegions(m),
        ini  |-> [p \in CompSet(m) |->
                    [i \in DOMAIN InitNames(m, p) |-> <<p, InitNames(m, p)[i]>>]],
        n    |-> [p \in CompSet(m) |-> NRegions(m, p)],
        plc  |-> plc,
        rows |-> flat,
        ext  |-> {ToString(flat[i].row.id) : i \in DOMAIN flat},
        tab  |-> [x \in plc |-> [ev \in EvSet(m) \cup {"none"} |->
                    Cands(m, flat, prs, x[1], x[2], ev)]]]

(********************** Part 2: dynamic semantics *************************)
(* M is a compiled machine; c the state of a machine instance together     *)
(* with the call in progress:                                              *)
(*   regs  : per region the active <<parent, state>>                       *)
(*   nreg  : number of active regions                                      *)
(*   hist  : per composite and region the last state                       *)
(*   q     : deferred events, [ev, id, touch]                              *)
(*   objs  : data of the state objects                                     *)
(*   dep   : identity of the injected dependency set                       *)
(*   stk   : control stack, <<>> between calls                             *)
(*   out   : the callbacks executed in the present call                    *)
(*   val   : the guard outcomes of the present call (row id -> number of   *)
(*           times the action of the row may run before the guard becomes  *)
(*           false; Always: it does not become false)                      *)
(*   thr   : <<k, n>>: the next callback of that kind and name throws      *)
(*   nest  : plans [k, n, ev, id, c], consumed one after the other: the     *)
(*           next callback of that kind and name sends event ev; c: it     *)
(*           catches an exception of this call                             *)
(*   tk    : the transitions taken in the present call (history variable)  *)
(*           each with the configuration (at) the machine was in           *)
(*   ret, thrown, touch : outcome of the last call                         *)

Always == 1000
Spend(val, id) ==   \* the action of row id has run
    IF id \in DOMAIN val /\ val[id] > 0 /\ val[id] < Always
    THEN [val EXCEPT ![id] = @ - 1] ELSE val

InitObj(M, s) == IF M.m.st[s].cu THEN -1 ELSE 0

InitC(M, dep) ==
    [regs |-> [r \in 1..M.maxr |->
                 IF r <= M.n[M.root] THEN M.ini[M.root][r] ELSE <<"", "">>],
     nreg |-> M.n[M.root],
     hist |-> M.ini,
     q |-> <<>>,
     objs |-> [s \in StateSet(M.m) |-> InitObj(M, s)],
     dep |-> dep,
     stk |-> <<>>, out |-> <<>>, tk |-> <<>>, val |-> <<>>, thr |-> <<>>, nest |-> <<>>,
     ret |-> FALSE, thrown |-> FALSE, touch |-> 0]

Parent(c, r) == c.regs[r][1]

CurRegions(M, regs) == Max2(M.n[M.root], M.n[regs[1][1]])

HistIdx(M, p, r) == IF r <= M.n[p] THEN r ELSE 1
HistOf(M, c, p, r) == c.hist[p][HistIdx(M, p, r)]
SetHist(M, hist, p, r, x) == [hist EXCEPT ![p] = [@ EXCEPT ![HistIdx(M, p, r)] = x]]

(* regions that have ended start over when their composite is entered again *)
EndRegions(M, regs, now, before) ==
    [x \in DOMAIN regs |->
        IF x > now /\ x <= before /\ x <= M.n[regs[x][1]] THEN M.ini[regs[x][1]][x] ELSE regs[x]]

(* transition e is taken in region r: the new configuration, and the       *)
(* composite all of whose regions have been left ("" if none)              *)
Leaves(M, c, r, e) == e.decl # Parent(c, r) /\ M.n[Parent(c, r)] > 1

TakeTransition(M, c, r, e) ==
    IF e.int THEN [c |-> c, left |-> ""]
    ELSE
    LET src   == Parent(c, r)
        tp    == e.to[1]
        left  == Leaves(M, c, r, e)
        mates == {x \in 1..c.nreg : Parent(c, x) = src}
        h1    == IF left
                 THEN [c.hist EXCEPT ![src] =
                        [i \in DOMAIN @ |-> IF i \in mates THEN c.regs[i] ELSE @[i]]]
                 ELSE SetHist(M, c.hist, src, r, c.regs[r])
        r1    == IF left THEN CHOOSE x \in mates : \A y \in mates : x <= y ELSE r
        act   == IF left THEN Max2(M.n[M.root], r1) ELSE c.nreg  \* regions that go on
        tgt   == IF e.hist THEN h1[tp][HistIdx(M, tp, r1)] ELSE e.to
        regs1 == [EndRegions(M, c.regs, act, c.nreg) EXCEPT ![r1] = tgt]
        regs2 == IF e.decl # tp
                 THEN [x \in DOMAIN regs1 |->
                        IF x > act /\ x <= M.n[tp] /\ x # r1
                        THEN (IF e.hist THEN h1[tp][x] ELSE M.ini[tp][x])
                        ELSE regs1[x]]
                 ELSE regs1
        n2    == CurRegions(M, regs2)
    IN [c |-> [c EXCEPT !.regs = EndRegions(M, regs2, n2, act), !.hist = h1, !.nreg = n2],
        left |-> IF left THEN src ELSE ""]

(* set(r, p, s) *)
SetState(M, c, r, p, s) ==
    LET regs1 == [c.regs EXCEPT ![r] = <<p, s>>]
        p1    == regs1[1][1]
        regs2 == [x \in DOMAIN regs1 |->
                   IF x > c.nreg /\ x <= M.n[p1] /\ regs1[x][1] # p1
                   THEN M.ini[p1][x] ELSE regs1[x]]
        n2    == CurRegions(M, regs2)
    IN [c EXCEPT !.regs = EndRegions(M, regs2, n2, c.nreg), !.nreg = n2]

(* ---- control frames ---- *)
Top(c)      == c.stk[Len(c.stk)]
Pop(c)      == [c EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Push(c, f)  == [c EXCEPT !.stk = Append(@, f)]
SetTop(c, f) == [c EXCEPT !.stk = [@ EXCEPT ![Len(@)] = f]]

Frame(k, seg, ev, id, touch) ==
    [k |-> k, seg |-> seg, ev |-> ev, id |-> id, touch |-> touch, pc |-> "start",
     r |-> 0, nr |-> 0, left |-> "", inv |-> TRUE, agf |-> TRUE, dfr |-> FALSE,
     cl |-> <<>>, cur |-> DeferCand("", ""), cb |-> <<>>, res |-> "", catch |-> FALSE]

CallFrame(ev, id) == Frame("call", "top", ev, id, 0)

Begin(c, ev, id, val, thr, nest) ==
    [c EXCEPT !.stk = <<CallFrame(ev, id)>>, !.out = <<>>, !.tk = <<>>, !.val = val, !.thr = thr,
              !.nest = nest, !.ret = FALSE, !.thrown = FALSE, !.touch = 0]

(* touch count of the event of the call whose frame is at position x *)
TouchOf(c, x) ==
    IF Len(c.stk) > x /\ c.stk[x + 1].k = "disp" /\ c.stk[x + 1].seg = "top"
    THEN c.stk[x + 1].touch ELSE c.stk[x].touch

RetRec(f, n, touch, ret) ==
    [at |-> "", k |-> "ret", n |-> n, ev |-> f.ev, id |-> f.id, touch |-> touch,
     src |-> "", sd |-> 0, tgt |-> "", td |-> 0, dep |-> 0, r |-> ret]

(* an exception ends the outermost call, or the innermost one of which the *)
(* calling callback catches it                                             *)
Throw(c) ==
    LET X == {x \in DOMAIN c.stk : c.stk[x].catch} IN
    IF X = {}
    THEN [c EXCEPT !.touch = TouchOf(c, 1), !.stk = <<>>, !.ret = FALSE, !.thrown = TRUE]
    ELSE LET x == CHOOSE y \in X : \A z \in X : z <= y IN
         [c EXCEPT !.stk = SubSeq(@, 1, x - 1),
                   !.out = Append(@, RetRec(c.stk[x], "thrown", TouchOf(c, x), FALSE))]

CallsInto(c, kn) == c.nest # <<>> /\ <<Head(c.nest).k, Head(c.nest).n>> = kn
NestCall(c) ==
    Push([c EXCEPT !.nest = Tail(@)],
         [CallFrame(Head(c.nest).ev, Head(c.nest).id) EXCEPT !.seg = "nest", !.catch = Head(c.nest).c])

At(c) == Join([r \in 1..c.nreg |-> c.regs[r][1] \o "." \o c.regs[r][2] \o ";"])

Rec(c, k, n, f, src, tgt, r) ==
    [at |-> At(c), k |-> k, n |-> n, ev |-> f.ev, id |-> f.id, touch |-> f.touch,
     src |-> src, sd |-> c.objs[src], tgt |-> tgt, td |-> c.objs[tgt], dep |-> c.dep, r |-> r]

Bump(o, s) == [o EXCEPT ![s] = IF @ = -1 THEN -1 ELSE @ + 1]   \* -1: no object yet

(* hsm::log writes a line that names source, event and target, and changes *)
(* nothing                                                                 *)
LogText(f, e) == e.src \o "|" \o f.ev \o "|" \o e.tgt
LogRec(c, f, e) ==
    [at |-> At(c), k |-> "log", n |-> LogText(f, e), ev |-> "", id |-> 0, touch |-> 0,
     src |-> "", sd |-> 0, tgt |-> "", td |-> 0, dep |-> 0, r |-> TRUE]

(* one effect callback: it is observed, then changes event and objects.    *)
(* A factory gets copies of event and source, and no dependencies, and     *)
(* makes a new target object; a reuse action gets copies, too, but the     *)
(* target object itself.                                                   *)
RunCallback(M, c) ==
    LET f  == Top(c)
        e  == f.cur
        b  == Head(f.cb)
        full == Rec(c, b.k, b.n, f, e.src, e.tgt, TRUE)
        rec == CASE b.k = "create" -> [full EXCEPT !.k = "act", !.td = -2, !.dep = 0]
                 [] b.k = "reuse"  -> [full EXCEPT !.k = "act", !.dep = 0]
                 [] OTHER          -> full
        o1 == CASE b.k = "create" -> [c.objs EXCEPT ![e.tgt] = 1000 + 10 * f.id]
                [] b.k = "reuse"  -> Bump(c.objs, e.tgt)
                [] OTHER          -> Bump(Bump(c.objs, e.src), e.tgt)
        f1 == [f EXCEPT !.cb = Tail(@),
                        !.touch = IF f.ev = "none" THEN 0
                                  ELSE IF b.k \in {"create", "reuse"} THEN @ ELSE @ + 1]
        kn == <<(IF b.k \in {"create", "reuse"} THEN "act" ELSE b.k), b.n>>
        thrown == c.thr = kn
        c1 == [SetTop(c, f1) EXCEPT !.out = Append(@, rec),
                                    !.val = IF b.k = "act" THEN Spend(@, e.id) ELSE @,
                                    !.objs = IF thrown /\ b.k = "create" THEN @ ELSE o1]
    IN IF b.k = "log"
       THEN [SetTop(c, [f EXCEPT !.cb = Tail(@)]) EXCEPT !.out = Append(@, LogRec(c, f, e))]
       ELSE IF thrown THEN Throw([c1 EXCEPT !.thr = <<>>])
       ELSE IF CallsInto(c, kn) THEN NestCall(c1)
       ELSE c1

NeedsGuard(M, c) ==
    /\ c.stk # <<>>
    /\ Top(c).pc = "cand" /\ Top(c).cl # <<>>
    /\ Head(Top(c).cl).g
    /\ Head(Top(c).cl).id \notin DOMAIN c.val

(* candidate selection in one region: shared by dispatch and completion *)
TryCandidate(M, c) ==
    LET f == Top(c)
        e == Head(f.cl)
        fire(cc, ff) ==
            LET t == TakeTransition(M, cc, ff.r, e) IN
            SetTop([t.c EXCEPT !.tk = Append(@, 
                        [seg |-> ff.seg, k |-> ff.k, r |-> ff.r, cand |-> e, from |-> cc.regs[ff.r],
                         n |-> Len(cc.out), q |-> Len(cc.q), v |-> cc.val, act |-> ff.r <= cc.nreg,
                         d |-> Cardinality({x \in DOMAIN cc.stk : cc.stk[x].k = "call"})])],
                   [ff EXCEPT !.inv = FALSE, !.agf = FALSE, !.left = t.left,
                                   \* regions entered by this transition do not get its event
                                   !.nr = IF t.left = "" THEN @ ELSE Min2(@, M.n[M.root]),
                                   !.cur = e, !.cb = e.cb, !.pc = "cb"])
    IN IF e.df THEN SetTop(c, [f EXCEPT !.dfr = TRUE, !.cl = <<>>])
       ELSE IF ~e.g THEN fire(c, f)
       ELSE LET rec == Rec(c, "guard", ToString(e.id), f, e.src, e.tgt, c.val[e.id] > 0)
                c1  == [c EXCEPT !.out = Append(@, rec)]
            IN IF c.thr = <<"guard", ToString(e.id)>>
               THEN Throw([c1 EXCEPT !.thr = <<>>])
               ELSE IF c.val[e.id] > 0 THEN fire(c1, f)
               ELSE SetTop(c1, [f EXCEPT !.inv = FALSE, !.cl = Tail(@)])

NextRegion(c) == LET f == Top(c) IN SetTop(c, [f EXCEPT !.r = @ + 1, !.pc = "region"])

(* one micro step of an event dispatch (process one event in all regions) *)
DispStep(M, c) ==
    LET f == Top(c) IN
    CASE f.pc = "start" ->
            SetTop(c, [f EXCEPT !.pc = "region", !.r = 1, !.nr = c.nreg])
      [] f.pc = "region" /\ f.r > Min2(f.nr, c.nreg) ->
            IF f.dfr /\ f.agf
            THEN SetTop([c EXCEPT !.q = Append(@, [ev |-> f.ev, id |-> f.id, touch |-> f.touch])],
                        [f EXCEPT !.res = "deferred", !.pc = "done"])
            ELSE IF f.inv THEN SetTop(c, [f EXCEPT !.res = "invalid", !.pc = "done"])
            ELSE IF f.agf THEN SetTop(c, [f EXCEPT !.res = "guards", !.pc = "done"])
            ELSE Push(SetTop(c, [f EXCEPT !.res = "processed", !.pc = "done"]),
                      Frame("anon", f.seg, "none", 0, 0))
      [] f.pc = "region" /\ f.r <= Min2(f.nr, c.nreg) ->
            IF Parent(c, f.r) = f.left THEN NextRegion(c)
            ELSE SetTop(c, [f EXCEPT !.cl = M.tab[c.regs[f.r]][f.ev], !.pc = "cand"])
      [] f.pc = "cand" ->
            IF f.cl = <<>> THEN NextRegion(c) ELSE TryCandidate(M, c)
      [] f.pc = "cb" ->
            IF f.cb = <<>> THEN NextRegion(c) ELSE RunCallback(M, c)
      [] f.pc = "done" ->   \* hand result (and the event, if it is the caller's) down
            LET d == Pop(c)
                g == Top(d)
            IN SetTop(d, [g EXCEPT !.res = f.res,
                                   !.touch = IF f.seg = "recall" THEN @ ELSE f.touch])

(* one micro step of the completion loop *)
AnonStep(M, c) ==
    LET f == Top(c) IN
    CASE f.pc = "start" ->
            SetTop(c, [f EXCEPT !.pc = "region", !.r = 1, !.nr = c.nreg, !.agf = TRUE, !.left = ""])
      [] f.pc = "region" /\ f.r > Min2(f.nr, c.nreg) ->
            IF f.agf THEN Pop(c) ELSE SetTop(c, [f EXCEPT !.pc = "start"])
      [] f.pc = "region" /\ f.r <= Min2(f.nr, c.nreg) ->
            IF Parent(c, f.r) = f.left THEN NextRegion(c)
            ELSE LET cl == M.tab[c.regs[f.r]]["none"] IN
                 IF cl = <<>> THEN Pop(c)      \* ends the completion run
                 ELSE SetTop(c, [f EXCEPT !.cl = cl, !.pc = "cand"])
      [] f.pc = "cand" ->
            IF f.cl = <<>> THEN NextRegion(c) ELSE TryCandidate(M, c)
      [] f.pc = "cb" ->
            IF f.cb = <<>> THEN NextRegion(c) ELSE RunCallback(M, c)

Return(c, ret) ==
    LET f == Top(c) IN
    IF Len(c.stk) = 1
    THEN [Pop(c) EXCEPT !.ret = ret, !.touch = f.touch]
    ELSE [Pop(c) EXCEPT !.out = Append(@, RetRec(f, "", f.touch, ret))]

(* one micro step of process_event itself *)
CallStep(M, c) ==
    LET f == Top(c) IN
    CASE f.pc = "start" ->
            Push(SetTop(c, [f EXCEPT !.pc = "result"]),
                 [Frame("disp", "top", f.ev, f.id, f.touch) EXCEPT !.touch = f.touch])
      [] f.pc = "result" ->
           (CASE f.res = "invalid" ->
                    IF ~M.m.handler THEN Return(c, FALSE)
                    ELSE LET s == c.regs[1][2]
                             rec == [Rec(c, "unexp", "", f, s, s, FALSE) EXCEPT !.tgt = "", !.td = 0]
                             c1 == [c EXCEPT !.out = Append(@, rec), !.objs = Bump(@, s)]
                             c2 == SetTop(c1, [f EXCEPT !.touch = @ + 1])
                         IN IF c.thr = <<"unexp", "">> THEN Throw([c2 EXCEPT !.thr = <<>>])
                            ELSE IF CallsInto(c, <<"unexp", "">>)
                            THEN NestCall(SetTop(c2, [Top(c2) EXCEPT !.pc = "handled"]))
                            ELSE Return(c2, FALSE)
              [] f.res \in {"deferred", "guards"} -> Return(c, FALSE)
              [] f.res = "processed" ->
                    IF c.q = <<>> THEN Return(c, TRUE)
                    ELSE LET e == Head(c.q) IN
                         Push(SetTop([c EXCEPT !.q = Tail(@)], [f EXCEPT !.pc = "recalled"]),
                              Frame("disp", "recall", e.ev, e.id, e.touch)))
      [] f.pc = "recalled" -> Return(c, TRUE)
      [] f.pc = "handled" -> Return(c, FALSE)

MStep(M, c) ==
    CASE Top(c).k = "call" -> CallStep(M, c)
      [] Top(c).k = "disp" -> DispStep(M, c)
      [] Top(c).k = "anon" -> AnonStep(M, c)

(* run a call to its end, all guard outcomes being known *)
RECURSIVE RunCall(_, _)
RunCall(M, c) == IF c.stk = <<>> THEN c ELSE RunCall(M, MStep(M, c))
=============================================================================
