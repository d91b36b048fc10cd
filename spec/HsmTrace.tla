------------------------------ MODULE HsmTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded executions of the library with Hsm.             *)
(*                                                                         *)
(* The input is a set of machine descriptions and a set of traces. A trace *)
(* is the history of one machine instance: per API call the arguments, the *)
(* callbacks observed, the outcome, and all answers of the query API. For  *)
(* every step the call is executed by the semantics of module Hsm and the  *)
(* observation compared with it. A difference is attributed to the         *)
(* properties it contradicts and ends the trace.                           *)
(***************************************************************************)
EXTENDS Hsm, Json, IOUtils

Machines == JsonDeserialize(IOEnv.HSM_MACHINES)
Traces   == JsonDeserialize(IOEnv.HSM_TRACES)
CM == TLCEval([k \in DOMAIN Machines |-> TLCEval(Compile(Machines[k]))])

(* seen: the configurations that each answer of status() has stood for *)
VARIABLES t, i, c, verdict, seen
vars == <<t, i, c, verdict, seen>>

(* ------------------------- expected behaviour -------------------------- *)
ValOf(M, s) == [x \in 1..M.m.nid |->
                  IF x \in SeqToSet(s.tv) THEN Always
                  ELSE Cardinality({j \in DOMAIN s.fin : s.fin[j] = x})]

Exec(M, c0, s) ==
    CASE s.op = "N" -> InitC(M, s.set)
      [] s.op = "P" -> RunCall(M, Begin(c0, s.ev, s.id, ValOf(M, s), s.thr, s.nest))
      [] s.op = "S" -> [(IF s.r > M.maxr THEN [c0 EXCEPT !.ret = FALSE]
                         ELSE [SetState(M, c0, s.r, s.p, s.s) EXCEPT !.ret = TRUE])
                        EXCEPT !.out = <<>>, !.thrown = FALSE, !.touch = 0]
      [] s.op = "D" -> [c0 EXCEPT !.dep = s.set, !.out = <<>>, !.ret = FALSE, !.thrown = FALSE, !.touch = 0]
      [] s.op = "X" -> [c0 EXCEPT !.out = <<>>, !.ret = FALSE, !.thrown = FALSE, !.touch = 0]
      [] s.op = "M" -> [c0 EXCEPT !.out = <<>>, !.ret = FALSE, !.thrown = FALSE, !.touch = 0]

(* --------------------------- comparison -------------------------------- *)
(* Guards are compared as sets between two effects; the guard of an        *)
(* external row may be evaluated as often as the row occurs in the         *)
(* flattened tables. (The library evaluates guards of internal rows of a   *)
(* composite twice in its initial state.)                                  *)
Effects(out) == SelectSeq(out, LAMBDA x : x.k # "guard")
Guards(out, n) == {out[j] : j \in {x \in DOMAIN out : out[x].k = "guard" /\
                    Cardinality({y \in 1..x : out[y].k # "guard"}) = n}}
Times(out, n, g) == Cardinality({x \in DOMAIN out : out[x] = g /\
                    Cardinality({y \in 1..x : out[y].k # "guard"}) = n})
GuardsAgree(M, a, b) ==     \* a: expected, b: observed
    \A n \in 0..Max2(Len(Effects(a)), Len(Effects(b))) :
        /\ Guards(a, n) = Guards(b, n)
        /\ \A g \in Guards(a, n) : g.n \in M.ext => Times(b, n, g) <= Times(a, n, g)
OutAgree(M, a, b) == a = b \/ (Effects(a) = Effects(b) /\ GuardsAgree(M, a, b))

ActiveRegs(X) == [r \in 1..X.nreg |-> X.regs[r]]

(* the query API agrees with the configuration *)
CfgAgree(X, s) == s.nreg = X.nreg /\ s.isr = [r \in 1..X.nreg |-> <<X.regs[r]>>]
QueryAgree(M, X, s) ==
    /\ s.isp = (IF s.fq THEN <<>> ELSE <<X.regs[1]>>)
    /\ s.iss = (IF s.fq THEN <<>> ELSE <<X.regs[1][2]>>)
    /\ s.pis = <<X.regs[1][1]>>
    /\ s.oor
StatusAgree(X, s, sn) == s.status \in DOMAIN sn => sn[s.status] = At(X)

(* no object of a state or event outlives the last machine *)
Gone(s) == ~s.crash /\ s.ls = 0 /\ s.le = 0

Agree(M, X, s, sn) ==
    IF s.op = "X" THEN Gone(s) ELSE
    /\ ~s.crash
    /\ StatusAgree(X, s, sn)
    /\ s.ret = X.ret /\ s.thrown = X.thrown /\ s.touch = X.touch
    /\ CfgAgree(X, s) /\ QueryAgree(M, X, s)
    /\ OutAgree(M, X.out, s.out)

(* ----------------------- attribution of a difference ------------------- *)
KN(out)   == [j \in DOMAIN out |-> <<out[j].k, out[j].n>>]
Names(out, k) == LET q == SelectSeq(out, LAMBDA x : x.k = k) IN [j \in DOMAIN q |-> q[j].n]
Has(out, P(_)) == \E j \in DOMAIN out : P(out[j])

IntActs(M) ==
    LET is == UNION {SeqToSet(M.m.comps[p].ints) : p \in CompSet(M.m)}
              \cup UNION {SeqToSet(M.m.st[x].ints) : x \in StateSet(M.m)}
    IN UNION {{a.n : a \in SeqToSet(r.a)} : r \in is}
AllRows(M)   == UNION {SeqToSet(M.m.comps[p].rows) : p \in CompSet(M.m)}
HasAnon(M)   == \E r \in AllRows(M) : r.ev = "none"
HasHist(M)   == \E r \in AllRows(M) : r.tk = "hist"
HasDefer(M)  == \E x \in StateSet(M.m) : M.m.st[x].df # <<>>
HasInt(M)    == \/ \E p \in CompSet(M.m) : M.m.comps[p].ints # <<>>
                \/ \E x \in StateSet(M.m) : M.m.st[x].ints # <<>>
Logs(a)      == \E j \in DOMAIN a : a[j].k = "log"
AllInts(M)   == UNION {SeqToSet(M.m.comps[p].ints) : p \in CompSet(M.m)}
                \cup UNION {SeqToSet(M.m.st[x].ints) : x \in StateSet(M.m)}
ChainActs(M) == UNION {{y.n : y \in SeqToSet(r.a)} : r \in {x \in AllRows(M) \cup AllInts(M) : Len(x.a) > 1}}
HasLog(M)    == \/ \E r \in AllRows(M) : Logs(r.a)
                \/ \E p \in CompSet(M.m) : \E k \in SeqToSet(M.m.comps[p].ints) : Logs(k.a)
                \/ \E x \in StateSet(M.m) : \E k \in SeqToSet(M.m.st[x].ints) : Logs(k.a)
Silent(M)    == \/ \E r \in AllRows(M) : r.a = <<>>
                \/ \E p \in CompSet(M.m) : \E k \in SeqToSet(M.m.comps[p].ints) : k.a = <<>>
                \/ \E x \in StateSet(M.m) : \E k \in SeqToSet(M.m.st[x].ints) : k.a = <<>>
MultiComp(M) == {p \in CompSet(M.m) : p # M.root /\ M.n[p] > 1}
In(c0, P)    == \E r \in 1..c0.nreg : c0.regs[r][1] \in P

Attribute(M, s, c0, X, sn) ==
    LET o     == IF s.crash THEN <<>> ELSE s.out
        cr    == s.crash
        dSeq  == cr \/ KN(Effects(X.out)) # KN(Effects(o))
        dAct  == cr \/ Names(X.out, "act") # Names(o, "act")
        dCfg  == cr \/ ~CfgAgree(X, s)
        dRet  == cr \/ s.ret # X.ret
        dThr  == cr \/ s.thrown # X.thrown
        dGrd  == cr \/ (~dSeq /\ ~GuardsAgree(M, X.out, o))
        same  == ~cr /\ KN(X.out) = KN(o)
        same2 == ~cr /\ KN(Effects(X.out)) = KN(Effects(o))
        EX == Effects(X.out)
        EO == Effects(o)
        fld(f(_)) == \/ same2 /\ \E j \in DOMAIN EX : f(EX[j]) # f(EO[j])
                     \/ same /\ \E j \in DOMAIN o : f(X.out[j]) # f(o[j])
        dRet2 == dRet \/ fld(LAMBDA x : IF x.k = "ret" THEN x.r ELSE TRUE)    \* of nested calls, too
        dEv   == cr \/ (same2 /\ s.touch # X.touch)
                 \/ fld(LAMBDA x : <<x.ev, x.id, x.touch>>)
        dDep  == cr \/ fld(LAMBDA x : x.dep)
        dFx   == same2 /\ \E j \in DOMAIN EX : EX[j] # EO[j]
        dObj  == cr \/ fld(LAMBDA x : <<x.src, x.tgt>>)
        dData == cr \/ fld(LAMBDA x : <<x.sd, x.td>>)
        dQry  == cr \/ (~dCfg /\ ~(QueryAgree(M, X, s) /\ StatusAgree(X, s, sn)))
        \* the answers contradict each other, or some are not of this configuration
        dQry2 == dQry \/ (~cr /\ s.isr # <<>> /\
                    \/ s.nreg # X.nreg /\ LET n == Min2(Len(s.isr), X.nreg) IN
                         SubSeq(s.isr, 1, n) = SubSeq([r \in 1..X.nreg |-> <<X.regs[r]>>], 1, n)
                    \/ ~s.fq /\ s.isp # s.isr[1]
                    \/ ~s.oor)
        dLog  == cr \/ Names(X.out, "log") # Names(o, "log")
        dAt   == cr \/ fld(LAMBDA x : x.at)
        any   == TRUE
        false_fired == \E j \in DOMAIN o : o[j].k = "guard" /\ ~o[j].r
                         /\ \E a \in SeqToSet(o) : a.k = "act" /\
                              \E r \in AllRows(M) : ToString(r.id) = o[j].n /\ a.n \in {y.n : y \in SeqToSet(r.a)}
        \* a guarded transition was taken although its guard did not return true (or was not asked)
        unasked == \E j \in DOMAIN o : o[j].k = "act" /\
                     \E r \in AllRows(M) \cup AllInts(M) :
                        r.g /\ o[j].n \in {y.n : y \in SeqToSet(r.a)} /\
                        ~\E x \in 1..j : o[x].k = "guard" /\ o[x].n = ToString(r.id) /\ o[x].r
        blocked == X.out # <<>> /\ \A j \in DOMAIN X.out : X.out[j].k = "guard" /\ ~X.out[j].r
        intFired == (\E k \in DOMAIN X.tk : X.tk[k].cand.int)
                    \/ Has(o, LAMBDA x : x.k = "act" /\ x.n \in IntActs(M))
        anonSeen == (\E k \in DOMAIN X.tk : X.tk[k].k = "anon") \/ Has(X.out, LAMBDA x : x.ev = "none") \/ Has(o, LAMBDA x : x.ev = "none")
        unexp == Has(X.out, LAMBDA x : x.k = "unexp") \/ Has(o, LAMBDA x : x.k = "unexp")
        defer == c0.q # <<>> \/ X.q # <<>>
                 \/ (s.op = "P" /\ \E r \in 1..c0.nreg : s.ev \in SeqToSet(M.m.st[c0.regs[r][2]].df))
        behav == dSeq \/ dCfg \/ dRet \/ dThr \/ dGrd \/ dAt
        multi == In(c0, MultiComp(M)) \/ In(X, MultiComp(M))
                 \/ (~cr /\ \E j \in DOMAIN s.isr : \E x \in SeqToSet(s.isr[j]) : x[1] \in MultiComp(M))
    IN  (IF dAct \/ (Silent(M) /\ (dCfg \/ dRet)) THEN {"C01"} ELSE {})
   \cup (IF dCfg THEN {"C02"} ELSE {})
   \cup (IF dGrd \/ false_fired \/ unasked \/ blocked THEN {"C03"} ELSE {})
   \cup (IF dSeq \/ dObj \/ dAt \/ dFx THEN {"C04"} ELSE {})
   \cup (IF HasInt(M) /\ (intFired \/ dAct \/ dCfg \/ dRet) THEN {"C05"} ELSE {})
   \cup (IF HasAnon(M) /\ (anonSeen \/ dCfg) THEN {"C06"} ELSE {})
   \cup (IF M.n[M.root] > 1 /\ behav THEN {"C07"} ELSE {})
   \cup (IF multi /\ (behav \/ dQry) THEN {"C08"} ELSE {})
   \cup (IF HasHist(M) /\ dCfg THEN {"C09"} ELSE {})
   \cup (IF HasDefer(M) /\ defer THEN {"C10"} ELSE {})
   \cup (IF dRet2 THEN {"C11"} ELSE {})
   \cup (IF unexp THEN {"C12"} ELSE {})
   \cup (IF dData \/ dObj THEN {"C13"} ELSE {})
   \cup (IF M.m.deps > 0 /\ (dDep \/ (s.dset /\ behav)) THEN {"C15"} ELSE {})
   \cup (IF dEv THEN {"C16"} ELSE {})
   \cup (IF dQry2 \/ (s.sset /\ (behav \/ dCfg)) THEN {"C17"} ELSE {})
   \cup (IF Cardinality(CompSet(M.m)) > 1 /\ behav THEN {"C22"} ELSE {})
   \cup (IF s.tset THEN {"C23"} ELSE {})
   \cup (IF s.nset THEN {"C24"} ELSE {})
   \cup (IF HasLog(M) /\ dLog THEN {"C26"} ELSE {})
   \cup (IF M.m.tag = "custom" THEN {"C20"} ELSE {})
   \cup (IF M.m.tag = "chain" \/ (ChainActs(M) # {} /\ (cr \/ \E x \in SeqToSet(X.out) \cup SeqToSet(o) : x.n \in ChainActs(M)))
         THEN {"C21"} ELSE {})
   \cup {"ANY"}

Verdict(M, s, c0, X, sn) ==
    IF Agree(M, X, s, sn) THEN {}
    ELSE IF s.op = "X" THEN {"C13", "ANY"} \cup (IF s.crash \/ s.le # 0 THEN {"C10"} ELSE {})
                            \cup (IF M.m.tag = "custom" THEN {"C20"} ELSE {})
    ELSE Attribute(M, s, c0, X, sn)

(* ------------------------------ the checker ---------------------------- *)
Init == /\ t \in DOMAIN Traces
        /\ i = 0
        /\ c = InitC(CM[Traces[t].mi], 0)
        /\ verdict = {}
        /\ seen = <<>>

Settle(X) == [X EXCEPT !.out = <<>>, !.tk = <<>>, !.val = <<>>, !.thr = <<>>, !.nest = <<>>]

Next == LET M == CM[Traces[t].mi]
            s == Traces[t].steps[i + 1]
            X == Exec(M, c, s)
            V == Verdict(M, s, c, X, seen)
        IN /\ i < Len(Traces[t].steps)
           /\ verdict = {}
           /\ i' = i + 1
           /\ t' = t
           /\ c' = Settle(X)
           /\ verdict' = V
           /\ seen' = (s.status :> At(X)) @@ seen
           /\ V # {} => PrintT("REJECT " \o ToJson([t |-> t, i |-> i + 1, v |-> V]))
           /\ V # {} => PrintT("EXPECTED " \o
                ToJson([t |-> t, i |-> i + 1, out |-> X.out, ret |-> X.ret, thrown |-> X.thrown,
                        touch |-> X.touch, regs |-> ActiveRegs(X), q |-> X.q]))

Spec == Init /\ [][Next]_vars

(* every trace is accepted: no step contradicts the semantics *)
Accepted == verdict = {}
=============================================================================
