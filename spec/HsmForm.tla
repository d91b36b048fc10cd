------------------------------ MODULE HsmForm -------------------------------
(***************************************************************************)
(* Which machines and uses of a machine are well-formed.                   *)
(*                                                                         *)
(* TLC enumerates programs: a base machine, changed by one mutation, and   *)
(* one use of it. Each program is printed with the verdict of WellFormed;  *)
(* the checker compiles it and compares.                                   *)
(***************************************************************************)
EXTENDS Hsm, Json, IOUtils

Bases == JsonDeserialize(IOEnv.HSM_MACHINES)

VARIABLES b, mut, use
vars == <<b, mut, use>>

(* ------------------------------ judgement ------------------------------ *)
EvsOfRows(m) == UNION {{Rows(m, p)[i].ev : i \in DOMAIN Rows(m, p)} : p \in CompSet(m)}
EvsOfInts(m) ==
    UNION {{m.comps[p].ints[i].ev : i \in DOMAIN m.comps[p].ints} : p \in CompSet(m)}
    \cup UNION {{m.st[s].ints[i].ev : i \in DOMAIN m.st[s].ints} : s \in StateSet(m)}
Occurring(m) == (EvsOfRows(m) \cup EvsOfInts(m)) \ {"none"}

(* the first rule a machine breaks, "" if none *)
MachineError(m) ==
    CASE m.root \notin DOMAIN m.comps -> "no transition table"
      [] Rows(m, m.root) = <<>> -> "no rows"
      [] InitNames(m, m.root) = <<>> -> "no initial state"
      [] \E s \in SeqToSet(InitNames(m, m.root)) : IsComp(m, s) -> "initial state is a composite"
      [] \E s \in SeqToSet(InitNames(m, m.root)) : m.st[s].ints # <<>>
            -> "initial state has internal transitions"
      [] OTHER -> ""

UseError(m, u) ==
    CASE u.k = "process" -> IF u.ev \in Occurring(m) THEN "" ELSE "event does not occur"
      [] u.k = "set1" -> IF u.s \in StateSet(m) THEN "" ELSE "state does not occur"
      [] u.k = "set2" -> (CASE u.s \notin StateSet(m) -> "state does not occur"
                            [] u.p \notin CompSet(m) -> "parent does not occur"
                            [] OTHER -> "")
      [] u.k = "set3" -> (CASE u.s \notin StateSet(m) -> "state does not occur"
                            [] u.p \notin CompSet(m) -> "parent does not occur"
                            [] OTHER -> "")
      [] OTHER -> ""

Error(m, u) == IF MachineError(m) # "" THEN MachineError(m) ELSE UseError(m, u)
WellFormed(m, u) == Error(m, u) = ""

(* ------------------------------ mutations ------------------------------ *)
Unmark(rows) == [i \in DOMAIN rows |-> [rows[i] EXCEPT !.ini = FALSE]]
IntRow(m) == [id |-> m.nid + 1, ev |-> m.evs[1], g |-> FALSE, a |-> <<[k |-> "act", n |-> ToString(m.nid + 2)]>>]

CompSources(m) == {s \in CompSet(m) : \E i \in DOMAIN Rows(m, m.root) :
                      Rows(m, m.root)[i].sk = "st" /\ Rows(m, m.root)[i].s = s}

Mutations(m) ==
    {[k |-> "none", s |-> ""], [k |-> "table", s |-> ""], [k |-> "rows", s |-> ""], [k |-> "init", s |-> ""]}
    \cup {[k |-> "compinit", s |-> s] : s \in CompSources(m)}
    \cup {[k |-> "intinit", s |-> s] : s \in SeqToSet(InitNames(m, m.root))}

Mutate(m, x) ==
    CASE x.k = "none"  -> m
      [] x.k = "table" -> [m EXCEPT !.comps = [p \in (DOMAIN @ \ {m.root}) |-> @[p]]]
      [] x.k = "rows"  -> [m EXCEPT !.comps = [@ EXCEPT ![m.root] = [@ EXCEPT !.rows = <<>>]]]
      [] x.k = "init"  -> [m EXCEPT !.comps = [@ EXCEPT ![m.root] = [@ EXCEPT !.rows = Unmark(@)]]]
      [] x.k = "compinit" ->
            [m EXCEPT !.comps = [@ EXCEPT ![m.root] = [@ EXCEPT !.rows =
                [i \in DOMAIN @ |-> IF @[i].sk = "st" /\ @[i].s = x.s THEN [@[i] EXCEPT !.ini = TRUE] ELSE @[i]]]]]
      [] x.k = "intinit" ->
            [m EXCEPT !.st = [@ EXCEPT ![x.s] = [@ EXCEPT !.ints = <<IntRow(m)>>]], !.nid = @ + 2]

Use(k, ev, p, s) == [k |-> k, ev |-> ev, p |-> p, s |-> s]
Leaf(m, p) == CHOOSE s \in Children(m, p) : ~IsComp(m, s)
Uses(m, full) ==
    IF ~full THEN {Use("make", "", "", "")}
    ELSE {Use("make", "", "", "")}
         \cup {Use("process", e, "", "") : e \in Occurring(m) \cup {"zz"}}
         \cup {Use("set1", "", "", s) : s \in {Leaf(m, m.root), "Zz"}}
         \cup {Use("set2", "", p, Leaf(m, p)) : p \in CompSet(m)}
         \cup {Use("set2", "", m.root, "Zz"), Use("set2", "", "Zz", Leaf(m, m.root)),
               Use("set2", "", Leaf(m, m.root), Leaf(m, m.root))}
         \cup {Use("set3", "", p, Leaf(m, p)) : p \in CompSet(m)}
         \cup {Use("set3", "", m.root, "Zz"), Use("set3", "", "Zz", Leaf(m, m.root)),
               Use("set3", "", Leaf(m, m.root), Leaf(m, m.root))}

Init == /\ b \in DOMAIN Bases
        /\ mut \in Mutations(Bases[b])
        /\ use \in Uses(Bases[b], mut.k = "none")
        /\ PrintT("PROGRAM " \o ToJson([b |-> b, m |-> Mutate(Bases[b], mut), mut |-> mut, use |-> use,
                                        err |-> Error(Mutate(Bases[b], mut), use)]))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* every mutation breaks exactly the rule it is meant to break *)
MutationsBreak == (mut.k # "none") => MachineError(Mutate(Bases[b], mut)) # ""
BasesAreFine   == MachineError(Bases[b]) = ""
=============================================================================
