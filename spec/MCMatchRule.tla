---------------------------- MODULE MCMatchRule ----------------------------
(* Every rule over a small vocabulary against every signal over it: what the  *)
(* selection must satisfy whatever the values are.                            *)
EXTENDS MatchRule
Paths == {"/", "/a", "/a/b", "/ab"}
Names == {"n", "na"}
Vals(k) == CASE k = "type" -> {"signal", "error"} [] k \in {"path", "path_namespace"} -> Paths [] OTHER -> Names
Keys == {"type", "interface", "member", "path", "path_namespace", "sender"}
VARIABLES rule, sig
vars == <<rule, sig>>
Sigs == [sender : Names \cup {""}, interface : Names, member : Names, path : Paths, destination : {""}]
Init == rule = <<>> /\ sig \in Sigs
Add(k, v) == /\ Len(rule) < 3 /\ ~Has(rule, k) /\ rule' = Append(rule, <<k, v>>) /\ UNCHANGED sig
Next == \E k \in Keys : \E v \in Vals(k) : Add(k, v)
Spec == Init /\ [][Next]_vars

RECURSIVE Text(_)
Text(es) == IF es = <<>> THEN "" ELSE es[1][1] \o "='" \o es[1][2] \o "'" \o (IF Len(es) = 1 THEN "" ELSE "," \o Text(Tail(es)))
\* Parsing the text of a rule gives the rule back; both kinds of path are refused.
ParsesBack == IF Has(rule, "path") /\ Has(rule, "path_namespace") THEN Rule(Text(rule)).r = "reject"
              ELSE Rule(Text(rule)) = [r |-> "ok", e |-> rule]
\* The order of the elements is immaterial.
OrderFree == \A p \in Permutations(1..Len(rule)) : Selects([i \in 1..Len(rule) |-> rule[p[i]]], sig) = Selects(rule, sig)
\* The empty rule selects everything; a path is in its own namespace and in that of every ancestor.
Everything == rule = <<>> => Selects(rule, sig)
Ancestors == \A ns \in Paths : InNamespace(ns, ns) /\ InNamespace(ns, "/") /\ (InNamespace(sig.path, ns) /\ ns # "/" => StartsWith(sig.path, ns))
\* Further elements only restrict.
Restricts == [][Selects(rule', sig') => Selects(rule, sig)]_vars
=============================================================================
