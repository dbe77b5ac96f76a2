------------------------------ MODULE MatchRule ------------------------------
(* Match rules: their text, and which signals they select.                    *)
EXTENDS Message

Quote == "'"
RuleKeys == {"type", "sender", "interface", "member", "path", "path_namespace", "destination"}
\* Keys that are understood by the bus only and do not restrict locally.
BusKeys == {"eavesdrop", "arg0", "arg1", "arg63", "arg0path", "arg1path", "arg0namespace"}

\* The first of the characters cs at or after i in s; Len(s)+1 if there is none.
Find(s, i, cs) == LET is == { j \in i..Len(s) : Ch(s, j) \in cs }
                  IN  IF is = {} THEN Len(s) + 1 ELSE CHOOSE j \in is : \A k \in is : j <= k
NoRule == [ok |-> FALSE]
\* The elements of a rule text from i on: each is key='value', commas separate.
RECURSIVE Elements(_, _, _)
Elements(s, i, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, e |-> acc]
    ELSE LET q == Find(s, i, {"=", ",", Quote}) IN
         IF q = i \/ q + 1 > Len(s) \/ Ch(s, q) # "=" \/ Ch(s, q + 1) # Quote THEN NoRule
         ELSE LET z == Find(s, q + 2, {Quote}) IN
              IF z > Len(s) \/ (z < Len(s) /\ Ch(s, z + 1) # ",") THEN NoRule
              ELSE Elements(s, z + 2, TLCEval(Append(acc, << SubSeq(s, i, q - 1), SubSeq(s, q + 2, z - 1) >>)))

Has(es, k) == \E i \in 1..Len(es) : es[i][1] = k
Val(es, k) == es[CHOOSE i \in 1..Len(es) : es[i][1] = k][2]
\* A rule: "ok", "reject", or "odd" (nothing is required: empty elements, empty
\* values, repeated or unknown keys).
Rule(s) ==
    LET empties == s = "" \/ Ch(s, 1) = "," \/ Ch(s, Len(s)) = "," \/ \E i \in 1..(Len(s) - 1) : Ch(s, i) = "," /\ Ch(s, i + 1) = ","
        p == Elements(s, 1, <<>>)
    IN  IF s # "" /\ empties THEN [r |-> "odd"]
        ELSE IF ~p.ok THEN [r |-> "reject"]
        ELSE IF Has(p.e, "path") /\ Has(p.e, "path_namespace") /\ Val(p.e, "path") # "" /\ Val(p.e, "path_namespace") # "" THEN [r |-> "reject"]
        ELSE IF \/ \E i, j \in 1..Len(p.e) : i # j /\ p.e[i][1] = p.e[j][1]
                \/ \E i \in 1..Len(p.e) : p.e[i][2] = "" \/ p.e[i][1] \notin RuleKeys \cup BusKeys
             THEN [r |-> "odd"]
        ELSE [r |-> "ok", e |-> p.e]

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
InNamespace(path, ns) == ns = "/" \/ path = ns \/ StartsWith(path, ns \o "/")

\* sig: what a signal's header says, a function of field name to text.
Selects(es, sig) ==
    \A i \in 1..Len(es) :
       LET k == es[i][1]  v == es[i][2] IN
       CASE k = "type" -> v = "signal"
         [] k \in {"sender", "interface", "member", "path", "destination"} -> sig[k] = v
         [] k = "path_namespace" -> InNamespace(sig.path, v)
         [] OTHER -> TRUE

FieldText(fs, code) == StrOf(Expand(FieldOct(fs, code)))
SignalOf(m) == LET fs == DecHdr(m.h).v.c[7].c IN
    [sender |-> FieldText(fs, SENDER), interface |-> FieldText(fs, INTERFACE), member |-> FieldText(fs, MEMBER),
     path |-> FieldText(fs, PATH), destination |-> FieldText(fs, DESTINATION)]
=============================================================================
