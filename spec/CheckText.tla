----------------------------- MODULE CheckText -----------------------------
(* Decides recorded runs of match rules, bus addresses and introspection.     *)
EXTENDS MatchRule, Address, Introspection, Json
Cases == ndJsonDeserialize("cases.ndjson")
N == Len(Cases)
VARIABLES at, k
vars == <<at, k>>
Say(kind, why) == PrintT("@@" \o kind \o " " \o ToString(Cases[at].id) \o (IF why = "" THEN "" ELSE " " \o why))

-----------------------------------------------------------------------------
RuleOf(c) == Rule(StrOf(Expand(c.rule)))
RuleBegin(c, r) ==
    IF r.r = "odd" THEN ""
    ELSE IF r.r = "reject" THEN (IF c.obs.reject THEN "" ELSE "malformed rule accepted")
    ELSE IF c.obs.reject THEN "well-formed rule rejected"
    ELSE IF Len(c.obs.res) # Len(c.signals) THEN "wrong number of invocations"
    ELSE ""
RuleStep(c, r, i) ==
    LET one == F!One(c.signals[i], RLen(c.signals[i])) IN
    IF one.end # "message" THEN "?"
    ELSE LET want == IF Selects(r.e, SignalOf(one.m)) THEN "yes" ELSE "no"
         IN  IF c.obs.res[i] = want THEN "" ELSE "signal " \o ToString(i) \o ": wants " \o want \o ", got " \o c.obs.res[i]

-----------------------------------------------------------------------------
Addr(c) == IF c.obs.system # SystemBus(c.none, c.addr) THEN "system bus"
           ELSE IF c.obs.session # SessionBus(c.none, c.addr) THEN "session bus"
           ELSE IF c.obs.envsystem # SystemBus(c.none, c.addr) THEN "system bus of the environment"
           ELSE IF c.obs.envsession # SessionBus(c.none, c.addr) THEN "session bus of the environment"
           ELSE IF c.connect /\ ~c.obs.connected THEN "does not connect"
           ELSE ""
Xml(c) == IF c.obs.tree = Describes(c.ifaces) THEN "" ELSE "document differs"

-----------------------------------------------------------------------------
Init == at \in 1..N /\ k = 0
Begin ==
    LET c == Cases[at]
        r == IF c.op = "rule" THEN RuleOf(c) ELSE [r |-> "none"]
        v == IF c.obs.r # "val" THEN c.obs.r
             ELSE CASE c.op = "rule" -> RuleBegin(c, r) [] c.op = "addr" -> Addr(c) [] c.op = "xml" -> Xml(c)
    IN  /\ k = 0
        /\ IF v = "" THEN TRUE ELSE Say("V", v)
        /\ IF r.r = "reject" THEN Say("R", "") ELSE TRUE
        /\ k' = IF v = "" /\ r.r = "ok" /\ Len(c.signals) > 0 THEN 1 ELSE -1
        /\ UNCHANGED at
Judge ==
    LET c == Cases[at] IN
    /\ k > 0
    /\ LET v == RuleStep(c, RuleOf(c), k) IN
       /\ IF v = "" THEN TRUE ELSE IF v = "?" THEN Say("I", "signal does not decode") ELSE Say("V", v)
       /\ k' = IF v # "" \/ k = Len(c.signals) THEN -1 ELSE k + 1
    /\ UNCHANGED at
Next == Begin \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
