---------------------------- MODULE MCConnection ----------------------------
(* Exhaustive exploration of the connection over a small world, with the      *)
(* guarantees stated over history variables; and generation of histories.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Texts,           \* names of methods and signals; match rules
          MaxSend, MaxCall, MaxReg, MaxRule, MaxLine, MaxMsg,  \* how often each may happen
          Words,                  \* first words of the server's lines
          Authed,                 \* begin with the handshake done
          Sequential,             \* the application acts only when all is quiet
          Depth                   \* length of generated histories; 0: exploration

\* In this world a rule's text is the set of signal names it selects.
Meaning(text) == IF text = "all" THEN Names ELSE {text}
MCPicks(text, m) == m.name \in Meaning(text)
INSTANCE Connection WITH Picks <- MCPicks

VARIABLES s, hist,
          used,      \* how often each kind of step was taken
          handed,    \* messages handed to the connection, in order
          granted,   \* "no": OK not received yet; "ok"; "all": may begin
          ran,       \* handlers and callbacks in the order they were invoked
          answered   \* serials of the replies received, and whether the call was pending
vars == <<s, hist, used, handed, granted, ran, answered>>
View == <<s, used, handed, granted, ran, answered>>

Kinds == {"send", "call", "reg", "rule", "line", "msg", "auth"}
Limit == [send |-> MaxSend, call |-> MaxCall, reg |-> MaxReg, rule |-> MaxRule, line |-> MaxLine, msg |-> MaxMsg, auth |-> 2]
Quiet == s.run = None /\ s.inbox = <<>> /\ s.todo = {}
MayAct == s.run # None \/ Quiet \/ ~Sequential
Use(k) == used[k] < Limit[k] /\ used' = [used EXCEPT ![k] = @ + 1]
Log(r) == hist' = IF Depth = 0 THEN hist ELSE Append(hist, r)
Total == used.send + used.call + used.reg + used.rule + used.msg
Id(x) == x \o ToString(Total)

Init == /\ s = IF Authed THEN ServerLine(BeginAuth(Fresh, FALSE, "AUTH"), "OK") ELSE Fresh
        /\ hist = <<>> /\ used = [k \in Kinds |-> 0] /\ handed = <<>> /\ granted = (IF Authed THEN "all" ELSE "no") /\ ran = <<>> /\ answered = {}

DoAuth == \E neg \in BOOLEAN :
    /\ MayAct /\ Use("auth") /\ (Depth > 0 => used.auth = 0 /\ s.auth = "start")
    /\ s' = BeginAuth(s, neg, "AUTH") /\ Log([a |-> "auth", neg |-> neg])
    /\ granted' = IF s.auth = "done" THEN granted ELSE "no"
    /\ UNCHANGED <<handed, ran, answered>>
DoSend == \E k \in {2, 3, 4} :
    /\ MayAct /\ Use("send") /\ (Depth = 0 => k = 4)
    /\ s' = Send(s, k, Id("m")) /\ handed' = Append(handed, Id("m"))
    /\ Log([a |-> "send", kind |-> k, id |-> Id("m")])
    /\ UNCHANGED <<granted, ran, answered>>
\* The call's number is its serial.  A name: an ordinary call; otherwise a bus operation.
DoCall == \E reply \in BOOLEAN, bus \in (IF Depth = 0 THEN {FALSE} ELSE BOOLEAN) :
    /\ MayAct /\ Use("call")
    /\ bus => reply
    /\ s' = Call(s, Id("m"), Id("c"), Total, reply, Id("c") \o "ok", Id("c") \o "err")
    /\ handed' = Append(handed, Id("m"))
    /\ Log([a |-> IF bus THEN "bus" ELSE "call", reply |-> reply, id |-> Id("c")])
    /\ UNCHANGED <<granted, ran, answered>>
DoRegister == \E n \in Names, of \in {"call", "signal"} :
    /\ MayAct /\ Use("reg")
    /\ s' = IF of = "call" THEN RegisterCall(s, n, Id("h")) ELSE RegisterSignal(s, n, Id("h"))
    /\ Log([a |-> "reg", of |-> of, name |-> n, id |-> Id("h")])
    /\ UNCHANGED <<handed, granted, ran, answered>>
DoUnregister == \E n \in Names, of \in {"call", "signal"} :
    /\ MayAct /\ Use("reg")
    /\ Named(IF of = "call" THEN s.calls ELSE s.signals, n) # {}
    /\ s' = IF of = "call" THEN UnregisterCall(s, n) ELSE UnregisterSignal(s, n)
    /\ Log([a |-> "unreg", of |-> of, name |-> n])
    /\ UNCHANGED <<handed, granted, ran, answered>>
DoAddRule == \E x \in Texts :
    /\ MayAct /\ Use("rule")
    /\ s' = Call(AddRule(s, x, Id("h")), Id("m"), Id("c"), Total, TRUE, Id("c") \o "ok", Id("c") \o "err")
    /\ handed' = Append(handed, Id("m"))
    /\ Log([a |-> "addmatch", text |-> x, id |-> Id("h"), cb |-> Id("c")])
    /\ UNCHANGED <<granted, ran, answered>>
DoRemoveRule == \E x \in Texts :
    /\ MayAct /\ Use("rule")
    /\ WithText(s, x) # {}
    /\ s' = Call(RemoveRule(s, x), Id("m"), Id("c"), Total, FALSE, None, None)
    /\ handed' = Append(handed, Id("m"))
    /\ Log([a |-> "remmatch", text |-> x, id |-> Id("c")])
    /\ UNCHANGED <<granted, ran, answered>>

Server == Quiet \/ ~Sequential
DoLine == \E w \in Words :
    /\ Server /\ Use("line") /\ s.auth \notin {"start", "done"}
    /\ s' = ServerLine(s, w) /\ Log([a |-> "line", word |-> w])
    /\ granted' = CASE w = "OK" /\ granted = "no" -> IF s.neg THEN "ok" ELSE "all"
                    [] w \in {"AGREE_UNIX_FD", "ERROR"} /\ granted = "ok" -> "all"
                    [] OTHER -> granted
    /\ UNCHANGED <<handed, ran, answered>>
Sent == { p.serial : p \in s.pend }
DoMessage == \E kind \in 1..4 :
    /\ (s.inbox = <<>> \/ Depth > 0 \/ Len(s.inbox) < 2) /\ (s.run = None \/ ~Sequential)
    /\ Use("msg") /\ s.auth = "done"
    /\ \/ /\ kind \in {1, 4}
          /\ \E n \in Names : s' = Arrive(s, [kind |-> kind, name |-> n, to |-> 0]) /\ Log([a |-> "msg", kind |-> kind, name |-> n])
          /\ UNCHANGED answered
       \/ /\ kind \in {2, 3}
          /\ \E to \in 0..(Total - 1) :
               /\ s' = Arrive(s, [kind |-> kind, name |-> "", to |-> to]) /\ Log([a |-> "msg", kind |-> kind, to |-> to])
               /\ answered' = answered \cup {[to |-> to, kind |-> kind, pending |-> to \in Sent /\ \A a \in answered : a.to # to]}
    /\ UNCHANGED <<handed, granted, ran>>
DoDeliver == /\ CanDeliver(s) /\ s' = Deliver(s) /\ Log([a |-> "deliver"])
             /\ UNCHANGED <<used, handed, granted, ran, answered>>
DoEnter == \E d \in s.todo :
    /\ CanEnter(s, d) /\ s' = Enter(s, d) /\ ran' = Append(ran, d.h) /\ Log([a |-> "enter", h |-> d.h])
    /\ UNCHANGED <<used, handed, granted, answered>>
DoLeave == /\ s.run # None /\ s' = Leave(s)
           /\ \E throws \in BOOLEAN : (Depth = 0 => ~throws) /\ Log([a |-> "leave", throws |-> throws])
           /\ UNCHANGED <<used, handed, granted, ran, answered>>

Next == DoAuth \/ DoSend \/ DoCall \/ DoRegister \/ DoUnregister \/ DoAddRule \/ DoRemoveRule \/ DoLine \/ DoMessage \/ DoDeliver \/ DoEnter \/ DoLeave
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Guarantees *)
IsMsg(x) == x.t = "msg"
\* C01: authentication lines, the last of them BEGIN, then messages only.
Begins == { i \in 1..Len(s.out) : s.out[i] = Line("BEGIN") }
Separation == /\ s.out[1] = Nul
              /\ Cardinality(Begins) = IF s.auth = "done" THEN 1 ELSE 0
              /\ \A i \in 2..Len(s.out) : IsMsg(s.out[i]) <=> \E b \in Begins : b < i
\* C02: what was handed over is on the wire or queued, once and in order.
OnWire == SelectSeq(s.out, IsMsg)
NothingLost == [i \in 1..Len(OnWire) |-> OnWire[i].m] \o s.queue = handed
\* C03: BEGIN only with the server's consent, and then without delay.
Consent == (s.auth = "done") = (granted = "all")
\* C15, C16: a call's callbacks are invoked at most once, and as its first reply demands.
Count(h) == Cardinality({ i \in 1..Len(ran) : ran[i] = h })
CallIds == { p.id : p \in s.pend }
Wanted(a) == "c" \o ToString(a.to) \o (IF a.kind = 2 THEN "ok" ELSE "err")
Once == \A i, j \in 1..Len(ran) : i < j /\ ran[i] = ran[j] => \A a \in answered : ran[i] # Wanted(a)
AnsweredRight == Quiet => \A a \in answered : (a.pending => Count(Wanted(a)) = 1)
NotUnasked == \A i \in 1..Len(ran) : (\E n \in 0..30 : ran[i] \in {"c" \o ToString(n) \o "ok", "c" \o ToString(n) \o "err"}) =>
                  \E a \in answered : a.pending /\ Wanted(a) = ran[i]
\* C17, C18: what runs is registered (or was, when the delivery began).
Handlers == { r.h : r \in s.calls \cup s.signals \cup s.rules }
RunsRegistered == [][ \A d \in s.todo : s'.run = d.h /\ s.run = None /\ d.of = "rule" => \E r \in s.rules : r.text = d.key /\ r.h = d.h ]_vars
Guarantees == Separation /\ NothingLost /\ Consent /\ Once /\ AnsweredRight /\ NotUnasked

\* Generation: print the history once it is long enough.
Emit == Depth = 0 \/ Len(hist) < Depth \/ PrintT("@@H " \o ToJson(hist))
=============================================================================
