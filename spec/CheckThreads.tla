---------------------------- MODULE CheckThreads ----------------------------
(* Decides recorded runs of concurrent programs: several application threads, *)
(* the delivering thread, and the bus.  A run is accepted if and only if every *)
(* operation can be given a moment between its call and its return at which it *)
(* takes effect (two for those that both change the rules and send), such that *)
(* what was observed is a behaviour of Connection.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Explain        \* say how far each history can be followed
Cases == ndJsonDeserialize("cases.ndjson")
N == Len(Cases)

Listed(text, m) == \E i \in 1..Len(m.picks) : m.picks[i] = text
T == INSTANCE Threads WITH Picks <- Listed, Auth <- Cases[1].auth
C == INSTANCE Connection WITH Picks <- Listed

VARIABLES at,      \* the case
          pc,      \* the event that comes next
          s,       \* the connection
          fly,     \* operations that have been called and have not returned: [t, o, st]
          lines,   \* lines received and not acted on
          g        \* what else is remembered
vars == <<at, pc, s, fly, lines, g>>
Log == Cases[at].log
Ev == Log[pc]

-----------------------------------------------------------------------------
\* The messages appear on the wire in the order in which they are accepted:
\* only the one that comes next there can be accepted now.
Turn(o) == LET ord == Cases[at].order IN
           IF g.accepted < Len(ord) THEN ord[g.accepted + 1] = o.id ELSE \A i \in 1..Len(ord) : ord[i] # o.id
Effect == \E f \in fly : \E x \in T!Moves(s, f) :
    /\ x.sends => Turn(f.o)
    /\ s' = TLCEval(x.s)
    /\ fly' = (fly \ {f}) \cup {x.f}
    /\ g' = [g EXCEPT !.accepted = @ + (IF x.sends THEN 1 ELSE 0), !.dead = @ \/ f.o.f = "destroy"]
    /\ UNCHANGED <<at, pc, lines>>

\* The delivering thread.
ActOnLine == /\ lines # <<>> /\ ~g.dead
             /\ s' = TLCEval(C!Hear(s, Head(lines))) /\ lines' = Tail(lines)
             /\ UNCHANGED <<at, pc, fly, g>>
LetGo == /\ s.auth = "begun" /\ ~g.dead
         /\ s' = TLCEval(C!Open(s))
         /\ UNCHANGED <<at, pc, fly, lines, g>>
Deliver == /\ lines = <<>> /\ s.auth = "done" /\ ~g.dead /\ C!CanDeliver(s)
           /\ g' = [g EXCEPT !.now = Head(s.inbox).id]
           /\ s' = TLCEval(C!Deliver(s))
           /\ UNCHANGED <<at, pc, fly, lines>>

-----------------------------------------------------------------------------
(* Following the log.  What may happen unseen is considered only before an    *)
(* event that demands something: it can always be put off until then.         *)
Go == pc' = pc + 1 /\ UNCHANGED at
Opening == Ev.e \in {"b", "srv", "leave", "close"}
OnBegin == Ev.e = "b" /\ fly' = fly \cup {T!Call(Ev.t, Ev.o)}
           /\ Go /\ UNCHANGED <<s, lines, g>>
OnSrv == /\ Ev.e = "srv"
         /\ IF Ev.x.kind = 0 THEN lines' = Append(lines, Ev.x.w) /\ s' = s
            ELSE s' = C!Arrive(s, Ev.x) /\ lines' = lines
         /\ Go /\ UNCHANGED <<fly, g>>
OnClose == Ev.e = "close" /\ g' = [g EXCEPT !.peer = FALSE] /\ Go /\ UNCHANGED <<s, fly, lines>>
OnLeave == Ev.e = "leave" /\ s' = C!Leave(s) /\ Go /\ UNCHANGED <<fly, lines, g>>

OnEnd == /\ Ev.e = "e" /\ Ev.r = "ok" /\ Ev.ms <= 5000
         /\ \E f \in fly : f.t = Ev.t /\ f.st = "done" /\ fly' = fly \ {f}
         /\ Go /\ UNCHANGED <<s, lines, g>>
OnGot == /\ Ev.e = "got" /\ s.out # <<>>
         /\ LET x == s.out[1] IN
            \/ Ev.x.t = "nul" /\ x = C!Nul /\ g' = g
            \/ Ev.x.t = "line" /\ x.t = "line" /\ x.s = Ev.x.s /\ g' = g
            \/ Ev.x.t = "msg" /\ x.t = "msg" /\ x.m.id = Ev.x.id
               /\ Ev.n # "0" /\ Ev.n \notin g.serials /\ g' = [g EXCEPT !.serials = @ \cup {Ev.n}]
         /\ s' = [s EXCEPT !.out = Tail(@)]
         /\ Go /\ UNCHANGED <<fly, lines>>
OnEnter == /\ Ev.e = "enter" /\ g.now = Ev.m /\ ~g.dead
           /\ \E d \in s.todo \cup s.may : d.h = Ev.h /\ C!CanEnter(s, d) /\ s' = C!Enter(s, d)
           /\ Go /\ UNCHANGED <<fly, lines, g>>
\* Nothing moves any more.
OnRest == /\ Ev.e = "rest" /\ fly = {} /\ lines = <<>>
          /\ s.run = C!None /\ s.todo = {} /\ (s.auth = "done" => s.inbox = <<>>)
          /\ (g.peer /\ ~Ev.hold) => s.out = <<>> /\ Ev.left = 0
          /\ Go /\ UNCHANGED <<s, fly, lines, g>>
Count(name) == LET v == Ev.v IN IF name \in DOMAIN v THEN v[name] ELSE 999999999
CountsRight ==
    /\ Count("count_sent_methodcalls") = s.cnt.sent[1] /\ Count("count_sent_methodreturns") = s.cnt.sent[2]
    /\ Count("count_sent_errors") = s.cnt.sent[3] /\ Count("count_sent_signals") = s.cnt.sent[4]
    /\ Count("count_receive_methodcalls") = s.cnt.recv[1] /\ Count("count_receive_methodreturns") = s.cnt.recv[2]
    /\ Count("count_receive_errors") = s.cnt.recv[3] /\ Count("count_receive_signals") = s.cnt.recv[4]
    /\ Count("count_messages_queued") = s.cnt.queued /\ Count("count_messages_pumped") = s.cnt.pumped
    /\ Count("bytes_read") = Ev.read /\ Count("bytes_auth") = Ev.auth /\ Count("bytes_message") = Ev.read - Ev.auth
    /\ Cases[at].held \/ ~g.peer \/ Count("bytes_sent") \in {Ev.sent, Ev.sent - 1}
OnStats == Ev.e = "stats" /\ CountsRight /\ Go /\ UNCHANGED <<s, fly, lines, g>>
OnFin == /\ Ev.e = "fin"
         /\ Cardinality({ Ev.serials[i] : i \in 1..Len(Ev.serials) } \ {"0"}) = Len(Ev.serials)
         /\ Go /\ UNCHANGED <<s, fly, lines, g>>

OnBulk == Ev.e = "bulk" /\ Ev.distinct = Ev.n /\ Ev.zeros = 0 /\ Go /\ UNCHANGED <<s, fly, lines, g>>

Say(kind, why) == PrintT("@@" \o kind \o " " \o ToString(Cases[at].id) \o (IF why = "" THEN "" ELSE " " \o why))
\* (doom stands for a crash or a deadlock: it is never followed)
Accept == pc = Len(Log) + 1 /\ Say("A", "") /\ pc' = pc + 1 /\ UNCHANGED <<at, s, fly, lines, g>>

Init == /\ at \in 1..N /\ pc = 1 /\ s = C!Fresh /\ fly = {} /\ lines = <<>>
        /\ g = [accepted |-> 0, peer |-> TRUE, dead |-> FALSE, now |-> "", serials |-> {}]
Next == \/ Accept
        \/ /\ pc <= Len(Log)
           /\ IF Explain THEN Say("P", ToString(pc)) ELSE TRUE
           /\ \/ OnBegin \/ OnSrv \/ OnClose \/ OnLeave
              \/ ~Opening /\ (Effect \/ ActOnLine \/ LetGo \/ Deliver)
              \/ OnEnd \/ OnGot \/ OnEnter \/ OnRest \/ OnStats \/ OnFin \/ OnBulk
Spec == Init /\ [][Next]_vars
=============================================================================
