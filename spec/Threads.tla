------------------------------- MODULE Threads -------------------------------
(* A connection used by several threads.  An operation is called, takes       *)
(* effect at one moment, and returns; one that both changes the rules and     *)
(* sends takes effect at two.  Its effect is the step of Connection, except    *)
(* that, outside the delivering thread, taking a handler away waits until the *)
(* handler does not run, and destroying the connection until none does.        *)
(*                                                                            *)
(* An operation in flight: [t, o, st].  t: its thread, "io" if it is called   *)
(* by a handler.  st: "called", "ruled" (rules changed, nothing sent yet),    *)
(* "sent" (the other way round), "done".                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Picks(_, _),
          Auth           \* the line that begins authentication
C == INSTANCE Connection

Call(t, o) == [t |-> t, o |-> o, st |-> IF o.f \in {"new", "getstats"} THEN "done" ELSE "called"]
Inside(f) == f.t = "io"
Payload(o) == [id |-> o.id]
KindOf(o) == CASE o.kind = "return" -> 2 [] o.kind = "error" -> 3 [] OTHER -> 4
Sends(o) == o.f \in {"send", "call", "bus", "addmatch", "remmatch"}
Both(o) == o.f \in {"addmatch", "remmatch"}

\* A call's serial is its name.
Sent(s, o) == CASE o.f = "send" -> C!Send(s, KindOf(o), Payload(o))
                [] o.f = "call" -> C!Call(s, Payload(o), o.id, o.id, o.reply = 1, o.ok, o.err)
                [] o.f \in {"bus", "addmatch"} -> C!Call(s, Payload(o), o.id, o.id, TRUE, o.ok, o.err)
                [] o.f = "remmatch" -> C!Call(s, Payload(o), o.id, o.id, FALSE, C!None, C!None)
\* What the delivery in progress still owes under that name is not invoked any more.
Drop(s, of, key) == [s EXCEPT !.todo = { d \in @ : ~(d.of = of /\ d.key = key) }, !.may = { d \in @ : ~(d.of = of /\ d.key = key) }]
Other(s, f) == LET o == f.o IN
    CASE o.f = "auth" -> C!BeginAuth(s, o.neg = 1, Auth)
      [] o.f = "regc" -> C!RegisterCall(s, o.name, o.h)
      [] o.f = "regs" -> C!RegisterSignal(s, o.name, o.h)
      [] o.f = "unregc" -> IF Inside(f) THEN C!UnregisterCall(s, o.name) ELSE Drop(C!UnregisterCall(s, o.name), "call", o.name)
      [] o.f = "unregs" -> IF Inside(f) THEN C!UnregisterSignal(s, o.name) ELSE Drop(C!UnregisterSignal(s, o.name), "signal", o.name)
      [] o.f = "addmatch" -> C!AddRule(s, o.text, o.h)
      [] o.f = "remmatch" -> C!RemoveRule(s, o.text)
      [] o.f = "destroy" -> [s EXCEPT !.inbox = <<>>, !.todo = {}, !.may = {}]
      [] OTHER -> s
Running(s, tab, key) == \E r \in tab : r.h = s.run /\ (IF "name" \in DOMAIN r THEN r.name ELSE r.text) = key
Ready(s, f) == LET o == f.o IN
    CASE o.f = "unregc" -> Inside(f) \/ ~Running(s, s.calls, o.name)
      [] o.f = "unregs" -> Inside(f) \/ ~Running(s, s.signals, o.name)
      [] o.f = "remmatch" -> Inside(f) \/ ~Running(s, s.rules, o.text)
      [] o.f = "destroy" -> s.run = C!None
      [] OTHER -> TRUE
\* The ways in which an operation in flight can take effect now.
CanSend(f) == Sends(f.o) /\ f.st \in {"called", "ruled"}
CanAct(s, f) == (Both(f.o) \/ ~Sends(f.o)) /\ f.st \in {"called", "sent"} /\ Ready(s, f)
Moves(s, f) ==
    (IF CanSend(f) THEN {[s |-> Sent(s, f.o), sends |-> TRUE, f |-> [f EXCEPT !.st = IF Both(f.o) /\ f.st = "called" THEN "sent" ELSE "done"]]} ELSE {})
    \cup (IF CanAct(s, f) THEN {[s |-> Other(s, f), sends |-> FALSE, f |-> [f EXCEPT !.st = IF Both(f.o) /\ f.st = "called" THEN "ruled" ELSE "done"]]} ELSE {})
=============================================================================
