----------------------------- MODULE Connection -----------------------------
(* A client connection: authentication, what is sent, calls waiting for their *)
(* replies, registered handlers and match rules, and the delivery of received *)
(* messages, whose handlers may use the connection while they run.            *)
(*                                                                            *)
(* The state is one record and every step a function of it, so that the same  *)
(* steps drive the exhaustive exploration (MCConnection), the generation of   *)
(* histories, and the judging of recorded runs (CheckConnection).             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Picks(_, _)     \* Picks(text, m): does the match rule select signal m?

Nul == [t |-> "nul"]
Line(x) == [t |-> "line", s |-> x]
Msg(m) == [t |-> "msg", m |-> m]
None == "none"            \* no handler, no callback

\* auth: "start" (nothing sent), "ok" (waiting for OK), "agree" (waiting for the
\* answer to NEGOTIATE_UNIX_FD), "begun" (BEGIN sent), "done".
Fresh == [ auth |-> "start", neg |-> FALSE,
           out |-> << Nul >>,       \* written, and not looked at by the observer yet
           queue |-> <<>>,          \* messages that wait for the end of authentication
           pend |-> {},             \* calls that wait for a reply: [id, serial, ok, err]
           calls |-> {}, signals |-> {},   \* [name, h]
           rules |-> {},            \* [text, h]
           inbox |-> <<>>,          \* received, not begun to be delivered
           todo |-> {},             \* invocations the current delivery still owes
           may |-> {},              \* invocations it may or may not make
           run |-> None,            \* the handler that is running
           cnt |-> [ sent |-> <<0, 0, 0, 0>>, recv |-> <<0, 0, 0, 0>>, queued |-> 0, pumped |-> 0 ] ]

-----------------------------------------------------------------------------
(* Authentication *)
BeginAuth(s, negotiate, line) ==
    IF s.auth \in {"begun", "done"} THEN s
    ELSE [s EXCEPT !.auth = "ok", !.neg = negotiate, !.out = Append(@, Line(line))]
\* The end of authentication: the line is written, then what waits is let go.
Begin(s) == [s EXCEPT !.auth = "begun", !.out = Append(@, Line("BEGIN"))]
Open(s) == [s EXCEPT !.auth = "done", !.out = @ \o [i \in 1..Len(s.queue) |-> Msg(s.queue[i])],
                     !.queue = <<>>, !.cnt.pumped = @ + Len(s.queue)]
\* The server's line; only its first word matters.
Hear(s, word) ==
    CASE s.auth = "ok" /\ word = "OK" ->
            IF s.neg THEN [s EXCEPT !.auth = "agree", !.out = Append(@, Line("NEGOTIATE_UNIX_FD"))] ELSE Begin(s)
      [] s.auth = "agree" /\ word \in {"AGREE_UNIX_FD", "ERROR"} -> Begin(s)
      [] OTHER -> s
ServerLine(s, word) == LET t == Hear(s, word) IN IF t.auth = "begun" THEN Open(t) ELSE t

-----------------------------------------------------------------------------
(* Sending *)
Transmit(s, m) == IF s.auth = "done" THEN [s EXCEPT !.out = Append(@, Msg(m))]
                  ELSE [s EXCEPT !.queue = Append(@, m), !.cnt.queued = @ + 1]
Send(s, kind, m) == Transmit([s EXCEPT !.cnt.sent[kind] = @ + 1], m)
\* A call; reply = FALSE if no reply is wanted.  The serial is 0 until known.
Call(s, m, id, serial, reply, ok, err) ==
    Send(IF reply THEN [s EXCEPT !.pend = @ \cup {[id |-> id, serial |-> serial, ok |-> ok, err |-> err]}] ELSE s, 1, m)
\* The serial under which a call was seen to be sent.
Bind(s, id, serial) == [s EXCEPT !.pend = { IF p.id = id THEN [p EXCEPT !.serial = serial] ELSE p : p \in @ }]

-----------------------------------------------------------------------------
(* Registrations *)
Named(tab, name) == { r \in tab : r.name = name }
Register(tab, name, h) == IF Named(tab, name) # {} THEN tab ELSE tab \cup {[name |-> name, h |-> h]}
RegisterCall(s, name, h) == [s EXCEPT !.calls = Register(@, name, h)]
RegisterSignal(s, name, h) == [s EXCEPT !.signals = Register(@, name, h)]
\* What has been unregistered during a delivery that owes it an invocation:
\* a match rule is not invoked any more, a named handler may be.
UnregisterCall(s, name) == [s EXCEPT !.calls = @ \ Named(@, name)]
UnregisterSignal(s, name) ==
    LET gone == { d \in s.todo : d.of = "signal" /\ d.key = name } IN
    [s EXCEPT !.signals = @ \ Named(@, name), !.todo = @ \ gone, !.may = @ \cup gone]
WithText(s, text) == { r \in s.rules : r.text = text }
AddRule(s, text, h) == IF WithText(s, text) # {} THEN s ELSE [s EXCEPT !.rules = @ \cup {[text |-> text, h |-> h]}]
RemoveRule(s, text) == [s EXCEPT !.rules = @ \ WithText(s, text), !.todo = { d \in @ : ~(d.of = "rule" /\ d.key = text) }]

-----------------------------------------------------------------------------
(* Receiving.  A message is [kind, name, to, ...]: its interface.member, the  *)
(* serial it replies to.  kind 0 stands for one that is dropped.              *)
Arrive(s, m) == [s EXCEPT !.inbox = Append(@, m)]
Due(of, key, h) == IF h = None THEN {} ELSE {[of |-> of, key |-> key, h |-> h]}
Owed(s, m) ==
    CASE m.kind = 1 -> UNION { Due("call", r.name, r.h) : r \in Named(s.calls, m.name) }
      [] m.kind = 2 -> UNION { Due("reply", p.id, p.ok) : p \in { q \in s.pend : q.serial = m.to } }
      [] m.kind = 3 -> UNION { Due("reply", p.id, p.err) : p \in { q \in s.pend : q.serial = m.to } }
      [] m.kind = 4 -> UNION ({ Due("signal", r.name, r.h) : r \in Named(s.signals, m.name) }
                              \cup { Due("rule", r.text, r.h) : r \in { q \in s.rules : Picks(q.text, m) } })
      [] OTHER -> {}
CanDeliver(s) == s.run = None /\ s.todo = {} /\ s.inbox # <<>>
Deliver(s) ==
    LET m == Head(s.inbox)
        t == [s EXCEPT !.inbox = Tail(@), !.todo = Owed(s, m), !.may = {},
                       !.pend = IF m.kind \in {2, 3} THEN { p \in @ : p.serial # m.to } ELSE @]
    IN  IF m.kind \in 1..4 THEN [t EXCEPT !.cnt.recv[m.kind] = @ + 1] ELSE t
CanEnter(s, d) == s.run = None /\ d \in s.todo \cup s.may
Enter(s, d) == [s EXCEPT !.run = d.h, !.todo = @ \ {d}, !.may = @ \ {d}]
Leave(s) == [s EXCEPT !.run = None]
=============================================================================
