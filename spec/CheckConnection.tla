-------------------------- MODULE CheckConnection --------------------------
(* Decides recorded runs of real connections: what the application did, what  *)
(* the bus sent, which handlers ran with which message, and every octet the   *)
(* client wrote must together be a behaviour of Connection.                   *)
EXTENDS MatchRule, Json

RulePicks(text, m) == LET r == Rule(text) IN r.r = "ok" /\ Selects(r.e, m.sig)
C == INSTANCE Connection WITH Picks <- RulePicks

Cases == ndJsonDeserialize("cases.ndjson")
N == Len(Cases)

VARIABLES at,      \* the case
          pc,      \* the event that comes next (0: not begun, -1: decided)
          s,       \* the connection
          ln,      \* octets from the bus that belong to an unfinished line
          fr,      \* the receiver of messages
          wire,    \* octets from the client, not accounted for yet
          g        \* the rest: counters of octets, whether the peer is there
vars == <<at, pc, s, ln, fr, wire, g>>

-----------------------------------------------------------------------------
(* Octets and lines *)
\* Where the first CR LF of r begins (in runs), or 0.
Eol(r) == LET is == { i \in 1..(Len(r) - 1) : r[i][1] = 13 /\ r[i + 1][1] = 10 }
          IN  IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
\* The line that ends there, and what follows it.
LineOf(r, i) == SubSeq(r, 1, i - 1) \o (IF r[i][2] > 1 THEN << <<13, r[i][2] - 1>> >> ELSE <<>>)
AfterLine(r, i) == (IF r[i + 1][2] > 1 THEN << <<10, r[i + 1][2] - 1>> >> ELSE <<>>) \o SubSeq(r, i + 2, Len(r))
WordOf(line) == LET e == Expand(line)
                    is == { i \in 1..Len(e) : e[i] = 32 }
                IN  StrOf(IF is = {} THEN e ELSE SubSeq(e, 1, (CHOOSE i \in is : \A j \in is : i <= j) - 1))
Text(line) == IF Printable(line) THEN StrOf(Expand(line)) ELSE "?"
Hex == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
HexOf(txt) == FoldLeft(LAMBDA a, i : a \o Hex[1 + (Code[Ch(txt, i)] \div 16)] \o Hex[1 + (Code[Ch(txt, i)] % 16)], "", [i \in 1..Len(txt) |-> i])
AuthLine(uid) == "AUTH EXTERNAL " \o HexOf(uid)

-----------------------------------------------------------------------------
(* Messages that the bus operations stand for *)
BusCall(member, args, flags) ==
    [kind |-> "call", path |-> "/org/freedesktop/DBus", iface |-> "org.freedesktop.DBus", member |-> member,
     dest |-> "org.freedesktop.DBus", flags |-> flags, params |-> args]
Kind(c) == KindNo(c.kind)

-----------------------------------------------------------------------------
(* What an operation of the application does *)
NoSerial == <<>>
RuleBad(text) == Rule(text).r = "reject"
Op(t, e, uid) ==
    LET o == e.o IN
    CASE o.f = "auth" -> C!BeginAuth(t, o.neg = 1, AuthLine(uid))
      [] o.f = "regc" -> C!RegisterCall(t, o.name, o.h)
      [] o.f = "regs" -> C!RegisterSignal(t, o.name, o.h)
      [] o.f = "unregc" -> C!UnregisterCall(t, o.name)
      [] o.f = "unregs" -> C!UnregisterSignal(t, o.name)
      [] o.f = "send" -> C!Send(t, Kind(o.c), [id |-> o.id, c |-> o.c, serial |-> e.serial, again |-> "again" \in DOMAIN o])
      [] o.f = "call" -> C!Call(t, [id |-> o.id, c |-> o.c, serial |-> e.serial], o.id, e.serial, o.c.flags % 2 = 0, o.ok, o.err)
      [] o.f = "bus" -> C!Call(t, [id |-> o.id, c |-> BusCall(o.m, o.args, 0), serial |-> NoSerial], o.id, NoSerial, TRUE, o.ok, o.err)
      [] o.f = "addmatch" /\ RuleBad(o.text) -> t
      [] o.f = "addmatch" -> C!Call(C!AddRule(t, o.text, o.h),
                                    [id |-> o.id, c |-> BusCall("AddMatch", << Str(o.text) >>, 0), serial |-> NoSerial], o.id, NoSerial, TRUE, o.ok, o.err)
      [] o.f = "remmatch" -> C!Call(C!RemoveRule(t, o.text),
                                    [id |-> o.id, c |-> BusCall("RemoveMatch", << Str(o.text) >>, 1), serial |-> NoSerial], o.id, NoSerial, FALSE, C!None, C!None)
\* An operation throws if and only if it adds a malformed rule.
OpThrows(o) == o.f = "addmatch" /\ RuleBad(o.text)

-----------------------------------------------------------------------------
(* What octets from the bus do *)
\* A received message as the connection knows it.
Incoming(m) ==
    LET r == Received(m, TRUE)
        fs == DecHdr(m.h).v.c[7].c
        to == IF LastField(fs, REPLY) = 0 THEN <<0, 0, 0, 0>> ELSE LET v == FVal(fs[LastField(fs, REPLY)]) IN IF v.t = "u" THEN v.b ELSE <<0, 0, 0, 0>>
    IN  [kind |-> IF r.verdict = "deliver" THEN r.kind ELSE 0, name |-> r.name, to |-> to, see |-> r.see,
         sig |-> IF r.kind = SIGNAL /\ r.verdict = "deliver" THEN SignalOf(m) ELSE [sender |-> ""]]
\* [s, ln, fr]: all that the octets held complete.
RECURSIVE Lines(_, _, _)
Lines(t, l, n) ==   \* n: octets of lines so far
    LET i == Eol(l) IN
    IF t.auth = "done" \/ i = 0 THEN [s |-> t, l |-> l, n |-> n]
    ELSE LET x == LineOf(l, i) IN Lines(C!ServerLine(t, WordOf(x)), AfterLine(l, i), n + RLen(x) + 2)
RECURSIVE Messages(_, _)
Messages(t, f) ==
    IF ~f.look THEN [s |-> t, fr |-> f]
    ELSE LET r == TLCEval(F!One(f.buf, f.held)) IN
         Messages(IF r.end = "message" THEN C!Arrive(t, TLCEval(Incoming(r.m))) ELSE t, TLCEval(F!Look(f, r)))

-----------------------------------------------------------------------------
(* What the client wrote, item by item *)
Wrong(why) == [ok |-> FALSE, why |-> why]
\* The first item of w: [ok, end, ...]; "more" if it is not complete.
WireItem(w, inMessages, first) ==
    IF w = <<>> THEN [end |-> "more"]
    ELSE IF first THEN [end |-> "item", x |-> IF w[1][1] = 0 THEN C!Nul ELSE C!Line("?"), rest |-> RDrop(w, 1)]
    ELSE IF ~inMessages
    THEN LET i == Eol(w) IN
         IF i = 0 THEN [end |-> "more"] ELSE [end |-> "item", x |-> C!Line(Text(LineOf(w, i))), rest |-> AfterLine(w, i)]
    ELSE LET r == F!One(w, RLen(w)) IN
         IF r.end = "message" THEN [end |-> "msg", d |-> r.m.h \o r.m.b, rest |-> r.rest]
         ELSE [end |-> r.end]
SerialOf(d) == Rev(Expand(RTake(RDrop(d, 8), 4)))
ParamsOf(c) == IF c.kind = "error" THEN << Str(c.etext) >> ELSE c.params
MessageWrong(m, d) ==
    LET serial == SerialOf(d) IN
    IF m.serial # NoSerial /\ m.serial # serial THEN "lost or reordered: message " \o m.id \o " expected next"
    ELSE IF serial = <<0, 0, 0, 0>> THEN "serial: zero"
    ELSE IF serial \in g.serials /\ ~("again" \in DOMAIN m /\ m.again) THEN "serial: used twice"
    ELSE LET w == OutWrong(m.c, d, serial, ParamsOf(m.c)) IN
         IF w = "" THEN "" ELSE IF m.serial = NoSerial THEN "bus operation: " \o m.id \o ": " \o w ELSE "octets: message " \o m.id \o ": " \o w

-----------------------------------------------------------------------------
(* Judging *)
Say(kind, why) == PrintT("@@" \o kind \o " " \o ToString(Cases[at].id) \o (IF why = "" THEN "" ELSE " " \o why))
Ev == Cases[at].obs.log[pc]
Fail(why) == Say("V", why \o " [event " \o ToString(pc) \o "]") /\ pc' = -1 /\ UNCHANGED <<at, s, ln, fr, wire, g>>
OfText(d) == CASE d.of = "call" -> "method call: " [] d.of = "reply" -> "reply: " [] OTHER -> "signal: "
\* An invocation that is still owed.
Missing(t) == LET d == CHOOSE d \in t.todo : TRUE IN OfText(d) \o "not delivered to " \o d.h

Start == /\ pc = 0
         /\ LET c == Cases[at] IN
            IF c.obs.r = "skipped" THEN pc' = -1
            ELSE IF c.obs.r # "val" THEN Say("V", "ended: " \o c.obs.r) /\ pc' = -1
            ELSE pc' = 1
         /\ UNCHANGED <<at, s, ln, fr, wire, g>>

OnOp == /\ Ev.e = "op"
        /\ IF OpThrows(Ev.o) # (Ev.r = "throw") THEN Fail("operation: " \o Ev.o.f \o " " \o Ev.r)
           ELSE /\ s' = TLCEval(Op(s, Ev, Cases[at].obs.uid))
                /\ pc' = pc + 1 /\ UNCHANGED <<at, ln, fr, wire, g>>

OnSrv == /\ Ev.e = "srv"
         /\ LET a == IF s.auth = "done" THEN [s |-> s, l |-> ln \o Ev.d, n |-> 0] ELSE TLCEval(Lines(s, ln \o Ev.d, 0))
                begun == a.s.auth = "done"
                m == IF begun THEN TLCEval(Messages(a.s, F!Take(fr, a.l))) ELSE [s |-> a.s, fr |-> fr]
            IN  /\ s' = m.s /\ fr' = m.fr
                /\ ln' = IF begun THEN <<>> ELSE a.l
                /\ g' = [g EXCEPT !.read = @ + RLen(Ev.d),
                                  !.auth = IF s.auth = "done" THEN @ ELSE IF begun THEN @ + RLen(Ev.d) - RLen(a.l) ELSE @ + RLen(Ev.d),
                                  !.cross = @ \/ (begun /\ s.auth # "done" /\ a.l # <<>>)]
                /\ pc' = pc + 1 /\ UNCHANGED <<at, wire>>

\* Messages that concern nobody are passed over.
RECURSIVE Skip(_)
Skip(t) == IF C!CanDeliver(t) THEN Skip(TLCEval(C!Deliver(t))) ELSE t
\* The message being delivered is the last one taken from the inbox.
RECURSIVE SkipTo(_, _)
SkipTo(t, m) == IF C!CanDeliver(t) THEN LET h == Head(t.inbox) IN SkipTo(TLCEval(C!Deliver(t)), h) ELSE [s |-> t, m |-> m]
OnEnter == /\ Ev.e = "enter"
           /\ LET r == IF \E d \in s.may : d.h = Ev.h THEN [s |-> s, m |-> g.now] ELSE TLCEval(SkipTo(s, g.now))
                  ds == { d \in r.s.todo \cup r.s.may : d.h = Ev.h }
              IN  IF ~g.alive THEN Fail("destroyed: handler " \o Ev.h \o " runs after the connection is destroyed")
                  ELSE IF s.run # C!None THEN Fail("handler: " \o Ev.h \o " runs inside " \o s.run)
                  ELSE IF ds = {} THEN Fail(IF r.s.todo # {} THEN Missing(r.s) \o ", " \o Ev.h \o " invoked"
                                            ELSE "unexpected: " \o Ev.see[1] \o ": invocation of " \o Ev.h)
                  ELSE IF r.m.see # Ev.see THEN Fail(OfText(CHOOSE d \in ds : TRUE) \o "another message than expected given to " \o Ev.h)
                  ELSE /\ s' = C!Enter(r.s, CHOOSE d \in ds : TRUE)
                       /\ g' = [g EXCEPT !.now = r.m]
                       /\ pc' = pc + 1 /\ UNCHANGED <<at, ln, fr, wire>>
OnLeave == /\ Ev.e = "leave"
           /\ s' = C!Leave(s) /\ pc' = pc + 1 /\ UNCHANGED <<at, ln, fr, wire, g>>

\* The octets the client wrote until all was quiet.  First all deliveries must
\* have been made; then the octets are compared, one item at a time.
OnWire == /\ Ev.e = "wire" /\ ~g.look
          /\ LET t == TLCEval(Skip(s)) IN
             IF t.run # C!None THEN Fail("handler: " \o t.run \o " does not return")
             ELSE IF g.alive /\ t.todo # {} THEN Fail(Missing(t) \o (IF g.cross THEN " (cross)" ELSE ""))
             ELSE /\ s' = t /\ wire' = wire \o Ev.d /\ g' = [g EXCEPT !.look = TRUE, !.sent = @ + RLen(Ev.d), !.cross = FALSE]
                  /\ UNCHANGED <<at, pc, ln, fr>>
OnItem == /\ Ev.e = "wire" /\ g.look
          /\ LET w == TLCEval(WireItem(wire, g.begun, g.first)) IN
             IF w.end = "more" \/ ~g.peer
             THEN IF Ev.all /\ g.peer /\ g.alive /\ s.out # <<>>
                  THEN Fail(IF s.out[1].t = "msg" THEN "lost: message " \o s.out[1].m.id \o " not written" ELSE "handshake: expected " \o ToString(s.out[1]))
                  ELSE IF Ev.all /\ g.peer /\ g.alive /\ wire # <<>> THEN Fail("lost: octets after the last message")
                  ELSE /\ g' = [g EXCEPT !.look = FALSE] /\ pc' = pc + 1 /\ UNCHANGED <<at, s, ln, fr, wire>>
             ELSE IF w.end \in {"lost", "rejected"} THEN Fail("octets: what is written is not a message")
             ELSE IF s.out = <<>> THEN Fail(IF w.end = "item" THEN "handshake: unexpected line" ELSE "duplicate: unexpected message")
             ELSE LET x == s.out[1] IN
                  IF w.end = "item"
                  THEN IF w.x # x THEN Fail(IF x.t = "msg" THEN "separation: line among messages" ELSE "handshake: expected " \o ToString(x) \o " not " \o ToString(w.x))
                       ELSE /\ s' = [s EXCEPT !.out = Tail(@)] /\ wire' = w.rest
                            /\ g' = [g EXCEPT !.first = FALSE, !.begun = x = C!Line("BEGIN")]
                            /\ UNCHANGED <<at, pc, ln, fr>>
                  ELSE IF x.t # "msg" THEN Fail("separation: message among lines")
                  ELSE LET bad == TLCEval(MessageWrong(x.m, w.d)) IN
                       IF bad # "" THEN Fail(bad)
                       ELSE /\ s' = C!Bind([s EXCEPT !.out = Tail(@)], x.m.id, SerialOf(w.d)) /\ wire' = w.rest
                            /\ g' = [g EXCEPT !.serials = @ \cup {SerialOf(w.d)}]
                            /\ UNCHANGED <<at, pc, ln, fr>>

Want(name) == CASE name = "count_sent_methodcalls" -> s.cnt.sent[1] [] name = "count_sent_methodreturns" -> s.cnt.sent[2]
                [] name = "count_sent_errors" -> s.cnt.sent[3] [] name = "count_sent_signals" -> s.cnt.sent[4]
                [] name = "count_receive_methodcalls" -> s.cnt.recv[1] [] name = "count_receive_methodreturns" -> s.cnt.recv[2]
                [] name = "count_receive_errors" -> s.cnt.recv[3] [] name = "count_receive_signals" -> s.cnt.recv[4]
                [] name = "count_messages_queued" -> s.cnt.queued [] name = "count_messages_pumped" -> s.cnt.pumped
                [] name = "bytes_auth" -> g.auth [] name = "bytes_message" -> g.read - g.auth
                [] name = "bytes_read" -> g.read [] name = "bytes_sent" -> g.sent
                [] OTHER -> -1
StatNames == {"count_sent_methodcalls", "count_sent_methodreturns", "count_sent_errors", "count_sent_signals",
              "count_receive_methodcalls", "count_receive_methodreturns", "count_receive_errors", "count_receive_signals",
              "count_messages_queued", "count_messages_pumped", "bytes_auth", "bytes_message", "bytes_read", "bytes_sent"}
\* bytes_sent: with or without the NUL octet.
StatWrong(v) == LET bad == { i \in 1..Len(v) : Want(v[i][1]) # -1 /\ v[i][2] # Want(v[i][1]) /\ ~(v[i][1] = "bytes_sent" /\ v[i][2] = Want(v[i][1]) - 1) }
                    miss == { n \in StatNames : \A i \in 1..Len(v) : v[i][1] # n }
                IN  IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN v[i][1] \o " is " \o ToString(v[i][2]) \o " not " \o ToString(Want(v[i][1]))
                    ELSE IF miss # {} THEN (CHOOSE n \in miss : TRUE) \o " not reported" ELSE ""
OnStats == /\ Ev.e = "stats"
           /\ LET w == StatWrong(Ev.v) IN
              IF w # "" THEN Fail("statistics: " \o w)
              ELSE pc' = pc + 1 /\ UNCHANGED <<at, s, ln, fr, wire, g>>

OnClose == /\ Ev.e = "close"
           /\ g' = [g EXCEPT !.peer = FALSE] /\ pc' = pc + 1 /\ UNCHANGED <<at, s, ln, fr, wire>>
OnDestroy == /\ Ev.e = "destroy"
             /\ IF Ev.ms > 5000 THEN Fail("destroyed: destruction took " \o ToString(Ev.ms) \o " ms")
                ELSE g' = [g EXCEPT !.alive = FALSE] /\ pc' = pc + 1 /\ UNCHANGED <<at, s, ln, fr, wire>>
End == /\ pc > Len(Cases[at].obs.log) /\ pc' = -1 /\ UNCHANGED <<at, s, ln, fr, wire, g>>

Init == /\ at \in 1..N /\ pc = 0 /\ s = C!Fresh /\ ln = <<>> /\ fr = F!Idle /\ wire = <<>>
        /\ g = [auth |-> 0, read |-> 0, sent |-> 0, peer |-> TRUE, alive |-> TRUE, look |-> FALSE, begun |-> FALSE, first |-> TRUE,
                now |-> [see |-> <<>>], serials |-> {}, cross |-> FALSE]
Next == \/ Start
        \/ pc > 0 /\ (IF pc > Len(Cases[at].obs.log) THEN End
                      ELSE OnOp \/ OnSrv \/ OnEnter \/ OnLeave \/ OnWire \/ OnItem \/ OnStats \/ OnClose \/ OnDestroy)
Spec == Init /\ [][Next]_vars
\* A run is judged along one path: where on it a state is identifies it.
View == <<at, pc, g.look, Len(s.out)>>
=============================================================================
