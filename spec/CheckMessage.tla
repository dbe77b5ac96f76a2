---------------------------- MODULE CheckMessage ----------------------------
(* Decides recorded runs of message construction and of message reception     *)
(* (streams of octets delivered in chunks) against Message and Framing.       *)
EXTENDS Message, Json

Cases == ndJsonDeserialize("cases.ndjson")
N == Len(Cases)
VARIABLES at,     \* the case
          nx,     \* the chunk that is received next (0: not started, -1: done)
          rest,   \* octets not received yet
          st,     \* the receiver
          got     \* deliveries observed during this chunk, not accounted for yet
vars == <<at, nx, rest, st, got>>

-----------------------------------------------------------------------------
Out(c) == IF c.obs.r # "val" THEN "construction failed: " \o c.obs.r
          ELSE LET params == IF c.kind = "error" THEN << Str(c.etext) >> ELSE c.params
                   w == OutWrong(c, c.obs.d, c.obs.serial, params)
               IN  IF w # "" THEN w
                   ELSE IF c.obs.serial = <<0, 0, 0, 0>> THEN "zero serial"
                   ELSE IF "unstable" \in DOMAIN c.obs THEN "two marshallings of one message differ"
                   ELSE ""

-----------------------------------------------------------------------------
\* Which of the received messages have a handler in this case.
Handled(c, r) == \/ c.via = "protocol"
                 \/ c.via = "native" /\ r.kind = CALL /\ \E i \in 1..Len(c.calls) : c.calls[i] = r.name
                 \/ c.via = "native" /\ r.kind = SIGNAL /\ \E i \in 1..Len(c.signals) : c.signals[i] = r.name

Say(kind, why) == PrintT("@@" \o kind \o " " \o ToString(Cases[at].id) \o (IF why = "" THEN "" ELSE " " \o why))

\* One chunk arrives.
Receive ==
    LET c == Cases[at] IN
    /\ nx > 0 /\ nx <= Len(c.chunks) /\ ~st.look
    /\ IF got = <<>>
       THEN /\ st' = F!Take(st, RTake(rest, c.chunks[nx]))
            /\ rest' = RDrop(rest, c.chunks[nx])
            /\ got' = c.obs.per[nx]
            /\ nx' = nx + 1
       ELSE /\ Say("V", "delivery that nothing accounts for, in chunk " \o ToString(nx - 1))
            /\ nx' = -1
            /\ UNCHANGED <<st, rest, got>>
    /\ UNCHANGED at
\* The receiver looks at what it holds: the messages that are complete, in
\* order, and no others, have been delivered before the chunk was done with.
LookAt ==
    LET c == Cases[at]
        r == TLCEval(F!One(st.buf, st.held))
    IN
    /\ nx > 0 /\ st.look
    /\ st' = F!Look(st, r)
    /\ IF r.end # "rejected" THEN TRUE ELSE Say("R", "")
    /\ IF r.end = "lost" THEN nx' = -1 /\ UNCHANGED got
       ELSE IF r.end # "message" THEN UNCHANGED <<nx, got>>
       ELSE LET e == TLCEval(Received(r.m, c.full))
                it == got # <<>> /\ got[1] = e.see
            IN  CASE ~Handled(c, e) \/ e.verdict = "drop" -> UNCHANGED <<nx, got>>
                  [] e.verdict = "deliver" -> IF it THEN nx' = nx /\ got' = Tail(got)
                                              ELSE /\ Say("V", "message not delivered as sent, in chunk " \o ToString(nx - 1))
                                                   /\ nx' = -1 /\ UNCHANGED got
                  [] e.verdict = "any" -> nx' = nx /\ got' = IF got # <<>> /\ got[1][2] = e.serial THEN Tail(got) ELSE got
    /\ UNCHANGED <<at, rest>>
End ==
    LET c == Cases[at] IN
    /\ nx > 0 /\ nx = Len(c.chunks) + 1 /\ ~st.look
    /\ IF got = <<>> THEN TRUE ELSE Say("V", "delivery that nothing accounts for, in the last chunk")
    /\ nx' = -1
    /\ UNCHANGED <<at, rest, st, got>>

Frame(c) == IF c.obs.r # "val" THEN "reception ended abnormally: " \o c.obs.r
            ELSE IF c.obs.kib > 4096 + 4 * RLen(c.d) THEN "memory out of proportion"
            ELSE ""
Verdict(c) == CASE c.op = "out" -> Out(c) [] c.op = "frame" -> Frame(c)
Start ==
    LET c == Cases[at]
        v == IF c.obs.r = "skipped" THEN "skipped" ELSE Verdict(c)
    IN  /\ nx = 0
        /\ IF v = "" THEN TRUE ELSE Say("V", v)
        /\ nx' = IF v = "" /\ c.op = "frame" THEN 1 ELSE -1
        /\ UNCHANGED <<at, st, got>>
        /\ rest' = IF nx' = 1 THEN c.d ELSE <<>>

Init == at \in 1..N /\ nx = 0 /\ rest = <<>> /\ st = F!Idle /\ got = <<>>
Next == Start \/ Receive \/ LookAt \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
