------------------------------ MODULE Framing ------------------------------
(* How a received octet stream becomes messages.  The format is a parameter,  *)
(* so that the design can be explored exhaustively on a tiny format           *)
(* (MCFraming) and the code judged on the real one (Message).                 *)
EXTENDS Bytes

CONSTANTS Fixed,          \* octets of the fixed part, which ends with the array length
          MaxArr, MaxMsg, \* limits
          Sane(_),        \* of a fixed part: does the format say anything about it?
          ArrLen(_),      \* of a fixed part
          HdrLen(_),      \* complete header length for an array length
          GoodHdr(_),     \* does a complete header decode?
          BodyLen(_)      \* declared by a complete header

\* What n octets buf begin with: a complete "message" (with the rest after it),
\* "more" octets are needed (how many must be held before anything can happen),
\* something to be "rejected" and discarded with all that is held, or something
\* the format is silent about ("lost").
More(n) == [end |-> "more", need |-> n]
One(buf, n) ==
    IF n < Fixed THEN More(Fixed)
    ELSE LET fixed == RTake(buf, Fixed) IN
         IF ~Sane(fixed) THEN [end |-> "lost"]
         ELSE LET al == ArrLen(fixed) IN
              IF al > MaxArr THEN [end |-> "rejected"]
              ELSE LET hs == HdrLen(al) IN
                   IF n < hs THEN More(hs)
                   ELSE LET h == TLCEval(RTake(buf, hs)) IN
                        IF ~GoodHdr(h) THEN [end |-> "rejected"]
                        ELSE LET bl == BodyLen(h) IN
                             IF bl > MaxMsg - hs THEN [end |-> "rejected"]
                             ELSE IF n < hs + bl THEN More(hs + bl)
                             ELSE LET x == TLCEval(RDrop(buf, hs))
                                  IN  [end |-> "message", m |-> [h |-> h, b |-> RTake(x, bl)], rest |-> RDrop(x, bl), size |-> hs + bl]

-----------------------------------------------------------------------------
(* The receiver: what it holds, how many octets that is, how many it needs    *)
(* before it can go on, and whether it has to look at what it holds.          *)
Idle == [buf |-> <<>>, held |-> 0, need |-> Fixed, look |-> FALSE]
Take(st, chunk) == LET n == st.held + RLen(chunk)
                   IN  [buf |-> st.buf \o chunk, held |-> n, need |-> st.need, look |-> n >= st.need]
\* One look at what is held.
Look(st, r) == CASE r.end = "message" -> [buf |-> r.rest, held |-> st.held - r.size, need |-> Fixed, look |-> TRUE]
                 [] r.end = "more" -> [st EXCEPT !.need = r.need, !.look = FALSE]
                 [] OTHER -> Idle
=============================================================================
