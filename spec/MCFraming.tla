------------------------------ MODULE MCFraming ------------------------------
(* Framing on a tiny format, explored for every stream and every segmentation *)
(* up to MaxTotal octets: delivery is a function of the stream since the last *)
(* discard alone, nothing is delivered twice, and bad frames are detected at  *)
(* the earliest octet.                                                        *)
EXTENDS Naturals
CONSTANTS Octets, MaxTotal, MaxChunk
LOCAL INSTANCE Bytes
\* Header: kind, body length, array length (fixed part), then the array.
TSane(b) == TRUE
TArrLen(b) == Expand(b)[3]
THdrLen(n) == LET x == 3 + n IN x + (x % 2)
TGoodHdr(h) == Expand(h)[1] # 3
TBodyLen(h) == Expand(h)[2]
F == INSTANCE Framing WITH Fixed <- 3, MaxArr <- 2, MaxMsg <- 6, Sane <- TSane, ArrLen <- TArrLen,
                           HdrLen <- THdrLen, GoodHdr <- TGoodHdr, BodyLen <- TBodyLen

VARIABLES stream,     \* octets received since the last discard
          total,      \* octets received
          rcv,        \* the receiver
          delivered,  \* messages delivered since the last discard
          last        \* how the last look ended
vars == <<stream, total, rcv, delivered, last>>
Init == stream = <<>> /\ total = 0 /\ rcv = F!Idle /\ delivered = <<>> /\ last = "none"
Chunks == UNION { [1..n -> Octets] : n \in 1..MaxChunk }
Receive(c) ==
    /\ ~rcv.look
    /\ total + Len(c) <= MaxTotal
    /\ total' = total + Len(c)
    /\ rcv' = F!Take(rcv, FromSeq(c))
    /\ stream' = stream \o c
    /\ UNCHANGED <<delivered, last>>
LookAt ==
    /\ rcv.look
    /\ LET r == F!One(rcv.buf, rcv.held) IN
       /\ rcv' = F!Look(rcv, r)
       /\ last' = r.end
       /\ delivered' = CASE r.end = "message" -> Append(delivered, r.m) [] r.end = "more" -> delivered [] OTHER -> <<>>
       /\ stream' = IF r.end \in {"message", "more"} THEN stream ELSE <<>>
    /\ UNCHANGED total
Next == LookAt \/ \E c \in Chunks : Receive(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(LookAt)

\* What a stream yields, by the format alone.
RECURSIVE Yield(_)
Yield(s) == LET r == F!One(FromSeq(s), Len(s))
            IN  IF r.end = "message" THEN <<r.m>> \o Yield(Expand(r.rest)) ELSE <<>>
Quiet == ~rcv.look
\* C05: what has been delivered depends only on the octets received.
SegmentationIndependent == Quiet => delivered = Yield(stream)
\* Every delivered message and the rest are the stream, in order, once.
RECURSIVE Whole(_)
Whole(ds) == IF ds = <<>> THEN <<>> ELSE Expand(ds[1].h) \o Expand(ds[1].b) \o Whole(Tail(ds))
ExactlyOnce == Whole(delivered) \o Expand(rcv.buf) = stream
HeldIsExact == rcv.held = Len(Expand(rcv.buf))
\* C07: nothing that must be rejected is ever held back waiting for more
Early == Quiet => LET b == Expand(rcv.buf) IN
         /\ Len(b) >= 3 => b[3] <= 2
         /\ (Len(b) >= 3 /\ Len(b) >= THdrLen(b[3])) =>
               (b[1] # 3 /\ THdrLen(b[3]) + b[2] <= 6 /\ Len(b) < THdrLen(b[3]) + b[2])
\* waiting for octets is waiting for the right number of them
NeedIsExact == Quiet => /\ rcv.held < rcv.need
                        /\ rcv.need = F!One(rcv.buf, rcv.held).need
ClearedOnReject == last = "rejected" /\ Quiet /\ stream = <<>> => rcv = F!Idle
\* the receiver always becomes ready for more
Ready == []<>Quiet
=============================================================================
