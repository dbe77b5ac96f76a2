------------------------------ MODULE CheckWire ------------------------------
(* Decides recorded marshalling and unmarshalling results of the library      *)
(* against Wire.  Each case carries its input and what the code did with it;  *)
(* rejected cases are printed.                                                *)
EXTENDS Wire, Json

Cases == ndJsonDeserialize("cases.ndjson")
N == Len(Cases)
VARIABLES at, done
vars == <<at, done>>

Fill(n) == Run(170, n)

\* The specification's own theorems, on every (small enough) value used.
Sound(c) == RLen(Enc(c.v, c.off, c.le)) > 400
            \/ (RoundTrip(c.v, c.off, c.le) /\ PrefixRejected(c.v, c.off, c.le)
                /\ (c.v.t = "{" \/ WellFormed(Sig(c.v))))

Byte5 == [t |-> "y", b |-> <<5>>]
Wrap(v, how) == CASE how = "struct" -> [t |-> "(", c |-> <<Byte5, v>>]
                  [] how = "dict" -> [t |-> "{", c |-> <<Byte5, v>>]
                  [] how = "array" -> [t |-> "a", e |-> Sig(v), c |-> <<v, v>>]
                  [] OTHER -> v

Enc_(c) == IF c.obs.r # "val" THEN "marshalling failed: " \o c.obs.r
           ELSE IF c.obs.sig # Sig(c.v) THEN "wrong signature"
           ELSE IF c.obs.d # Canon(Enc(c.v, c.off, TRUE)) THEN "wrong octets"
           ELSE ""

GoodInput(c) == Canon(c.d) = Canon(Fill(c.off) \o Enc(c.v, c.off, c.le) \o c.tail) /\ c.sig = Sig(c.v)

Dec_(c) == IF c.obs.r # "val" THEN "unmarshalling failed: " \o c.obs.r
           ELSE IF c.obs.toks # Toks(c.v) THEN "wrong value"
           ELSE IF c.obs.rest # Canon(c.tail) THEN "wrong extent"
           ELSE ""
Re_(c) == IF c.obs.r # "val" THEN "not received: " \o c.obs.r
          ELSE LET w == Wrap(c.v, c.wrap) IN
               IF c.obs.resig # Sig(w) THEN "sent again with a different signature"
               ELSE IF c.obs.re # Canon(Enc(w, c.off2, TRUE)) THEN "sent again with different octets"
               ELSE ""

\* What the specification rejects.  (A signature that is not one complete
\* type does not name a value; as the signature of a message it is decided by
\* CheckMessage.)
Rejects(c) == c.op = "mal" /\
    LET d == Expand(c.d) IN
    TypeEnd(c.sig, 1) = Len(c.sig) + 1 /\ ~Dec(c.sig, d, c.off, Len(d), c.le, 0).ok

\* Malformed data: whenever the decoder of the specification rejects, so must
\* the code; and in any case it must come to an end, in proportionate memory.
Mal_(c) == LET d == Expand(c.d)
               rej == Rejects(c)
           IN  IF c.obs.r \notin {"val", "throw"} THEN "decoding did not finish cleanly: " \o c.obs.r
               ELSE IF c.obs.r = "val" /\ rej THEN "malformed data accepted"
               ELSE IF c.obs.r \in {"val", "throw"} /\ "kib" \in DOMAIN c.obs
                       /\ c.obs.kib > 1024 + 4 * Len(d) THEN "memory out of proportion"
               ELSE ""

Verdict(c) == IF c.obs.r = "skipped" THEN "skipped"
              ELSE CASE c.op = "enc" -> Enc_(c)
                     [] c.op = "dec" /\ c.want = "dec" -> Dec_(c)
                     [] c.op = "dec" /\ c.want = "re" -> Re_(c)
                     [] c.op = "mal" -> Mal_(c)

Infra(c) == CASE c.op = "enc" -> IF Sound(c) THEN "" ELSE "theorem"
              [] c.op = "dec" -> IF ~Sound(c) THEN "theorem" ELSE IF GoodInput(c) THEN "" ELSE "input"
              [] OTHER -> ""
Report(i) == LET c == Cases[i] IN
    /\ (IF Infra(c) = "" THEN TRUE ELSE PrintT("@@I " \o ToString(c.id) \o " " \o Infra(c)))
    /\ (IF Verdict(c) = "" THEN TRUE ELSE PrintT("@@V " \o ToString(c.id) \o " " \o Verdict(c)))
    /\ (IF ~Rejects(c) THEN TRUE ELSE PrintT("@@R " \o ToString(c.id)))

Init == at \in 1..N /\ done = FALSE
Next == ~done /\ Report(at) /\ done' = TRUE /\ UNCHANGED at
Spec == Init /\ [][Next]_vars
=============================================================================
