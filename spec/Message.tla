------------------------------- MODULE Message -------------------------------
(* D-Bus messages: what the library must write for each kind, and what a      *)
(* handler must see of a received one.                                        *)
EXTENDS Wire

HdrSig == "yyyyuua(yv)"
MaxArray == 67108864
MaxMessage == 134217728
BigBody == 20000          \* beyond this the model looks at sizes only

LE(h) == RTake(h, 1)[1][1] = 108     \* 'l'
W(h, pos, le) == LET w == Expand(RTake(RDrop(h, pos), 4)) IN WordVal(IF le THEN Rev(w) ELSE w)
RSane(h) == RTake(h, 1)[1][1] \in {108, 66}     \* 'l' or 'B'
RArrLen(h) == W(h, 12, LE(h))
RHdrLen(n) == LET x == 16 + n IN x + ((8 - (x % 8)) % 8)
DecHdr(h) == LET d == TLCEval(Expand(h)) IN DecMembers("(", HdrSig, d, 0, Len(d), LE(h), 0, <<>>)
RGoodHdr(h) == RLen(h) > BigBody \/ DecHdr(h).ok
RBodyLen(h) == W(h, 4, LE(h))

F == INSTANCE Framing WITH Fixed <- 16, MaxArr <- MaxArray, MaxMsg <- MaxMessage, Sane <- RSane,
        ArrLen <- RArrLen, HdrLen <- RHdrLen, GoodHdr <- RGoodHdr, BodyLen <- RBodyLen

-----------------------------------------------------------------------------
(* Header fields *)
PATH == 1  INTERFACE == 2  MEMBER == 3  ERRNAME == 4  REPLY == 5  DESTINATION == 6  SENDER == 7  SIGNATURE == 8
FieldType == << "o", "s", "s", "s", "u", "s", "s", "g", "u" >>
CALL == 1  RETURN == 2  ERROR == 3  SIGNAL == 4
KindName == << "call", "return", "error", "signal" >>

\* A header field as a value, and the fields of a decoded header.
Field(code, v) == [t |-> "(", c |-> << [t |-> "y", b |-> <<code>>], [t |-> "v", c |-> <<v>>] >>]
FCode(f) == f.c[1].b[1]
FVal(f) == f.c[2].c[1]

\* An outgoing header, as a value of the header struct.
HdrVal(kind, flags, blen, serial, fields) ==
    [t |-> "(", c |-> << [t |-> "y", b |-> <<108>>], [t |-> "y", b |-> <<kind>>], [t |-> "y", b |-> <<flags>>],
        [t |-> "y", b |-> <<1>>], [t |-> "u", b |-> Word(blen)], [t |-> "u", b |-> serial],
        [t |-> "a", e |-> "(yv)", c |-> fields] >>]

-----------------------------------------------------------------------------
(* Outgoing messages *)
Str(s) == [t |-> "s", s |-> AsciiR(s)]
Obj(s) == [t |-> "o", s |-> AsciiR(s)]
U(b) == [t |-> "u", b |-> b]

\* The fields each kind must carry: exactly these, in any order.
WantFields(c, params) ==
    (CASE c.kind = "call" -> { <<PATH, Obj(c.path)>>, <<INTERFACE, Str(c.iface)>>, <<MEMBER, Str(c.member)>>, <<DESTINATION, Str(c.dest)>> }
       [] c.kind = "return" -> { <<DESTINATION, Str(c.dest)>>, <<REPLY, U(c.rserial)>> }
       [] c.kind = "error" -> { <<DESTINATION, Str(c.dest)>>, <<REPLY, U(c.rserial)>>, <<ERRNAME, Str(c.ename)>> }
       [] c.kind = "signal" -> { <<PATH, Obj(c.path)>>, <<INTERFACE, Str(c.iface)>>, <<MEMBER, Str(c.member)>> }
              \cup (IF c.dest = "" THEN {} ELSE { <<DESTINATION, Str(c.dest)>> }))
    \cup (IF params = <<>> THEN {} ELSE { <<SIGNATURE, [t |-> "g", s |-> AsciiR(SigSeq(params))]>> })
KindNo(k) == CHOOSE i \in 1..4 : KindName[i] = k

\* d is a well-formed message of kind c.kind with these parameters; "" if so.
OutWrong(c, d, serial, params) ==
    IF RLen(d) < 16 THEN "too short"
    ELSE IF ~LE(d) THEN "byte order mark does not match its numbers"
    ELSE IF RArrLen(d) > 100000 \/ RHdrLen(RArrLen(d)) > RLen(d) THEN "header length"
    ELSE LET hs == RHdrLen(RArrLen(d))
             h == RTake(d, hs)
             x == DecHdr(h)
             body == RDrop(d, hs)
         IN
         IF ~x.ok THEN "header does not decode"
         ELSE LET fs == x.v.c[7].c
                  got == { <<FCode(fs[i]), FVal(fs[i])>> : i \in 1..Len(fs) }
                  canon == Canon(Enc(HdrVal(KindNo(c.kind), IF c.kind = "call" THEN c.flags ELSE 0, RLen(body), serial, fs), 0, TRUE))
              IN
              IF Canon(canon \o Zeros(hs - RLen(canon))) # Canon(h) THEN "header octets"
              ELSE IF Cardinality(got) # Len(fs) THEN "repeated header field"
              ELSE IF { <<g[1], Norm(g[2])>> : g \in got } # { <<g[1], Norm(g[2])>> : g \in WantFields(c, params) } THEN "header fields"
              ELSE IF Canon(body) # Canon(EncSeq(params, 0, TRUE)) THEN "body"
              ELSE ""

-----------------------------------------------------------------------------
(* Received messages *)
StrOct(v) == IF v.t \in Stringy THEN v.s ELSE <<>>
LastField(fs, code) == LET is == { i \in 1..Len(fs) : FCode(fs[i]) = code }
                  IN  IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
FieldOct(fs, code) == IF LastField(fs, code) = 0 THEN <<>> ELSE StrOct(FVal(fs[LastField(fs, code)]))
\* Headers nothing is said about: a known field twice or with another type.
Odd(fs) == \E i \in 1..Len(fs) : FCode(fs[i]) \in 1..9 /\
              (FVal(fs[i]).t # FieldType[FCode(fs[i])] \/ \E j \in 1..Len(fs) : j # i /\ FCode(fs[j]) = FCode(fs[i]))

BodySig(fs) == FieldOct(fs, SIGNATURE)
Printable(r) == \A i \in 1..Len(r) : r[i][1] >= 32 /\ r[i][1] <= 126
\* The parameters: [ok, vs, odd]
Params(fs, body, le) ==
    LET s == TLCEval(StrOf(Expand(BodySig(fs))))
             d == TLCEval(Expand(body))
         IN  IF s = "" THEN [ok |-> TRUE, vs |-> <<>>, odd |-> body # <<>>]
             ELSE LET r == DecMembers("(", s, d, 0, Len(d), le, 0, <<>>)
                  IN  IF ~r.ok THEN [ok |-> FALSE, odd |-> FALSE]
                      ELSE [ok |-> TRUE, vs |-> r.v.c, odd |-> r.pos # Len(d) \/ OddValue(r.v)]

\* What the library says of a received message: [kind, serial text, verdict, see].
\* verdict: "deliver", "drop" or "any" (nothing is required).
Received(m, full) ==
    LET le == LE(m.h)
        x == TLCEval(DecHdr(m.h).v.c)
        kind == x[2].b[1]
        serial == "serial " \o Decimal("u", x[6].b)
        fs == x[7].c
        big == RLen(m.b) > BigBody
        p == TLCEval(IF big THEN [ok |-> TRUE, vs |-> <<>>, odd |-> FALSE] ELSE Params(fs, m.b, le))
        rs == IF LastField(fs, REPLY) = 0 THEN "0" ELSE LET v == FVal(fs[LastField(fs, REPLY)]) IN IF v.t = "u" THEN Decimal("u", v.b) ELSE "?"
        opath == FieldOct(fs, PATH)
        oif == FieldOct(fs, INTERFACE)
        omem == FieldOct(fs, MEMBER)
        common == << "path " \o RText(opath), "interface " \o RText(oif),
                     "member " \o RText(omem), "sender " \o RText(FieldOct(fs, SENDER)),
                     "destination " \o RText(FieldOct(fs, DESTINATION)), "reply " \o rs,
                     "expected " \o (IF x[3].b[1] % 2 = 0 THEN "1" ELSE "0"),
                     "count " \o ToString(Len(p.vs)) >> \o TokSeq(p.vs) \o << "throws", "throws", "throws" >>
        text == IF Len(p.vs) > 0 /\ p.vs[1].t = "s" THEN p.vs[1].s ELSE <<>>
        own == CASE kind = CALL -> << "object " \o RText(opath), "interface " \o RText(oif),
                                      "method " \o RText(omem), "name " \o RText(oif \o B(46) \o omem) >>
                 [] kind = RETURN -> << "to " \o rs >>
                 [] kind = ERROR -> << "to " \o rs, "text " \o RText(text) >>
                 [] OTHER -> <<>>
    IN  [ kind |-> kind, serial |-> serial,
          name |-> IF Printable(oif) /\ Printable(omem) THEN StrOf(Expand(oif)) \o "." \o StrOf(Expand(omem)) ELSE "?",
          verdict |-> IF kind \notin 1..4 THEN "drop"
                      ELSE IF Odd(fs) THEN "any"
                      ELSE IF ~p.ok THEN "drop"
                      ELSE IF p.odd \/ x[6].b = <<0, 0, 0, 0>> THEN "any"
                      ELSE "deliver",
          see |-> IF kind \in 1..4 /\ p.ok THEN << KindName[kind], serial >> \o (IF full THEN common \o own ELSE <<>>) ELSE <<>> ]
=============================================================================
