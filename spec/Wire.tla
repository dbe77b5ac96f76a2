-------------------------------- MODULE Wire --------------------------------
(* The D-Bus marshalling format: values, their signatures, their encoding at  *)
(* any offset in either byte order, and a total decoder that says for every   *)
(* octet string either the decoded value or that it must be rejected.         *)
(*                                                                            *)
(* Values:                                                                    *)
(*   [t |-> c, b |-> octets msb first]     fixed size scalars  y n q b i u x t d *)
(*   [t |-> c, s |-> runs]                 s, o, g                            *)
(*   [t |-> "a", e |-> element signature, c |-> elements]                     *)
(*   [t |-> "(", c |-> members]   [t |-> "{", c |-> <<key, value>>]           *)
(*   [t |-> "v", c |-> <<content>>]                                           *)
EXTENDS Bytes

Fixed == {"y", "n", "q", "b", "i", "u", "x", "t", "d"}
Stringy == {"s", "o", "g"}
Basic == Fixed \cup Stringy
\* 'h' is a D-Bus basic type the library does not support: it may be named as a
\* dictionary key type but no value of it can be decoded.
BasicCode == Basic \cup {"h"}
Container == {"a", "(", "{", "v"}
Supported == Basic \cup Container

SizeOf == TLCEval([ c \in Fixed |-> CASE c = "y" -> 1 [] c \in {"n", "q"} -> 2
                              [] c \in {"b", "i", "u"} -> 4 [] OTHER -> 8 ])
AlignOf == TLCEval([ c \in Supported |->
               CASE c \in {"y", "g", "v"} -> 1 [] c \in {"n", "q"} -> 2
                 [] c \in {"b", "i", "u", "s", "o", "a"} -> 4 [] OTHER -> 8 ])
Align(c) == IF c \in Supported THEN AlignOf[c] ELSE 1
Pad(off, al) == (al - (off % al)) % al

-----------------------------------------------------------------------------
(* Signatures *)
RECURSIVE Sig(_), SigSeq(_)
Sig(v) == CASE v.t \in Basic -> v.t
            [] v.t = "a" -> "a" \o v.e
            [] v.t = "(" -> "(" \o SigSeq(v.c) \o ")"
            [] v.t = "{" -> "{" \o SigSeq(v.c) \o "}"
            [] v.t = "v" -> "v"
SigSeq(vs) == IF vs = <<>> THEN "" ELSE Sig(vs[1]) \o SigSeq(Tail(vs))

\* The index just past the single complete type that starts at i, or 0 when the
\* signature is malformed there.  Brackets are matched by kind; what is inside
\* them is examined only when a value of that type is decoded.
RECURSIVE MatchFrom(_, _, _, _, _)
MatchFrom(sig, i, open, close, n) ==
    IF i > Len(sig) THEN 0
    ELSE LET c == Ch(sig, i)
             m == IF c = open THEN n + 1 ELSE IF c = close THEN n - 1 ELSE n
         IN  IF m = 0 THEN i + 1 ELSE MatchFrom(sig, i + 1, open, close, m)
RECURSIVE TypeEnd(_, _)
TypeEnd(sig, i) ==
    IF i > Len(sig) THEN 0
    ELSE LET c == Ch(sig, i) IN
         CASE c = "a" -> TypeEnd(sig, i + 1)
           [] c = "(" -> MatchFrom(sig, i, "(", ")", 0)
           [] c = "{" -> MatchFrom(sig, i, "{", "}", 0)
           [] OTHER -> i + 1

\* The grammar of the D-Bus specification, for well-formedness statements.
RECURSIVE WFType(_, _, _), WFMany(_, _, _)
\* WFType(sig, i, inArray): index past a well-formed complete type at i, or 0.
WFType(sig, i, inArray) ==
    IF i > Len(sig) THEN 0
    ELSE LET c == Ch(sig, i) IN
         CASE c \in Basic \cup {"v"} -> i + 1
           [] c = "a" -> WFType(sig, i + 1, TRUE)
           [] c = "(" -> WFMany(sig, i + 1, 0)
           [] c = "{" -> IF ~inArray \/ i + 1 > Len(sig) \/ Ch(sig, i + 1) \notin Basic THEN 0
                         ELSE LET j == WFType(sig, i + 2, FALSE)
                              IN  IF j = 0 \/ j > Len(sig) \/ Ch(sig, j) # "}" THEN 0 ELSE j + 1
           [] OTHER -> 0
WFMany(sig, i, n) ==
    IF i > Len(sig) THEN 0
    ELSE IF Ch(sig, i) = ")" THEN (IF n = 0 THEN 0 ELSE i + 1)
    ELSE LET j == WFType(sig, i, FALSE) IN IF j = 0 THEN 0 ELSE WFMany(sig, j, n + 1)
WellFormed(sig) == WFType(sig, 1, FALSE) = Len(sig) + 1

-----------------------------------------------------------------------------
(* Encoding.  Enc(v, off, le) is what is appended to a stream of length off,  *)
(* alignment padding included.                                                *)
SigBytes(sig) == B(Len(sig)) \o AsciiR(sig) \o B(0)

Zero(b) == \A i \in 1..Len(b) : b[i] = 0
RECURSIVE Enc(_, _, _), EncSeq(_, _, _)
Enc(v, off, le) ==
    LET p  == Pad(off, Align(v.t))
        o2 == off + p
        body ==
          CASE v.t = "b" -> U32(IF Zero(v.b) THEN 0 ELSE 1, le)     \* (made from a number)
            [] v.t \in Fixed -> FromSeq(IF le THEN Rev(v.b) ELSE v.b)
            [] v.t \in {"s", "o"} -> U32(RLen(v.s), le) \o v.s \o B(0)
            [] v.t = "g" -> B(RLen(v.s)) \o v.s \o B(0)
            [] v.t \in {"(", "{"} -> EncSeq(v.c, o2, le)
            [] v.t = "v" -> LET sb == SigBytes(Sig(v.c[1]))
                            IN  sb \o Enc(v.c[1], o2 + RLen(sb), le)
            [] v.t = "a" -> LET p2 == Pad(o2 + 4, Align(Ch(v.e, 1)))
                                els == EncSeq(v.c, o2 + 4 + p2, le)
                            IN  U32(RLen(els), le) \o Zeros(p2) \o els
    IN  Zeros(p) \o body
EncSeq(vs, off, le) ==
    IF vs = <<>> THEN <<>>
    ELSE IF Len(vs) = 1 THEN Enc(vs[1], off, le)
    ELSE LET m == Len(vs) \div 2
             h == EncSeq(SubSeq(vs, 1, m), off, le)
         IN  h \o EncSeq(SubSeq(vs, m + 1, Len(vs)), off + RLen(h), le)

-----------------------------------------------------------------------------
(* Decoding.  d is a sequence of plain octets; pos is the 0-based offset of   *)
(* the next octet; lim the offset at which the enclosing container ends.      *)
MaxDepth == 64
Bad == [ok |-> FALSE]
Good(v, pos) == [ok |-> TRUE, v |-> v, pos |-> pos]
Slice(d, pos, n) == SubSeq(d, pos + 1, pos + n)

RECURSIVE Dec(_, _, _, _, _, _), DecMembers(_, _, _, _, _, _, _, _), DecElems(_, _, _, _, _, _, _)
DecStr(c, d, pos, lim, n) ==       \* n characters and the terminator
    IF n > lim - pos - 1 THEN Bad
    ELSE Good([t |-> c, s |-> FromSeq(Slice(d, pos, n))], pos + n + 1)

\* Dec(sig, ...): sig is one complete type as delimited by TypeEnd.
Dec(sig, d, pos0, lim, le, depth) ==
  IF Len(sig) = 0 \/ Ch(sig, 1) \notin Supported THEN Bad
  ELSE
    LET c == Ch(sig, 1)
        pos == pos0 + Pad(pos0, Align(c))
        dep == IF c \in Container THEN depth + 1 ELSE depth
    IN
    IF pos > lim \/ dep > MaxDepth THEN Bad
    ELSE CASE c \in Fixed ->
            LET n == SizeOf[c] IN
            IF n > lim - pos THEN Bad
            ELSE LET s == Slice(d, pos, n)
                 IN  Good([t |-> c, b |-> IF le THEN Rev(s) ELSE s], pos + n)
      [] c \in {"s", "o"} ->
            IF 4 > lim - pos THEN Bad
            ELSE LET w == Slice(d, pos, 4)
                 IN  DecStr(c, d, pos + 4, lim, WordVal(IF le THEN Rev(w) ELSE w))
      [] c = "g" ->
            IF 1 > lim - pos THEN Bad ELSE DecStr(c, d, pos + 1, lim, d[pos + 1])
      [] c = "(" -> DecMembers("(", SubSeq(sig, 2, Len(sig) - 1), d, pos, lim, le, dep, <<>>)
      [] c = "{" ->
            IF Len(sig) < 4 \/ Ch(sig, 2) \notin BasicCode \/ TypeEnd(sig, 3) # Len(sig) THEN Bad
            ELSE DecMembers("{", SubSeq(sig, 2, Len(sig) - 1), d, pos, lim, le, dep, <<>>)
      [] c = "v" ->
            LET g == Dec("g", d, pos, lim, le, 0) IN
            IF ~g.ok THEN Bad
            ELSE LET bs == Expand(g.v.s) IN
                 LET s == StrOf(bs) IN
                      IF s = "" \/ TypeEnd(s, 1) # Len(s) + 1 THEN Bad
                      ELSE LET r == TLCEval(Dec(s, d, g.pos, lim, le, dep))
                           IN  IF ~r.ok THEN Bad ELSE Good([t |-> "v", c |-> <<r.v>>], r.pos)
      [] c = "a" ->
            LET e == SubSeq(sig, 2, Len(sig)) IN
            IF 4 > lim - pos \/ TypeEnd(sig, 1) # Len(sig) + 1 THEN Bad
            ELSE LET w == Slice(d, pos, 4)
                     n == WordVal(IF le THEN Rev(w) ELSE w)
                     st == pos + 4 + Pad(pos + 4, Align(Ch(e, 1)))
                 IN  IF st > lim \/ n > lim - st THEN Bad
                     ELSE DecElems(e, d, st, st + n, le, dep, <<>>)

DecMembers(t, sigs, d, pos, lim, le, depth, acc) ==
    IF sigs = "" THEN (IF acc = <<>> THEN Bad ELSE Good([t |-> t, c |-> acc], pos))
    ELSE LET j == TypeEnd(sigs, 1) IN
         IF j = 0 THEN Bad
         ELSE LET r == TLCEval(Dec(SubSeq(sigs, 1, j - 1), d, pos, lim, le, depth))
              IN  IF ~r.ok THEN Bad
                  ELSE DecMembers(t, SubSeq(sigs, j, Len(sigs)), d, r.pos, lim, le, depth, TLCEval(Append(acc, r.v)))

DecElems(e, d, pos, lim, le, depth, acc) ==
    IF pos = lim THEN Good([t |-> "a", e |-> e, c |-> acc], pos)
    ELSE LET r == TLCEval(Dec(e, d, pos, lim, le, depth))
         IN  IF ~r.ok THEN Bad ELSE DecElems(e, d, r.pos, lim, le, depth, TLCEval(Append(acc, r.v)))

-----------------------------------------------------------------------------
(* Decimal text of scalars, as the accessors report it.                       *)
RECURSIVE DivMod(_, _, _, _)
DivMod(b, i, rem, q) ==          \* long division of a base-256 number by ten
    IF i > Len(b) THEN [q |-> q, r |-> rem]
    ELSE LET x == rem * 256 + b[i] IN DivMod(b, i + 1, x % 10, Append(q, x \div 10))
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE DecText(_)
DecText(b) == LET dm == DivMod(b, 1, 0, <<>>)
              IN  (IF Zero(dm.q) THEN "" ELSE DecText(dm.q)) \o Digit[dm.r + 1]
RECURSIVE Negate(_, _, _)
Negate(b, i, carry) ==           \* two's complement, from octet i down
    IF i = 0 THEN b
    ELSE LET x == 255 - b[i] + carry
         IN  Negate([b EXCEPT ![i] = x % 256], i - 1, x \div 256)
Decimal(t, b) == IF t \in {"n", "i", "x"} /\ b[1] >= 128
                 THEN "-" \o DecText(Negate(b, Len(b), 1))
                 ELSE DecText(b)

-----------------------------------------------------------------------------
(* What the accessors of a value report, as a flat list of strings.           *)
RECURSIVE Toks(_), TokSeq(_)
Toks(v) == CASE v.t \in {"y", "u"} -> << v.t \o ":" \o Decimal(v.t, v.b) \o " " \o Decimal(v.t, v.b) >>
             [] v.t = "d" -> << "d:" \o RText(FromSeq(Rev(v.b))) >>
             [] v.t \in Fixed \ {"y", "u", "d"} -> << v.t \o ":" \o Decimal(v.t, v.b) >>
             [] v.t \in Stringy -> << v.t \o ":" \o RText(v.s) >>
             [] v.t = "a" -> << "a" \o v.e >> \o TokSeq(v.c) \o << "]" >>
             [] v.t = "(" -> << "(" >> \o TokSeq(v.c) \o << ")" >>
             [] v.t = "{" -> << "{" \o RText(Enc(v, 0, TRUE)) >>
             [] v.t = "v" -> << "v" >> \o Toks(v.c[1])
TokSeq(vs) == IF vs = <<>> THEN <<>>
              ELSE IF Len(vs) = 1 THEN Toks(vs[1])
              ELSE LET h == Len(vs) \div 2
                   IN  TokSeq(SubSeq(vs, 1, h)) \o TokSeq(SubSeq(vs, h + 1, Len(vs)))

-----------------------------------------------------------------------------
(* Values nothing is said about: booleans other than 0 and 1, empty arrays of *)
(* what is not a type.                                                        *)
RECURSIVE OddValue(_)
OddValue(v) == CASE v.t = "b" -> v.b # <<0, 0, 0, 0>> /\ v.b # <<0, 0, 0, 1>>
                [] v.t = "a" -> (\E i \in 1..Len(v.e) : Ch(v.e, i) = "?") \/ (\E i \in 1..Len(v.c) : OddValue(v.c[i]))
                [] v.t \in Container -> \E i \in 1..Len(v.c) : OddValue(v.c[i])
                [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* What must hold of the format itself; checked for every value a run uses.   *)
RECURSIVE Norm(_)
Norm(v) == CASE v.t \in Stringy -> [v EXCEPT !.s = FromSeq(Expand(v.s))]
             [] v.t = "b" -> [v EXCEPT !.b = <<0, 0, 0, IF Zero(v.b) THEN 0 ELSE 1>>]
             [] v.t \in Fixed -> v
             [] OTHER -> [v EXCEPT !.c = [i \in 1..Len(v.c) |-> Norm(v.c[i])]]
RECURSIVE Depth(_)
Depth(v) == IF v.t \notin Container THEN 0
            ELSE 1 + (LET ds == {Depth(v.c[i]) : i \in 1..Len(v.c)}
                      IN  IF ds = {} THEN 0 ELSE CHOOSE m \in ds : \A x \in ds : x <= m)

\* Decoding the encoding gives the value back, consuming exactly the encoding;
\* every proper prefix is rejected.
RoundTrip(v, off, le) ==
    LET fill == [i \in 1..off |-> 170]
        e == Expand(Enc(v, off, le))
        r == Dec(Sig(v), fill \o e \o <<187, 204>>, off, off + Len(e) + 2, le, 0)
    IN  r.ok /\ r.v = Norm(v) /\ r.pos = off + Len(e)
PrefixRejected(v, off, le) ==
    LET e == Expand(Enc(v, off, le))
        fill == [i \in 1..off |-> 170]
    IN  \A n \in 0..(Len(e) - 1) :
          ~Dec(Sig(v), fill \o SubSeq(e, 1, n), off, off + n, le, 0).ok
=============================================================================
