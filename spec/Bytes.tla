------------------------------- MODULE Bytes -------------------------------
(* Octet strings.  An octet string is a sequence of runs <<octet, count>>, so *)
(* that the model can talk about 64 KiB strings and 64 MiB declared sizes     *)
(* without ever building them octet by octet.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

B(b)      == << <<b, 1>> >>
Run(b, n) == IF n = 0 THEN <<>> ELSE << <<b, n>> >>
Zeros(n)  == Run(0, n)

RLen(r) == FoldLeft(LAMBDA n, x : n + x[2], 0, r)

\* A sequence of plain octets as runs, and back.
FromSeq(s) == TLCEval([i \in 1..Len(s) |-> <<s[i], 1>>])

Cat(ss) == FlattenSeq(ss)
Expand(r) == FlattenSeq([i \in 1..Len(r) |-> [j \in 1..r[i][2] |-> r[i][1]]])

\* Normal form of an octet string: maximal runs.
Canon(r) == FoldLeft(LAMBDA a, e : IF e[2] = 0 THEN a
                                   ELSE IF a # <<>> /\ a[Len(a)][1] = e[1] THEN [a EXCEPT ![Len(a)] = <<e[1], @[2] + e[2]>>]
                                   ELSE Append(a, e), <<>>, r)

\* The run that holds octet n (counted from 0), and n within it.
RECURSIVE RunNear(_, _, _)
RunNear(r, i, n) == IF i > Len(r) \/ r[i][2] > n THEN <<i, n>> ELSE RunNear(r, i + 1, n - r[i][2])
RunFar(r, n) == FoldLeft(LAMBDA a, e : IF a[3] \/ e[2] > a[2] THEN <<a[1], a[2], TRUE>> ELSE <<a[1] + 1, a[2] - e[2], FALSE>>,
                         <<1, n, FALSE>>, r)
RunAt(r, n) == IF n <= 16 THEN RunNear(r, 1, n) ELSE RunFar(r, n)
\* The first n octets, and what follows them.
RTake(r, n) == LET x == RunAt(r, n)
                   head == SubSeq(r, 1, x[1] - 1)
               IN  IF x[1] > Len(r) \/ x[2] = 0 THEN head ELSE Append(head, <<r[x[1]][1], x[2]>>)
RDrop(r, n) == LET x == RunAt(r, n)
               IN  IF x[1] > Len(r) THEN <<>>
                   ELSE IF x[2] = 0 THEN SubSeq(r, x[1], Len(r))
                   ELSE << <<r[x[1]][1], r[x[1]][2] - x[2]>> >> \o SubSeq(r, x[1] + 1, Len(r))

Rev(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])

\* The four octets, most significant first, of n in 0..2^31-1.
Word(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
\* The value of four octets, most significant first; Huge when it exceeds 2^31-1.
Huge == 2147483647
WordVal(w) == IF w[1] >= 128 THEN Huge
              ELSE w[1] * 16777216 + w[2] * 65536 + w[3] * 256 + w[4]

U32(n, le) == FromSeq(IF le THEN Rev(Word(n)) ELSE Word(n))

\* ASCII, for the characters the model needs to name.
Chars == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
            "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
            "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
            "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
            "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
            "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>
CharSet == { Chars[i] : i \in 1..Len(Chars) }
Code == TLCEval([ c \in CharSet |-> 31 + CHOOSE i \in 1..Len(Chars) : Chars[i] = c ])
\* The character of an octet; all that are not printable read as "?", which,
\* in a signature, names no type.
CharOf(b) == IF b < 32 \/ b > 126 THEN "?" ELSE Chars[b - 31]

Ch(s, i) == SubSeq(s, i, i)          \* TLC: strings support Len and SubSeq
Ascii(s) == TLCEval([ i \in 1..Len(s) |-> Code[Ch(s, i)] ])
AsciiR(s) == FromSeq(Ascii(s))

\* Text of an octet string in a report: "97x3 98x1 ".
RunsText(r) == FoldLeft(LAMBDA a, e : a \o ToString(e[1]) \o "x" \o ToString(e[2]) \o " ", "", r)
RText(r) == RunsText(Canon(r))

StrOf(bs) == FoldLeft(LAMBDA a, b : a \o CharOf(b), "", bs)
=============================================================================
