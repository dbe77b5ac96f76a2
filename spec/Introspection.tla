--------------------------- MODULE Introspection ---------------------------
(* The introspection document of declared interfaces, as a tree.              *)
EXTENDS Wire
\* The single complete types of a signature.
RECURSIVE Types(_)
Types(s) == IF s = "" THEN <<>> ELSE LET j == TypeEnd(s, 1) IN << SubSeq(s, 1, j - 1) >> \o Types(SubSeq(s, j, Len(s)))
Args(s, dir) == LET ts == Types(s) IN [i \in 1..Len(ts) |-> <<dir, ts[i]>>]
Access(a) == IF a = "default" THEN "read" ELSE a
Kind(f, k) == SelectSeq(f.items, LAMBDA x : x.k = k)
Interface(f) ==
    LET ps == Kind(f, "p")  ms == Kind(f, "m")  ss == Kind(f, "s") IN
    [ name |-> f.name,
      properties |-> [i \in 1..Len(ps) |-> <<ps[i].name, ps[i].type, Access(ps[i].access)>>],
      methods |-> [i \in 1..Len(ms) |-> <<ms[i].name, Args(ms[i].in, "in") \o Args(ms[i].out, "out")>>],
      signals |-> [i \in 1..Len(ss) |-> <<ss[i].name, Args(ss[i].type, "out")>>] ]
Describes(fs) == [i \in 1..Len(fs) |-> Interface(fs[i])]
=============================================================================
