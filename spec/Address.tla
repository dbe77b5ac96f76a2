------------------------------ MODULE Address ------------------------------
(* Bus addresses.  Octet strings as runs.                                     *)
EXTENDS Bytes
PathPrefix == AsciiR("unix:path=")
AbstractPrefix == AsciiR("unix:abstract=")
Begins(a, p) == RLen(a) >= RLen(p) /\ Canon(RTake(a, RLen(p))) = Canon(p)
\* Up to the first comma.
FirstKey(a) == LET d == Expand(a)
                   is == { i \in 1..Len(d) : d[i] = 44 }
               IN  IF is = {} THEN a ELSE RTake(a, (CHOOSE i \in is : \A j \in is : i <= j) - 1)
Resolve(a) == IF Begins(a, PathPrefix) THEN Canon(FirstKey(RDrop(a, RLen(PathPrefix))))
              ELSE IF Begins(a, AbstractPrefix) THEN Canon(B(0) \o FirstKey(RDrop(a, RLen(AbstractPrefix))))
              ELSE Canon(a)
SystemBus(none, a) == IF none THEN Canon(AsciiR("/var/run/dbus/system_bus_socket")) ELSE Resolve(a)
SessionBus(none, a) == IF none THEN <<>> ELSE Resolve(a)
=============================================================================
