------------------------------ MODULE MCThreads ------------------------------
(* Exhaustive exploration of a connection used by several threads and by its  *)
(* own handlers: every program of a few operations, every interleaving.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Apps,            \* application threads
          Ops,             \* kinds of operations they perform
          MaxOps,          \* how many each of them performs
          HandlerOps, MaxHandlerOps,   \* what handlers do, and how often altogether
          MaxPush,         \* messages the bus sends unasked
          Kinds,           \* their kinds
          Authed

All(text, m) == TRUE
INSTANCE Threads WITH Picks <- All, Auth <- "AUTH"

VARIABLES s, fly,
          left,      \* operations each thread may still begin
          push,      \* messages the bus may still send unasked
          ended,     \* messages whose sending has returned
          before,    \* pairs of messages: the first was sent before the sending of the second began
          gone,      \* handlers that must not run any more
          ran,       \* invocations: [h, m]
          now,       \* the message that is being delivered
          asked,     \* calls the bus has answered: [id, kind]
          over       \* "no"; "yes": destroying has taken effect; "returned"
vars == <<s, fly, left, push, ended, before, gone, ran, now, asked, over>>

Id(p, t) == p \o t \o ToString(left[t])
Ways(t, k) ==
    CASE k = "send" -> {[f |-> "send", id |-> Id("m", t), kind |-> "signal"]}
      [] k = "call" -> {[f |-> "call", id |-> Id("m", t), reply |-> 1, ok |-> Id("k", t), err |-> Id("x", t)]}
      [] k = "regs" -> {[f |-> "regs", id |-> Id("o", t), name |-> "a", h |-> Id("h", t)]}
      [] k = "regc" -> {[f |-> "regc", id |-> Id("o", t), name |-> "a", h |-> Id("h", t)]}
      [] k = "unregs" -> {[f |-> "unregs", id |-> Id("o", t), name |-> "a"]}
      [] k = "unregc" -> {[f |-> "unregc", id |-> Id("o", t), name |-> "a"]}
      [] k = "addmatch" -> {[f |-> "addmatch", id |-> Id("m", t), text |-> "r", h |-> Id("h", t), ok |-> Id("k", t), err |-> Id("x", t)]}
      [] k = "remmatch" -> IF C!WithText(s, "r") = {} THEN {} ELSE {[f |-> "remmatch", id |-> Id("m", t), text |-> "r"]}
      [] k = "auth" -> {[f |-> "auth", id |-> Id("o", t), neg |-> 0]}
      [] k = "destroy" -> IF fly = {} /\ \A x \in Apps : left[x] <= 1 THEN {[f |-> "destroy", id |-> "d"]} ELSE {}
Busy(t) == \E f \in fly : f.t = t
Begin(t, o) == /\ fly' = fly \cup {Call(t, o)}
               /\ before' = IF Sends(o) THEN before \cup { <<m, o.id>> : m \in ended } ELSE before
DoBegin == \E t \in Apps, k \in Ops : \E o \in Ways(t, k) :
    /\ ~Busy(t) /\ left[t] > 0 /\ over = "no" /\ ~(\E f \in fly : f.o.f = "destroy")
    /\ Begin(t, o)
    /\ left' = IF k = "destroy" THEN [x \in DOMAIN left |-> 0] ELSE [left EXCEPT ![t] = @ - 1]
    /\ UNCHANGED <<s, push, ended, gone, ran, now, asked, over>>
\* A handler performs its operations while it runs.
DoInner == \E k \in HandlerOps : \E o \in Ways("io", k) :
    /\ s.run # C!None /\ ~Busy("io") /\ left["io"] > 0
    /\ Begin("io", o)
    /\ left' = [left EXCEPT !["io"] = @ - 1]
    /\ UNCHANGED <<s, push, ended, gone, ran, now, asked, over>>
\* Handlers whose registrations an operation takes away.
Taken(f) == CASE f.o.f = "unregs" -> { r.h : r \in s.signals } [] f.o.f = "unregc" -> { r.h : r \in s.calls } [] f.o.f = "remmatch" -> { r.h : r \in s.rules }
              [] OTHER -> {}
Effect == \E f \in fly : \E x \in Moves(s, f) :
    /\ s' = x.s
    /\ fly' = (fly \ {f}) \cup {IF x.sends \/ Inside(f) THEN x.f ELSE [x.f EXCEPT !.o = [h2 |-> Taken(f)] @@ @]}
    /\ over' = IF f.o.f = "destroy" THEN "yes" ELSE over
    /\ UNCHANGED <<left, push, ended, before, gone, ran, now, asked>>
DoEnd == \E f \in fly :
    /\ f.st = "done"
    /\ fly' = fly \ {f}
    /\ ended' = IF Sends(f.o) THEN ended \cup {f.o.id} ELSE ended
    /\ gone' = IF "h2" \in DOMAIN f.o THEN gone \cup f.o.h2 ELSE gone
    /\ over' = IF f.o.f = "destroy" THEN "returned" ELSE over
    /\ UNCHANGED <<s, left, push, before, ran, now, asked>>

\* The bus: it reads what is written in order, lets the client in, answers
\* calls at once or later, and sends messages of its own.
Bus == over # "returned"
LetIn == /\ Bus /\ over = "no" /\ s.auth = "ok"
         /\ s' = C!Hear(s, "OK")
         /\ UNCHANGED <<fly, left, push, ended, before, gone, ran, now, asked, over>>
Open == /\ over = "no" /\ s.auth = "begun" /\ s' = C!Open(s)
        /\ UNCHANGED <<fly, left, push, ended, before, gone, ran, now, asked, over>>
Answer == /\ Bus /\ over = "no" /\ \E i \in 1..Len(s.out) : \E k \in {2, 3} \cap Kinds :
               /\ s.out[i].t = "msg"
               /\ LET id == s.out[i].m.id IN
                  /\ \A a \in asked : a.id # id
                  /\ s' = C!Arrive(s, [kind |-> k, name |-> "", to |-> id, id |-> id])
                  /\ asked' = asked \cup {[id |-> id, kind |-> k, pending |-> \E p \in s.pend : p.id = id]}
          /\ UNCHANGED <<fly, left, push, ended, before, gone, ran, now, over>>
Push == /\ Bus /\ over = "no" /\ push > 0 /\ s.auth = "done"
        /\ \E k \in Kinds \ {2, 3} : s' = C!Arrive(s, [kind |-> k, name |-> "a", to |-> "", id |-> ToString(push)])
        /\ push' = push - 1
        /\ UNCHANGED <<fly, left, ended, before, gone, ran, now, asked, over>>
Deliver == /\ over = "no" /\ s.auth = "done" /\ C!CanDeliver(s)
           /\ now' = Head(s.inbox) /\ s' = C!Deliver(s)
           /\ UNCHANGED <<fly, left, push, ended, before, gone, ran, asked, over>>
Enter == /\ over = "no" /\ \E d \in s.todo \cup s.may :
               /\ C!CanEnter(s, d) /\ s' = C!Enter(s, d) /\ ran' = Append(ran, [h |-> d.h, m |-> now])
         /\ UNCHANGED <<fly, left, push, ended, before, gone, now, asked, over>>
Leave == /\ s.run # C!None /\ ~Busy("io")
         /\ s' = C!Leave(s)
         /\ UNCHANGED <<fly, left, push, ended, before, gone, ran, now, asked, over>>

Init == /\ s = IF Authed THEN C!ServerLine(C!BeginAuth(C!Fresh, FALSE, "AUTH"), "OK") ELSE C!Fresh
        /\ fly = {} /\ left = [t \in Apps \cup {"io"} |-> IF t = "io" THEN MaxHandlerOps ELSE MaxOps]
        /\ push = MaxPush /\ ended = {} /\ before = {} /\ gone = {} /\ ran = <<>> /\ now = [id |-> ""] /\ asked = {} /\ over = "no"
\* Nothing is left to do.
AtRest == /\ fly = {} /\ s.run = C!None /\ (over = "no" => s.todo = {} /\ s.inbox = <<>>)
          /\ \A t \in Apps : left[t] = 0
Finished == AtRest /\ UNCHANGED vars
Next == DoBegin \/ DoInner \/ Effect \/ DoEnd \/ LetIn \/ Open \/ Answer \/ Push \/ Deliver \/ Enter \/ Leave \/ Finished
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Guarantees.  C24: no deadlock is what TLC looks for itself; a state that   *)
(* cannot move is Finished.  Progress does not depend on the bus:             *)
\* an operation in flight is never stuck, except behind a handler that runs
\* (and that handler can go on).
NeverStuck == \A f \in fly : f.st = "done" \/ Moves(s, f) # {} \/ s.run # C!None
HandlerGoesOn == s.run # C!None => \A f \in fly : f.t = "io" => f.st = "done" \/ Moves(s, f) # {}
\* C01
Begins == { i \in 1..Len(s.out) : s.out[i] = C!Line("BEGIN") }
Separation == \A i \in 2..Len(s.out) : s.out[i].t = "msg" <=> \E b \in Begins : b < i
\* C02
Wire == SelectSeq(s.out, LAMBDA x : x.t = "msg")
Order == [i \in 1..(Len(Wire) + Len(s.queue)) |-> IF i <= Len(Wire) THEN Wire[i].m.id ELSE s.queue[i - Len(Wire)].id]
Position(m) == { i \in 1..Len(Order) : Order[i] = m }
OnceEach == Cardinality({ Order[i] : i \in 1..Len(Order) }) = Len(Order)
InOrder == /\ \A m \in ended : Position(m) # {}
           /\ \A p \in before : \A i \in Position(p[1]), j \in Position(p[2]) : i < j
AllWritten == s.auth = "done" => s.queue = <<>>
\* C16: an answer that has arrived reaches the callback of its call, once.
Wanted(a) == [h |-> (IF a.kind = 2 THEN "k" ELSE "x"), id |-> a.id]
Runs(id) == { i \in 1..Len(ran) : ran[i].m.kind \in {2, 3} /\ ran[i].m.to = id }
Answered == /\ \A a \in asked : Cardinality(Runs(a.id)) <= 1
            /\ AtRest /\ over = "no" => \A a \in asked : a.pending => Cardinality(Runs(a.id)) = 1
            /\ \A i \in 1..Len(ran) : ran[i].m.kind \in {2, 3} => \E a \in asked : a.id = ran[i].m.to /\ a.kind = ran[i].m.kind /\ a.pending
\* A call is pending from the moment it can be answered.
PendingWhenSent == \A i \in 1..Len(s.out) : s.out[i].t = "msg" => \A f \in fly : f.o.id = s.out[i].m.id /\ f.o.f = "call" => f.st # "called"
\* C18: a delivery invokes each handler once.
OnceInvoked == \A i, j \in 1..Len(ran) : i < j => ran[i] # ran[j]
\* C21
Unregistered == s.run \notin gone /\ \A d \in s.todo \cup s.may : d.h \notin gone
\* C22
Destroyed == over # "no" => s.run = C!None
Guarantees == /\ NeverStuck /\ HandlerGoesOn /\ Separation /\ OnceEach /\ InOrder /\ AllWritten /\ Answered
              /\ PendingWhenSent /\ OnceInvoked /\ Unregistered /\ Destroyed
=============================================================================
