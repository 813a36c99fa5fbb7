------------------------------- MODULE MCErrors -------------------------------
(* Everything that can be built from a few errors in a few steps.            *)
EXTENDS Errors, Json

CONSTANTS Steps, Emitting

VARIABLES heap, ops, n, lab
vars == <<heap, ops, n, lab>>

Start == <<[op |-> "pre", name |-> "noent"], [op |-> "foreign", kind |-> "path", text |-> "t1"],
           [op |-> "new", text |-> "t2"], [op |-> "pre", name |-> "exist"]>>
RECURSIVE Build(_, _)
Build(h, todo) == IF todo = <<>> THEN h ELSE Build(Append(h, Result(h, todo[1])), Tail(todo))

Init == heap = Build(<<>>, Start) /\ ops = Start /\ n = 0 /\ lab = [k |-> "start"]

Text == "t" \o ToString(Len(heap) + 1)
Choices ==
    LET all == 1..Len(heap)
        drivers == {i \in all : heap[i].driver}
    IN  {[op |-> "msg", of |-> i, text |-> t] : i \in drivers, t \in {Text, "t3"}}
        \cup {[op |-> "wrap", of |-> i, by |-> j] : i \in drivers, j \in all}
        \cup {[op |-> "cast", of |-> i] : i \in all}
        \cup {[op |-> "fmt", of |-> i, text |-> Text] : i \in all}
        \cup {[op |-> "join", of |-> i, by |-> j] : i \in {Len(heap)}, j \in all}

Do(op) ==
    /\ n < Steps
    \* only what builds upon the last error is new
    /\ n = 0 \/ Len(heap) \in {op.of} \cup (IF "by" \in DOMAIN op THEN {op.by} ELSE {})
    /\ heap' = Append(heap, Result(heap, op)) /\ ops' = Append(ops, op) /\ n' = n + 1
    /\ lab' = [k |-> "call", c |-> ops']

Next == \E op \in Choices : Do(op)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
All == 1..Len(heap)

\* Matching is transitive, and nothing matches what was made of it later
Transitive == \A i \in All : \A j \in heap[i].own : j <= i /\ heap[j].own \subseteq heap[i].own
\* All that's known of an ingredient is known of the result
Inherited == \A i \in All : \A j \in heap[i].own :
                /\ heap[j].names \subseteq heap[i].names
                /\ Within(heap[j].parts, heap[i].parts)
                /\ heap[j].path => heap[i].path
\* No name comes from nowhere
Grounded == \A i \in All : \A m \in heap[i].names :
                \/ \E j \in heap[i].own : ops[j].op = "pre" /\ ops[j].name = m
                \/ heap[i].path /\ m = "notexist"
\* Casting is idempotent
Casting == \A i \in All : LET c == Cast(Len(heap) + 1, heap[i]) IN
                c.driver /\ c.parts = heap[i].parts /\ heap[i].own \subseteq c.own /\ Cast(Len(heap) + 1, c) = c
Allowed == \A i \in All : MustMatch(heap, i) \subseteq MayMatch(heap, i)

View0 == ops
Emit == Emitting => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> ops, t |-> ops', l |-> lab']))
=============================================================================
