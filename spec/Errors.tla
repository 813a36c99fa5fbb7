-------------------------------- MODULE Errors --------------------------------
(* How errors are built up from other errors. Every error ever made is in a  *)
(* heap, in the order they were made, and is described by:                   *)
(*   val    what it is: two errors with the same description may be regarded *)
(*          as the same error                                                *)
(*   own    the errors it was built from (indices in the heap)               *)
(*   names  the predefined errors and those of the standard library in it    *)
(*   parts  the messages in its text, in order                               *)
(*   driver whether it's a driver error                                      *)
(*   path   whether there's an *fs.PathError in it                           *)
(* C27.                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Made(i) == "made " \o ToString(i)

Leaf(i, val, names, parts, driver, path) ==
    [val |-> val, own |-> {i}, names |-> names, parts |-> parts, driver |-> driver, path |-> path]

\* A value the library defines
Predefined(i, name) == Leaf(i, name, {name}, <<name>>, TRUE, FALSE)
\* NewError
New(i, text) == Leaf(i, "new " \o text, {}, <<text>>, TRUE, FALSE)
\* Somebody else's error. One whose type can't be compared can't be matched.
Foreign(i, kind, text) ==
    CASE kind = "plain" -> Leaf(i, Made(i), {}, <<text>>, FALSE, FALSE)
      [] kind = "eof" -> Leaf(i, "eof", {"eof"}, <<"eof">>, FALSE, FALSE)
      [] kind = "path" -> Leaf(i, Made(i), {"notexist"}, <<text, "notexist">>, FALSE, TRUE)
      [] kind = "slice" -> [Leaf(i, Made(i), {}, <<text>>, FALSE, FALSE) EXCEPT !.own = {}]

Both(i, a, b, driver) ==
    [val |-> Made(i), own |-> a.own \cup b.own \cup {i}, names |-> a.names \cup b.names,
     parts |-> a.parts \o b.parts, driver |-> driver, path |-> a.path \/ b.path]

\* e.WithMessage(text)
Message(i, a, text) ==
    [a EXCEPT !.val = "msg (" \o a.val \o ") " \o text, !.own = @ \cup {i}, !.parts = Append(@, text)]
\* e.Wrap(err)
Wrap(i, a, b) == Both(i, a, b, TRUE)
\* CastToDriverError
Cast(i, a) == IF a.driver THEN [a EXCEPT !.own = @ \cup {i}]
              ELSE [a EXCEPT !.val = Made(i), !.own = @ \cup {i}, !.driver = TRUE]
\* fmt.Errorf("text: %w", err)
Around(i, a, text) == [a EXCEPT !.val = Made(i), !.own = @ \cup {i}, !.parts = <<text>> \o @, !.driver = FALSE]
\* errors.Join
Join(i, a, b) == Both(i, a, b, FALSE)

\* What's made of the errors there are
Result(heap, op) ==
    LET i == Len(heap) + 1
    IN  CASE op.op = "pre" -> Predefined(i, op.name)
          [] op.op = "new" -> New(i, op.text)
          [] op.op = "foreign" -> Foreign(i, op.kind, op.text)
          [] op.op = "msg" -> Message(i, heap[op.of], op.text)
          [] op.op = "wrap" -> Wrap(i, heap[op.of], heap[op.by])
          [] op.op = "cast" -> Cast(i, heap[op.of])
          [] op.op = "fmt" -> Around(i, heap[op.of], op.text)
          [] op.op = "join" -> Join(i, heap[op.of], heap[op.by])

\* The errors that heap[i] has to match, and those it may match
MustMatch(heap, i) == heap[i].own
MayMatch(heap, i) == LET vals == {heap[k].val : k \in heap[i].own} IN {j \in 1..Len(heap) : heap[j].val \in vals}
\* What a CastToDriverError returns: the error itself or a new one
Unchanged(a) == a.driver

RECURSIVE Within(_, _)
\* Whether one sequence can be had by leaving out parts of another
Within(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                ELSE IF a[1] = b[1] THEN Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))
=============================================================================
