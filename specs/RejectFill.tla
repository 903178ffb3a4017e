----------------------------- MODULE RejectFill -----------------------------
(* Requests to fill borders, in any order, among interpolations: one that  *)
(* names a direction that does not exist is refused as a whole, and leaves *)
(* the interpolator as it was.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Words,       \* what may be asked for
          MaxWords, MaxSteps, Bug

VARIABLES filled, hist, pend, todo
vars == <<filled, hist, pend, todo>>
Known == {"x", "y"}
Asks == UNION {[1..n -> Words] : n \in 0..MaxWords}

Init == filled = {} /\ hist = <<>> /\ pend = <<>> /\ todo = FALSE
Bad(ask) == \E i \in DOMAIN ask : ask[i] \notin Known
(* the directions are looked up first, then the borders are filled one by one *)
Ask == /\ ~todo /\ Len(hist) < MaxSteps
       /\ \E ask \in Asks :
            LET upto == CHOOSE n \in 0..Len(ask) : /\ \A i \in 1..n : ask[i] \in Known
                                                   /\ n = Len(ask) \/ ask[n + 1] \notin Known
                run == IF Bad(ask) THEN IF Bug = "eager" THEN SubSeq(ask, 1, upto) ELSE <<>> ELSE ask
            IN /\ hist' = Append(hist, [ask |-> ask, ok |-> ~Bad(ask) \/ Bug = "ignored",
                                        filled |-> IF Bad(ask) THEN filled ELSE filled \cup {ask[i] : i \in DOMAIN ask}])
               /\ pend' = run /\ todo' = (run # <<>>)
       /\ UNCHANGED filled
Fill == /\ todo /\ filled' = filled \cup {Head(pend)} /\ pend' = Tail(pend) /\ todo' = (Tail(pend) # <<>>)
        /\ UNCHANGED hist
Next == Ask \/ Fill
Spec == Init /\ [][Next]_vars
(* what was asked for is there, and nothing else *)
Whole == ~todo /\ hist # <<>> => filled = hist[Len(hist)].filled
Refused == \A i \in DOMAIN hist : hist[i].ok = ~Bad(hist[i].ask)
Emit == ~todo /\ Len(hist) = MaxSteps => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
