------------------------------- MODULE Purity -------------------------------
(* What a caller sees of interpolations: calls read arrays and give results*)
(* that are a function of the values of their arguments, for ever; arrays  *)
(* and earlier results only change by the hand of the caller. Calls may    *)
(* overlap (threads).                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES arr,      \* array -> value
          calls,    \* thread -> call in progress
          memo,     \* <<function, values>> -> value of the result
          res       \* results given, in order
pvars == <<arr, calls, memo, res>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
PInit == arr = <<>> /\ calls = <<>> /\ memo = <<>> /\ res = <<>>
Reads(a) == \E t \in DOMAIN calls : \E i \in 1..Len(calls[t].args) : calls[t].args[i] = a
(* the caller makes or changes an array that no call is reading *)
Write(a, v) == ~Reads(a) /\ arr' = Put(arr, a, v) /\ UNCHANGED <<calls, memo, res>>
Start(t, f, args) == /\ t \notin DOMAIN calls
                     /\ \A i \in 1..Len(args) : args[i] \in DOMAIN arr
                     /\ calls' = Put(calls, t, [f |-> f, args |-> args, vals |-> [i \in 1..Len(args) |-> arr[args[i]]]])
                     /\ UNCHANGED <<arr, memo, res>>
Return(t, out) == /\ t \in DOMAIN calls
                  /\ LET key == <<calls[t].f, calls[t].vals>>
                     IN  /\ key \in DOMAIN memo => memo[key] = out
                         /\ memo' = Put(memo, key, out)
                  /\ calls' = Drop(calls, t)
                  /\ res' = Append(res, out)
                  /\ UNCHANGED arr
(* the caller changes a result it was given *)
Scribble(r, v) == r \in 1..Len(res) /\ res' = [res EXCEPT ![r] = v] /\ UNCHANGED <<arr, calls, memo>>
=============================================================================
