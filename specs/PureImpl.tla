------------------------------ MODULE PureImpl ------------------------------
(* How the interpolations are computed: a call copies what it reads to its *)
(* scratch buffers scan by scan, without holding any lock, fills an output *)
(* of its own and returns it. TLC checks that this refines Purity, for all *)
(* interleavings, and that it would not if buffers were shared between     *)
(* calls, inputs were used as scratch, outputs were reused, or something   *)
(* was remembered between calls (Bug).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Arrays, Funs, Scans, Contents, MaxCalls, MaxWrites, Bug

VARIABLES mem,      \* array -> sequence of contents, one per scan
          cur,      \* thread -> call in progress
          scr,      \* scratch buffers
          given,    \* result -> buffer
          bufs,     \* output buffers
          seen,     \* first result of each function and values (for the mapping)
          kept,     \* what is remembered between calls: nothing, but with a Bug
          writes
vars == <<mem, cur, scr, given, bufs, seen, kept, writes>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Buffer(t) == IF Bug = "shared scratch" THEN "common" ELSE t
Init == /\ mem \in [Arrays -> [1..Scans -> Contents]]
        /\ cur = <<>> /\ scr = <<>> /\ given = <<>> /\ bufs = <<>> /\ seen = <<>> /\ kept = <<>> /\ writes = 0
Begin(t, f, a) == /\ t \notin DOMAIN cur /\ Len(given) + Cardinality(DOMAIN cur) < MaxCalls
                  /\ cur' = Put(cur, t, [f |-> f, a |-> a, vals |-> mem[a], i |-> 0, out |-> <<>>])
                  /\ UNCHANGED <<mem, scr, given, bufs, seen, kept, writes>>
(* scratch <- scan *)
Load(t) == /\ t \in DOMAIN cur /\ cur[t].i = Len(cur[t].out) /\ cur[t].i < Scans
           /\ LET s == cur[t].i + 1
                  v == mem[cur[t].a][s]
                  k == IF Bug = "remembers" /\ kept # <<>> THEN kept[1] ELSE v
              IN  /\ scr' = Put(scr, Buffer(t), <<cur[t].f, k>>)
                  /\ mem' = IF Bug = "writes input" THEN [mem EXCEPT ![cur[t].a][s] = "dirty"] ELSE mem
                  /\ kept' = IF Bug = "remembers" THEN <<v>> ELSE kept
           /\ cur' = [cur EXCEPT ![t].i = @ + 1]
           /\ UNCHANGED <<given, bufs, seen, writes>>
(* output <- scratch *)
Store(t) == /\ t \in DOMAIN cur /\ cur[t].i = Len(cur[t].out) + 1
            /\ cur' = [cur EXCEPT ![t].out = Append(@, scr[Buffer(t)])]
            /\ UNCHANGED <<mem, scr, given, bufs, seen, kept, writes>>
End(t) == /\ t \in DOMAIN cur /\ Len(cur[t].out) = Scans
          /\ LET key == <<cur[t].f, cur[t].vals>>
             IN  IF Bug = "reused output" /\ bufs # <<>>
                 THEN bufs' = [bufs EXCEPT ![1] = cur[t].out] /\ given' = Append(given, 1)
                      /\ seen' = IF key \in DOMAIN seen THEN seen ELSE Put(seen, key, cur[t].out)
                 ELSE bufs' = Append(bufs, cur[t].out) /\ given' = Append(given, Len(bufs) + 1)
                      /\ seen' = IF key \in DOMAIN seen THEN seen ELSE Put(seen, key, cur[t].out)
          /\ cur' = Drop(cur, t) /\ UNCHANGED <<mem, scr, kept, writes>>
UserWrites(a) == /\ writes < MaxWrites /\ writes' = writes + 1
                 /\ \A t \in DOMAIN cur : cur[t].a # a
                 /\ (\E s \in 1..Scans, c \in Contents : mem' = [mem EXCEPT ![a][s] = c])
                 /\ UNCHANGED <<cur, scr, given, bufs, seen, kept>>
UserScribbles(r) == /\ writes < MaxWrites /\ writes' = writes + 1
                    /\ r \in 1..Len(given)
                    /\ bufs' = [bufs EXCEPT ![given[r]] = [i \in 1..Scans |-> <<"by", "hand">>]]
                    /\ UNCHANGED <<mem, cur, scr, given, seen, kept>>
Next == \/ \E t \in Threads, f \in Funs, a \in Arrays : Begin(t, f, a)
        \/ \E t \in Threads : Load(t) \/ Store(t) \/ End(t)
        \/ \E a \in Arrays : UserWrites(a)
        \/ \E r \in 1..MaxCalls : UserScribbles(r)
Spec == Init /\ [][Next]_vars

(* refinement *)
Calls == [t \in DOMAIN cur |-> [f |-> cur[t].f, args |-> <<cur[t].a>>, vals |-> <<cur[t].vals>>]]
Memo == [k \in {<<k[1], <<k[2]>>>> : k \in DOMAIN seen} |-> seen[<<k[1], k[2][1]>>]]
Res == [r \in 1..Len(given) |-> bufs[given[r]]]
P == INSTANCE Purity WITH arr <- mem, calls <- Calls, memo <- Memo, res <- Res
PNext == \/ \E t \in Threads, f \in Funs, a \in Arrays : P!Start(t, f, <<a>>)
         \/ \E t \in Threads : Len(Res') > 0 /\ P!Return(t, Res'[Len(Res')])
         \/ \E a \in Arrays : P!Write(a, mem'[a])
         \/ \E r \in 1..Len(given) : P!Scribble(r, Res'[r])
Pure == [][PNext]_P!pvars
(* and the results are the right ones *)
Right == \A k \in DOMAIN seen : seen[k] = [i \in 1..Scans |-> <<k[1], k[2][i]>>]

----------------------------------------------------------------------------
(* Histories of user operations for the replay *)
HOps == {<<"call", f, a>> : f \in {1, 2}, a \in {1, 2}} \cup {<<"write", a>> : a \in {1, 2}} \cup {<<"scribble">>}
        \cup {<<"layout", a>> : a \in {1, 2}} \cup {<<"parallel">>}
HInit == mem = <<>> /\ cur = <<>> /\ scr = <<>> /\ given = <<>> /\ bufs = <<>> /\ seen = <<>> /\ kept = <<>> /\ writes = 0
HNext == /\ Len(kept) < MaxCalls /\ (\E o \in HOps : kept' = Append(kept, o))
         /\ UNCHANGED <<mem, cur, scr, given, bufs, seen, writes>>
HEmit == (Len(kept) = MaxCalls /\ \E i \in 1..Len(kept) : kept[i][1] \in {"call", "parallel"}) =>
            PrintT("@@" \o ToJson([hist |-> kept]))
=============================================================================
