------------------------------- MODULE Splits -------------------------------
(* Splitting a swath at scan edges and interpolating the pieces in a pool  *)
(* of workers (legacy 1km to 500m and 250m, cores > 1).                    *)
(*                                                                         *)
(* Legal says which splits the property allows.  The machine is the split  *)
(* rule, then workers taking pieces in any order and finishing in any      *)
(* order, and the parent stacking the results.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Scans, LinesPer, Cpus      \* sets of sizes

(* splits is a sequence of line numbers *)
Bounds(nl, splits) == <<0>> \o splits \o <<nl>>
Legal(nl, lp, cpus, splits) ==
    /\ \A i \in 1..Len(splits) : splits[i] > 0 /\ splits[i] < nl /\ splits[i] % lp = 0
    /\ \A i \in 1..(Len(splits) - 1) : splits[i] < splits[i + 1]
    /\ IF nl \div lp >= cpus THEN Len(splits) + 1 >= cpus ELSE Len(splits) + 1 = nl \div lp

VARIABLES ns, lp, cpus, splits, queue, busy, results, out
vars == <<ns, lp, cpus, splits, queue, busy, results, out>>
nl == ns * lp
Step == (IF ns < cpus THEN 1 ELSE ns \div cpus) * lp
RECURSIVE Range(_, _, _)
Range(a, b, s) == IF a >= b THEN <<>> ELSE <<a>> \o Range(a + s, b, s)

Init == /\ ns \in Scans /\ lp \in LinesPer /\ cpus \in Cpus
        /\ splits = <<>> /\ queue = <<>> /\ busy = {} /\ results = <<>> /\ out = <<"split">>
Split == /\ out = <<"split">>
         /\ splits' = Range(Step, nl, Step)
         /\ out' = <<"map">>
         /\ queue' = [i \in 1..(Len(splits') + 1) |-> i]
         /\ UNCHANGED <<ns, lp, cpus, busy, results>>
Take == /\ out = <<"map">> /\ queue # <<>> /\ Cardinality(busy) < cpus
        /\ busy' = busy \cup {Head(queue)} /\ queue' = Tail(queue)
        /\ UNCHANGED <<ns, lp, cpus, splits, results, out>>
Finish == /\ \E p \in busy : /\ busy' = busy \ {p}
                             /\ LET b == Bounds(nl, splits)
                                IN  results' = [i \in DOMAIN results \cup {p} |->
                                        IF i = p THEN [l \in 1..(b[p + 1] - b[p]) |-> b[p] + l - 1] ELSE results[i]]
          /\ UNCHANGED <<ns, lp, cpus, splits, queue, out>>
RECURSIVE Stack(_, _)
Stack(r, i) == IF i > Cardinality(DOMAIN r) THEN <<>> ELSE r[i] \o Stack(r, i + 1)
Gather == /\ out = <<"map">> /\ queue = <<>> /\ busy = {}
          /\ out' = <<"done", Stack(results, 1)>>
          /\ UNCHANGED <<ns, lp, cpus, splits, queue, busy, results>>
Next == Split \/ Take \/ Finish \/ Gather
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LegalSplit == out # <<"split">> => Legal(nl, lp, cpus, splits)
(* no line lost, repeated or moved *)
AllLines == out[1] = "done" => out[2] = [l \in 1..nl |-> l - 1]
WholeScans == \A p \in DOMAIN results : Len(results[p]) % lp = 0 /\ results[p][1] % lp = 0
Terminates == <>(out[1] = "done")

----------------------------------------------------------------------------
(* Validation of recorded splits: [ns, lp, cpus, splits] *)
Req == JsonDeserialize(IOEnv.REQ)
TraceInit == /\ ns = 1 /\ lp = 1 /\ cpus = 1 /\ splits = <<>> /\ queue = <<>> /\ busy = {} /\ results = <<>> /\ out = <<"split">>
TraceNext == UNCHANGED vars
Judge == \A i \in 1..Len(Req) :
            LET r == Req[i] IN
            Legal(r.ns * r.lp, r.lp, r.cpus, r.splits) \/ PrintT("@@" \o ToJson([bad |-> i]))
Judged == PrintT("@@" \o ToJson([judged |-> Len(Req)]))
=============================================================================
