------------------------------- MODULE Swath -------------------------------
(* A swath of scans interpolated one scan after another with scratch       *)
(* buffers allocated once (MODIS with zenith angles; the interpolation     *)
(* without angles uses less of them in the same way).                      *)
(*                                                                         *)
(* The user edits the swath between calls: replaces a scan, swaps two,     *)
(* repeats or drops one.  Each buffer remembers which scan it was written  *)
(* from; an output scan remembers all that was read to make it.  Buffers   *)
(* are not cleared between scans: stale content must never be read.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Contents,    \* names of scans
          MaxScans, MaxEdits

VARIABLES swath,       \* sequence of contents
          edits,
          scan, pc, comp,
          buf,         \* buffer -> set of scans its content comes from
          out          \* scan -> set of scans it was made from
vars == <<swath, edits, scan, pc, comp, buf, out>>

(* tmp_a/tmp_b hold the coefficients of the zones in a corner, then the spread tie points over all *)
Buffers == {"aZone", "bZone", "a", "b", "c", "d", "track", "scan", "coarse", "fine0", "fine1", "fine2"}
Junk == -1
Init == /\ swath \in {<<x>> : x \in Contents} /\ edits = 0
        /\ scan = 0 /\ pc = "edit" /\ comp = 0
        /\ buf = [b \in Buffers |-> {Junk}] /\ out = <<>>

Replace == \E i \in 1..Len(swath), x \in Contents : swath[i] # x /\ swath' = [swath EXCEPT ![i] = x]
Swap == \E i, j \in 1..Len(swath) : i < j /\ swath' = [swath EXCEPT ![i] = swath[j], ![j] = swath[i]]
Insert == \E i \in 1..Len(swath), x \in Contents : Len(swath) < MaxScans
             /\ swath' = SubSeq(swath, 1, i) \o <<x>> \o SubSeq(swath, i + 1, Len(swath))
Drop == \E i \in 1..Len(swath) : Len(swath) > 1
             /\ swath' = SubSeq(swath, 1, i - 1) \o SubSeq(swath, i + 1, Len(swath))
Edit == /\ pc = "edit" /\ edits < MaxEdits
        /\ (Replace \/ Swap \/ Insert \/ Drop)
        /\ edits' = edits + 1 /\ out' = <<>>
        /\ UNCHANGED <<scan, pc, comp, buf>>
(* a call allocates its buffers *)
Call == /\ pc = "edit" /\ out = <<>>
        /\ scan' = 1 /\ pc' = "angles" /\ comp' = 0 /\ buf' = [b \in Buffers |-> {Junk}]
        /\ UNCHANGED <<swath, edits, out>>

Step(name, next, writes) == /\ pc = name /\ pc' = next
                            /\ buf' = [b \in Buffers |-> IF b \in DOMAIN writes THEN writes[b] ELSE buf[b]]
Angles == /\ Step("angles", "spread", [b \in {"aZone", "bZone"} |-> {scan}])
          /\ UNCHANGED <<swath, edits, scan, comp, out>>
Spread == /\ Step("spread", "track", [b \in {"c", "d"} |-> IF b = "c" THEN buf["aZone"] ELSE buf["bZone"]])
          /\ UNCHANGED <<swath, edits, scan, comp, out>>
Track == /\ Step("track", "load", [b \in {"track", "scan"} |-> IF b = "scan" THEN buf["c"] \cup buf["d"] ELSE {scan}])
         /\ UNCHANGED <<swath, edits, scan, comp, out>>
Load == /\ Step("load", "corners", [b \in {"coarse"} |-> {scan}])
        /\ comp' = 0 /\ UNCHANGED <<swath, edits, scan, out>>
Corners == /\ Step("corners", "combine", [b \in {"a", "b", "c", "d", "aZone", "bZone"} |-> buf["coarse"]])
           /\ UNCHANGED <<swath, edits, scan, comp, out>>
Fine(k) == CASE k = 0 -> "fine0" [] k = 1 -> "fine1" [] k = 2 -> "fine2"
Combine == /\ Step("combine", IF comp = 2 THEN "store" ELSE "corners",
                   [b \in {Fine(comp)} |-> UNION {buf[r] : r \in {"a", "b", "c", "d", "track", "scan"}}])
           /\ comp' = IF comp = 2 THEN 0 ELSE comp + 1
           /\ UNCHANGED <<swath, edits, scan, out>>
Store == /\ pc = "store"
         /\ out' = Append(out, buf["fine0"] \cup buf["fine1"] \cup buf["fine2"])
         /\ scan' = scan + 1 /\ pc' = IF scan = Len(swath) THEN "edit" ELSE "angles"
         /\ UNCHANGED <<swath, edits, comp, buf>>
Next == Edit \/ Call \/ Angles \/ Spread \/ Track \/ Load \/ Corners \/ Combine \/ Store
Spec == Init /\ [][Next]_vars

Done == pc = "edit" /\ out # <<>>
(* C03: the fine lines of a scan come from that scan only ... *)
OwnScan == \A s \in 1..Len(out) : out[s] = {s}
(* ... all scans are there, in order *)
AllScans == Done => Len(out) = Len(swath)
(* what is read is never left from before (or from another scan) *)
NoStale == pc \in {"store"} => \A b \in {"fine0", "fine1", "fine2", "track", "scan"} : buf[b] = {scan}

----------------------------------------------------------------------------
(* scenarios: a swath, an edit and the swath after it, with the scans that must not change *)
EmitInit == /\ swath \in UNION {[1..n -> Contents] : n \in 1..MaxScans} /\ edits = 0
            /\ scan = 0 /\ pc = "edit" /\ comp = 0 /\ buf = <<>> /\ out = <<>>
EmitNext == /\ edits = 0 /\ Replace /\ edits' = 1
            /\ PrintT("@@" \o ToJson([before |-> swath, after |-> swath',
                                     same |-> {i - 1 : i \in {j \in 1..Len(swath) : swath[j] = swath'[j]}}]))
            /\ UNCHANGED <<scan, pc, comp, buf, out>>
=============================================================================
