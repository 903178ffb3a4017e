------------------------------ MODULE PureTrace -----------------------------
(* Validation of recorded histories against Purity: every event must be a  *)
(* step of the specification with the recorded values.                     *)
EXTENDS Purity, Json, IOUtils

Trace == JsonDeserialize(IOEnv.REQ)
VARIABLE l
tvars == <<arr, calls, memo, res, l>>
TInit == PInit /\ l = 1
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TWrite == Is("write") /\ Write(Trace[l].a, Trace[l].v)
TStart == Is("start") /\ Start(Trace[l].t, Trace[l].f, Trace[l].args) /\ calls'[Trace[l].t].vals = Trace[l].vals
TReturn == /\ Is("return") /\ Return(Trace[l].t, Trace[l].out)
           /\ calls[Trace[l].t].vals = Trace[l].after
TScribble == Is("scribble") /\ Scribble(Trace[l].r, Trace[l].v)
(* everything the caller holds *)
TCheck == /\ Is("check") /\ res = Trace[l].res
          /\ \A i \in 1..Len(Trace[l].arr) : arr[Trace[l].arr[i][1]] = Trace[l].arr[i][2]
          /\ UNCHANGED pvars
(* the caller forgets everything; what was seen of the functions stays *)
TReset == Is("reset") /\ calls = <<>> /\ arr' = <<>> /\ res' = <<>> /\ UNCHANGED <<calls, memo>>
TNext == TWrite \/ TStart \/ TReturn \/ TScribble \/ TCheck \/ TReset
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
