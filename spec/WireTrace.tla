----------------------------- MODULE WireTrace -----------------------------
(* Checks recorded connections against Wire.                               *)
EXTENDS Wire, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, w, bad

Init == tr \in 1..Len(Traces) /\ l = 1 /\ w = Start /\ bad = {}

Next == /\ l <= Len(Traces[tr].ev)
        /\ LET f == Traces[tr].ev[l]
               b == Wrong(w, f)
           IN /\ bad' = b
              /\ w' = Step(w, f)
              /\ (b # {} => PrintT("BAD " \o ToJson([tr |-> tr, l |-> l, bad |-> b])))
        /\ l' = l + 1
        /\ tr' = tr

Spec == Init /\ [][Next]_<<tr, l, w, bad>>
View == <<tr, l>>

RECURSIVE SumEv(_)
SumEv(i) == IF i = 0 THEN 0 ELSE Len(Traces[i].ev) + 1 + SumEv(i - 1)
Complete == TLCGet("stats").distinct = SumEv(Len(Traces))
=============================================================================
