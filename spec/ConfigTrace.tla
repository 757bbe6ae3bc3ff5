---------------------------- MODULE ConfigTrace ----------------------------
(* Checks what the program did with configuration files against Config.    *)
EXTENDS Config, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, bad

Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}

Next == /\ l <= Len(Traces[tr].ev)
        /\ LET b == Judge(Traces[tr].ev[l]) IN
              /\ bad' = b
              /\ (b # {} => PrintT("BAD " \o ToJson([tr |-> tr, l |-> l, bad |-> b])))
        /\ l' = l + 1
        /\ tr' = tr

Spec == Init /\ [][Next]_<<tr, l, bad>>
View == <<tr, l>>

RECURSIVE SumEv(_)
SumEv(i) == IF i = 0 THEN 0 ELSE Len(Traces[i].ev) + 1 + SumEv(i - 1)
Complete == TLCGet("stats").distinct = SumEv(Len(Traces))
=============================================================================
