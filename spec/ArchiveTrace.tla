---------------------------- MODULE ArchiveTrace ----------------------------
(* Checks recorded executions against Archive: one behaviour per trace.    *)
EXTENDS Stow, Json, IOUtils, TLCExt

TraceFile == IOEnv.TRACE
Traces == ndJsonDeserialize(TraceFile)

VARIABLES tr, l, s, bad

Cfg(i) == Traces[i].cfg

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ s = Empty(Range(Traces[tr].misc), Traces[tr].aux)
        /\ bad = {}

Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l]
               t == AfterAny(Cfg(tr), e, s)
               b == JudgeAny(Cfg(tr), e, s, t)
           IN /\ s' = t
              /\ bad' = b
              /\ (b # {} => PrintT("BAD " \o ToJson([tr |-> tr, l |-> l, bad |-> b])))
        /\ l' = l + 1
        /\ tr' = tr

vars == <<tr, l, s, bad>>
Spec == Init /\ [][Next]_vars
View == <<tr, l>>

\* All events of all traces have been consumed
RECURSIVE SumEv(_)
SumEv(i) == IF i = 0 THEN 0 ELSE Len(Traces[i].ev) + 1 + SumEv(i - 1)
Complete == TLCGet("stats").distinct = SumEv(Len(Traces))
=============================================================================
