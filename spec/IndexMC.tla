------------------------------ MODULE IndexMC ------------------------------
(***************************************************************************)
(* The sorted index: records in order of their keys, and a table in front  *)
(* of them which says where to begin looking.                              *)
(*                                                                         *)
(* For each bucket (the first BBits of the key) the table has the smallest *)
(* difference between where a record is and where one would expect it if   *)
(* keys were spread evenly; looking for a prefix begins that much beside   *)
(* where one would expect the smallest key which has it.  How many records *)
(* there will be is estimated, before duplicates are dropped.              *)
(*                                                                         *)
(* Every set of keys, every estimate, every prefix: everything which has   *)
(* the prefix is found, and nothing else.  And merging: what comes out of  *)
(* merging a sorted chunk with a sorted file is both, in order, once.      *)
(*                                                                         *)
(* Keys are in base 2 here, two digits are a "byte".                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Flaw,     \* "none", or what is wrong
          W,        \* digits of a key
          BBits,    \* so many of which select the bucket
          TBits,    \* so many of which are used to predict the place
          MaxKeys,  \* so many records
          Slack     \* so many records earlier does the table make one begin (as big as it is itself)

Keys == 0..(2^W - 1)
NB == 2^BBits
EMPTY == 1000

\* How the records get there: the sorted file, and the chunk to merge with it
VARIABLES file, chunk, phase
vars == <<file, chunk, phase>>

Top(k, n) == k \div 2^(W - n)
Predict(k, nrec) == (Top(k, TBits) * nrec) \div 2^TBits


\* (positions are from 0)
Table(recs, nrec) ==
    [b \in 0..(NB - 1) |->
        IF b = 0 THEN 0
        ELSE LET xs == {(i - 1) - Predict(recs[i], nrec) : i \in {j \in DOMAIN recs : Top(recs[j], BBits) = b}}
             IN IF xs = {} THEN EMPTY
                ELSE CHOOSE x \in xs : \A y \in xs : IF Flaw = "largest" THEN x >= y ELSE x <= y]

RECURSIVE SkipEmpty(_, _)
SkipEmpty(tab, b) == IF b >= NB \/ tab[b] # EMPTY THEN b ELSE SkipEmpty(tab, b + 1)

Clamp(x) == IF x < 0 THEN 0 ELSE x

\* Where to begin looking for keys from lo on
Seek(tab, nrec, lo) ==
    LET b == Top(lo, BBits)
        c == SkipEmpty(tab, b)
    IN IF b = 0 THEN 0
       ELSE IF Flaw = "empty-is-last" /\ c # b THEN EMPTY
       ELSE IF c = NB THEN EMPTY
       ELSE Clamp(tab[c] - Slack + Predict(IF c = b THEN lo ELSE c * 2^(W - BBits), nrec))

\* Prefix of l digits: the smallest key, and what is compared
Lo(p, l) == p * 2^(W - l)
Has(k, p, l) == Top(k, l) = p
WholeBytes(l) == IF Flaw = "round-up" THEN IF l = W THEN W ELSE 2 * ((l + 1) \div 2) ELSE 2 * (l \div 2)

RECURSIVE Scan(_, _, _, _)
Scan(recs, i, p, l) ==
    IF i > Len(recs) THEN {}
    ELSE LET w == WholeBytes(l)
             mine == Top(Lo(p, l), w)
             k == recs[i]
         IN IF Top(k, w) > mine THEN {}
            ELSE IF Has(k, p, l) THEN {k} \cup Scan(recs, i + 1, p, l)
            ELSE Scan(recs, i + 1, p, l)

Lookup(recs, nrec, p, l) == Scan(recs, Seek(Table(recs, nrec), IF Flaw = "other-estimate" THEN nrec + 1 ELSE nrec, Lo(p, l)) + 1, p, l)

\* Merging
RECURSIVE Merge(_, _)
Merge(f, c) ==
    IF f = <<>> THEN c
    ELSE IF c # <<>> /\ Head(f) > Head(c) THEN <<Head(c)>> \o Merge(f, Tail(c))
    ELSE IF c # <<>> /\ Head(f) = Head(c) THEN Merge(f, Tail(c))
    ELSE <<Head(f)>> \o Merge(Tail(f), c)

Init == file = <<>> /\ chunk = <<>> /\ phase = "file"

More(s) == {k \in Keys : s = <<>> \/ k > s[Len(s)]}
Next ==
    \/ /\ phase = "file" /\ Len(file) < MaxKeys
       /\ \E k \in More(file) : file' = Append(file, k)
       /\ UNCHANGED <<chunk, phase>>
    \/ /\ phase = "file" /\ phase' = "chunk"
       /\ UNCHANGED <<file, chunk>>
    \/ /\ phase = "chunk" /\ Len(file) + Len(chunk) < MaxKeys
       /\ \E k \in More(chunk) : chunk' = Append(chunk, k)
       /\ UNCHANGED <<file, phase>>
Spec == Init /\ [][Next]_vars

Wanted == UNION {{<<p, l>> : p \in 0..(2^l - 1)} : l \in 0..W}

\* C08: lookups find what is there
FindsAll == phase = "chunk" =>
    LET recs == Merge(file, chunk)
        nrec == Len(file) + Len(chunk)
    IN \A q \in Wanted : Lookup(recs, nrec, q[1], q[2]) = {k \in ToSet(recs) : Has(k, q[1], q[2])}
\* C09: nothing gets lost, it is in order, and there once
MergeExact == LET recs == Merge(file, chunk) IN
    /\ ToSet(recs) = ToSet(file) \cup ToSet(chunk)
    /\ \A i \in 2..Len(recs) : recs[i - 1] < recs[i]
=============================================================================
