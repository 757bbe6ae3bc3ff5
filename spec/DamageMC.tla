------------------------------ MODULE DamageMC ------------------------------
EXTENDS Sequences, TLC, Json

Kinds == {"warcinfo", "resource", "metadata", "first", "middle", "last"}
Edits == [clen |-> {"inc", "dec", "zero", "junk", "tail", "drop"}, bdig |-> {"flip", "alg", "drop", "tail", "junk"},
          id |-> {"flip"}, pdig |-> {"flip", "alg", "drop", "tail", "add"}, segno |-> {"inc", "dec", "zero", "junk", "drop", "add"},
          segorig |-> {"flip", "drop"}, segtot |-> {"inc", "dec", "junk", "tail", "drop", "add"},
          type |-> {"resource", "metadata", "warcinfo", "continuation", "drop"},
          refers |-> {"flip", "drop", "add"}, mime |-> {"other"}, date |-> {"other"},
          body |-> {"other", "shorter", "longer", "empty", "repack", "aa-", "aa+", "noaa", "gone", "crc"},
          sep |-> {"gone", "double", "flip", "other"},
          hdrbytes |-> {"flip", "early", "late", "zero", "insert", "delete", "cut"},
          bodybytes |-> {"flip", "early", "late", "zero", "insert", "delete", "cut"},
          file |-> {"append1", "append", "cutrec", "remove", "norec"}]
VARIABLE c
Init == \E k \in Kinds, p \in DOMAIN Edits : \E h \in Edits[p] : c = [kind |-> k, part |-> p, how |-> h]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
