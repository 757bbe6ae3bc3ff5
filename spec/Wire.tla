-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* What goes over the wire between stow and stevedore, frame by frame, and *)
(* who may send what when.                                                 *)
(*                                                                         *)
(*   from stow       filter(id)  mark  data  dataend(id)  meta  metaend    *)
(*   from stevedore  missing(id) skip(n) marked  stored(id)  metastored    *)
(*                   msg                                                   *)
(*                                                                         *)
(* dataend carries the ID which what was sent amounts to.                  *)
(*                                                                         *)
(* Step(w, f) is the state after a frame, Wrong(w, f) what is wrong with   *)
(* that frame in state w.  C17 are the obligations of stow, C18 those of   *)
(* stevedore.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start == [asked |-> <<>>,       \* filter requests, "" is a mark
          next  |-> 1,          \* the first of those without an answer
          miss  |-> 0,          \* how many were answered with "missing"
          open  |-> FALSE,      \* in the middle of sending data
          sent  |-> <<>>,       \* IDs of what has been sent
          acked |-> 0,          \* how many of these have been acknowledged
          meta  |-> "no"]       \* metadata: no, open, sent, stored

\* The answers may concern requests up to here, without passing a mark
Top(w) == LET m == {k \in w.next..Len(w.asked) : w.asked[k] = ""}
          IN IF m = {} THEN Len(w.asked) ELSE (CHOOSE k \in m : \A j \in m : k <= j) - 1
Hits(w, id) == {k \in w.next..Top(w) : w.asked[k] = id}
Settled(w) == \A k \in w.next..Len(w.asked) : w.asked[k] = ""

Step(w, f) ==
    CASE f.t = "filter"  -> [w EXCEPT !.asked = Append(@, f.id)]
      [] f.t = "mark"    -> [w EXCEPT !.asked = Append(@, "")]
      [] f.t = "data"    -> [w EXCEPT !.open = TRUE]
      [] f.t = "dataend" -> [w EXCEPT !.open = FALSE, !.sent = Append(@, f.id)]
      [] f.t = "meta"    -> [w EXCEPT !.meta = "open"]
      [] f.t = "metaend" -> [w EXCEPT !.meta = "sent"]
      [] f.t = "missing" -> [w EXCEPT !.miss = @ + 1,
                                      !.next = IF Hits(w, f.id) = {} THEN @
                                               ELSE 1 + CHOOSE k \in Hits(w, f.id) : \A j \in Hits(w, f.id) : k <= j]
      [] f.t = "skip"    -> [w EXCEPT !.next = @ + f.n]
      [] f.t = "marked"  -> [w EXCEPT !.next = Top(w) + 2]
      [] f.t = "stored"  -> [w EXCEPT !.acked = @ + 1]
      [] f.t = "metastored" -> [w EXCEPT !.meta = "stored"]
      [] OTHER -> w

Unless(c, p, n) == IF c THEN {} ELSE {<<p, n>>}

Wrong(w, f) ==
    CASE f.t = "data" ->
            Unless(w.open \/ Len(w.sent) < w.miss, "C17", "sends what it was not asked for")
            \cup Unless(w.meta # "open", "C17", "data inside of metadata")
      [] f.t = "dataend" -> Unless(w.open, "C17", "end of nothing")
      [] f.t = "meta" ->
            Unless(w.meta = "open" \/ (Settled(w) /\ Len(w.asked) > 0), "C17", "metadata before it is known what is in the archive")
            \cup Unless(w.meta = "open" \/ (Len(w.sent) = w.miss /\ ~w.open), "C17", "metadata before everything has been sent")
            \cup Unless(w.meta = "open" \/ w.acked = Len(w.sent), "C17", "metadata before everything is in the archive")
            \cup Unless(w.meta \in {"no", "open"}, "C17", "metadata twice")
      [] f.t = "metaend" -> Unless(w.meta = "open", "C17", "end of no metadata")
      [] f.t = "missing" -> Unless(Hits(w, f.id) # {}, "C18", "answer to what was not asked")
      [] f.t = "skip" -> Unless(f.n > 0 /\ w.next + f.n - 1 <= Top(w), "C18", "answer to what was not asked")
      [] f.t = "marked" -> Unless(Top(w) < Len(w.asked), "C18", "answer to what was not asked")
      [] f.t = "stored" -> Unless(w.acked < Len(w.sent), "C18", "acknowledges what was not sent")
                           \cup Unless(w.acked >= Len(w.sent) \/ f.id = w.sent[w.acked + 1], "C18", "acknowledges something else")
      [] f.t = "metastored" -> Unless(w.meta = "sent", "C18", "acknowledges metadata which was not sent")
      [] f.t = "exit" -> Unless(f.rc # 0 \/ w.meta = "stored", "C17", "all is well, but the metadata was not acknowledged")
      [] f.t = "junk" -> {<<IF f.dir = ">" THEN "C17" ELSE "C18", "not the protocol">>}
      [] OTHER -> {}
=============================================================================
