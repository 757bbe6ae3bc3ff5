------------------------------- MODULE StowMC -------------------------------
(***************************************************************************)
(* stow and stevedore at work: event loops, helper processes, and pipes    *)
(* which hold CAP frames.  Explored exhaustively; on every frame which     *)
(* passes Wire is applied, and there must not be a deadlock.               *)
(*                                                                         *)
(* stow only writes when there is room, and else reads.  The stevedore     *)
(* reads and writes with blocking calls and has one process for filtering, *)
(* and one for storing at a time.                                          *)
(***************************************************************************)
EXTENDS Wire, TLC

CONSTANTS Trees,        \* the trees considered: sequences of contents, the manifest comes last
          Before,       \* contents which may be in the archive at the outset
          CAP,          \* frames which fit in a pipe
          \* What the program used to get wrong
          StowBlocks,   \* stow writes whether there is room or not
          EagerMeta     \* metadata follows as soon as the manifest is known

VARIABLES tree, have,
          sv, vs,       \* the pipes
          \* stow
          todo, waiting, gets, acks, sending, meta, stuck,
          \* stevedore
          fq, job, out, cur, storing, storingmeta,
          w, bad

vars == <<tree, have, sv, vs, todo, waiting, gets, acks, sending, meta, stuck, fq, job, out, cur, storing, storingmeta, w, bad>>

NoJob == [on |-> FALSE, ids |-> <<>>, i |-> 1, skip |-> 0, fresh |-> {}]

Init == /\ tree \in Trees
        /\ have \in SUBSET Before
        /\ sv = <<>> /\ vs = <<>>
        /\ todo = tree \o <<"">> /\ waiting = <<>> /\ gets = <<>> /\ acks = <<>> /\ sending = "" /\ meta = "no" /\ stuck = <<>>
        /\ fq = <<>> /\ job = NoJob /\ out = <<>> /\ cur = "" /\ storing = "" /\ storingmeta = "no"
        /\ w = Start /\ bad = {}

Manifest == tree[Len(tree)]
Pass(f) == w' = Step(w, f) /\ bad' = bad \cup Wrong(w, f)

---------------------------------------------------------------------------
(* stow *)

Room(p) == Len(p) < CAP
\* Put a frame on the wire, or get stuck trying
Write(f) == /\ stuck = <<>>
            /\ IF Room(sv) THEN sv' = Append(sv, f) /\ stuck' = stuck /\ Pass(f)
               ELSE StowBlocks /\ stuck' = <<f>> /\ UNCHANGED <<sv, w, bad>>

Unstick == /\ stuck # <<>> /\ Room(sv)
           /\ sv' = Append(sv, stuck[1]) /\ stuck' = <<>> /\ Pass(stuck[1])
           /\ UNCHANGED <<tree, have, vs, todo, waiting, gets, acks, sending, meta, fq, job, out, cur, storing, storingmeta>>

Ask == /\ todo # <<>>
       /\ Write(IF Head(todo) = "" THEN [t |-> "mark"] ELSE [t |-> "filter", id |-> Head(todo)])
       /\ todo' = Tail(todo) /\ waiting' = Append(waiting, Head(todo))
       /\ UNCHANGED <<tree, have, vs, gets, acks, sending, meta, fq, job, out, cur, storing, storingmeta>>

Send == /\ sending = "" /\ gets # <<>>
        /\ Write([t |-> "data"])
        /\ sending' = Head(gets) /\ gets' = Tail(gets)
        /\ UNCHANGED <<tree, have, vs, todo, waiting, acks, meta, fq, job, out, cur, storing, storingmeta>>

SendEnd == /\ sending # ""
           /\ Write([t |-> "dataend", id |-> sending])
           /\ acks' = Append(acks, sending) /\ sending' = ""
           /\ UNCHANGED <<tree, have, vs, todo, waiting, gets, meta, fq, job, out, cur, storing, storingmeta>>

Meta == /\ meta = "ready" /\ sending = "" /\ todo = <<>>
        /\ EagerMeta \/ (gets = <<>> /\ acks = <<>>)
        /\ Write([t |-> "meta"])
        /\ meta' = "open"
        /\ UNCHANGED <<tree, have, vs, todo, waiting, gets, acks, sending, fq, job, out, cur, storing, storingmeta>>
MetaEnd == /\ meta = "open"
           /\ Write([t |-> "metaend"])
           /\ meta' = "sent"
           /\ UNCHANGED <<tree, have, vs, todo, waiting, gets, acks, sending, fq, job, out, cur, storing, storingmeta>>

\* The answer to the last file in the list is about the manifest
Known(xs) == meta' = IF Manifest \in {xs[i] : i \in DOMAIN xs} /\ Len(SelectSeq(waiting, LAMBDA x : x # "")) <= Len(xs) /\ todo \in {<<>>, <<"">>}
                     THEN "ready" ELSE meta

IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in DOMAIN s : s[j] = x => i <= j

StowRead ==
    /\ stuck = <<>> /\ vs # <<>> /\ meta # "stored"
    /\ vs' = Tail(vs)
    /\ Pass(Head(vs))
    /\ LET f == Head(vs) IN
       CASE f.t = "missing" ->
              LET i == IndexOf(waiting, f.id) IN
              /\ waiting' = SubSeq(waiting, i + 1, Len(waiting)) /\ gets' = Append(gets, f.id)
              /\ UNCHANGED <<acks, meta>>
         [] f.t = "skip" ->
              /\ waiting' = SubSeq(waiting, f.n + 1, Len(waiting))
              /\ Known(SubSeq(waiting, 1, f.n)) /\ UNCHANGED <<gets, acks>>
         [] f.t = "marked" ->
              /\ waiting' = <<>>
              /\ Known(SelectSeq(waiting, LAMBDA x : x # "")) /\ UNCHANGED <<gets, acks>>
         [] f.t = "stored" ->
              /\ acks' = Tail(acks)
              /\ meta' = IF Head(acks) = Manifest /\ meta = "no" THEN "ready" ELSE meta
              /\ UNCHANGED <<waiting, gets>>
         [] OTHER -> meta' = "stored" /\ UNCHANGED <<waiting, gets, acks>>
    /\ UNCHANGED <<tree, have, sv, todo, sending, stuck, fq, job, out, cur, storing, storingmeta>>

---------------------------------------------------------------------------
(* stevedore: nothing gets done while there is something to write *)

Free == out = <<>>

SteveRead ==
    /\ Free /\ sv # <<>> /\ storing = "" /\ storingmeta = "no"
    /\ sv' = Tail(sv)
    /\ LET f == Head(sv) IN
       CASE f.t \in {"filter", "mark"} -> fq' = Append(fq, IF f.t = "mark" THEN "" ELSE f.id) /\ UNCHANGED <<cur, storing, storingmeta>>
         [] f.t = "dataend" -> storing' = f.id /\ UNCHANGED <<fq, cur, storingmeta>>
         [] f.t = "metaend" -> storingmeta' = "yes" /\ UNCHANGED <<fq, cur, storing>>
         [] OTHER -> UNCHANGED <<fq, cur, storing, storingmeta>>
    /\ UNCHANGED <<tree, have, vs, todo, waiting, gets, acks, sending, meta, stuck, job, out, w, bad>>

Flush == /\ out # <<>> /\ Room(vs)
         /\ vs' = Append(vs, Head(out)) /\ out' = Tail(out)
         /\ UNCHANGED <<tree, have, sv, todo, waiting, gets, acks, sending, meta, stuck, fq, job, cur, storing, storingmeta, w, bad>>

FirstMark == LET m == {i \in DOMAIN fq : fq[i] = ""} IN IF m = {} THEN Len(fq) + 1 ELSE CHOOSE i \in m : \A j \in m : i <= j

FilterMark == /\ Free /\ ~job.on /\ fq # <<>> /\ Head(fq) = ""
              /\ fq' = Tail(fq) /\ out' = <<[t |-> "marked"]>>
              /\ UNCHANGED <<tree, have, sv, vs, todo, waiting, gets, acks, sending, meta, stuck, job, cur, storing, storingmeta, w, bad>>

FilterStart == /\ Free /\ ~job.on /\ fq # <<>> /\ Head(fq) # ""
               /\ job' = [NoJob EXCEPT !.on = TRUE, !.ids = SubSeq(fq, 1, FirstMark - 1), !.skip = FirstMark - 1]
               /\ fq' = SubSeq(fq, FirstMark, Len(fq))
               /\ UNCHANGED <<tree, have, sv, vs, todo, waiting, gets, acks, sending, meta, stuck, out, cur, storing, storingmeta, w, bad>>

\* The process looks up the next one
FilterStep == /\ Free /\ job.on /\ job.i <= Len(job.ids)
              /\ IF job.ids[job.i] \in have
                 THEN job' = [job EXCEPT !.i = @ + 1] /\ out' = out
                 ELSE job' = [job EXCEPT !.i = @ + 1, !.skip = 0] /\ out' = <<[t |-> "missing", id |-> job.ids[job.i]]>>
              /\ UNCHANGED <<tree, have, sv, vs, todo, waiting, gets, acks, sending, meta, stuck, fq, cur, storing, storingmeta, w, bad>>

FilterEnd == /\ Free /\ job.on /\ job.i > Len(job.ids)
             /\ job' = NoJob
             /\ out' = IF job.skip > 0 THEN <<[t |-> "skip", n |-> job.skip]>> ELSE <<>>
             /\ UNCHANGED <<tree, have, sv, vs, todo, waiting, gets, acks, sending, meta, stuck, fq, cur, storing, storingmeta, w, bad>>

Store == /\ Free /\ storing # ""
         /\ have' = have \cup {storing} /\ out' = <<[t |-> "stored", id |-> storing]>> /\ storing' = ""
         /\ UNCHANGED <<tree, sv, vs, todo, waiting, gets, acks, sending, meta, stuck, fq, job, cur, storingmeta, w, bad>>

StoreMeta == /\ Free /\ storingmeta = "yes"
             /\ storingmeta' = "no" /\ out' = <<[t |-> "metastored"]>>
             /\ UNCHANGED <<tree, have, sv, vs, todo, waiting, gets, acks, sending, meta, stuck, fq, job, cur, storing, w, bad>>

Finished == meta = "stored" /\ UNCHANGED vars

Next == Ask \/ Send \/ SendEnd \/ Meta \/ MetaEnd \/ Unstick \/ StowRead
        \/ SteveRead \/ Flush \/ FilterMark \/ FilterStart \/ FilterStep \/ FilterEnd \/ Store \/ StoreMeta
        \/ Finished

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Obliging == bad = {}
Kept == w.meta # "no" => {tree[i] : i \in DOMAIN tree} \subseteq have
Ends == <>(meta = "stored")

ATrees == {<<"m">>, <<"a", "m">>, <<"a", "b", "m">>, <<"a", "a", "m">>, <<"a", "b", "c", "m">>, <<"a", "b", "a", "m">>}
ATrees5 == ATrees \cup {<<"a", "b", "c", "d", "m">>, <<"a", "b", "b", "a", "m">>}
ABefore == {"a", "b", "m"}
=============================================================================
