------------------------------ MODULE CommitMC ------------------------------
(***************************************************************************)
(* How what is stored gets into the archive, one system call at a time:    *)
(* stores, housekeeping, readers, and somebody who pulls the plug.         *)
(*                                                                         *)
(* A silo is written under another name (the hold, which must not have     *)
(* been there) and gets its name when it is complete, or what is in it     *)
(* moves into an earlier silo, while that is held.  An index entry is      *)
(* appended to one file, which housekeeping takes away under another name  *)
(* and merges with the sorted one.                                         *)
(*                                                                         *)
(* Nothing here is about how the bytes look.  What is claimed is what      *)
(* Conc.tla judges in the program when it is stopped between any two       *)
(* system calls: index entries only ever refer to what is there, no silo   *)
(* is written by two, no object is half there, what was acknowledged is    *)
(* found by every reader from then on, whoever dies at whatever point.     *)
(*                                                                         *)
(* Flaw leaves one of the precautions out; every one of them is needed.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Flaw,      \* "none", or what has been left out
          Deep,      \* more processes at once
          Crashes    \* how many of them may die

\* Who is there
Cases == {<<"a", "b", "hk">>, <<"c", "a">>, <<"c", "hk">>, <<"a", "a">>, <<"a", "hk", "hk">>, <<"a", "hk", "rd">>, <<"c", "rd">>, <<"d", "c">>}
         \cup (IF Deep THEN {<<"c", "hk", "rd">>, <<"c", "a", "hk">>} ELSE {})

NSilo == 7
Max == 3             \* what fits in a silo, with the warcinfo

\* What there is to store.  The last two have a segment in common
Segs == [a |-> <<"a">>, b |-> <<"b">>, c |-> <<"c1", "x">>, d |-> <<"d1", "x">>, z |-> <<"z">>]
Objs == DOMAIN Segs
Silos == 0..(NSilo - 1)

VARIABLES kind,      \* process -> what it does
          silo,      \* number -> records, <<>> when there is none
          hold,      \* number -> who holds it, 0 for nobody
          ino,       \* index files which are not sorted, by inode
          app, hk,   \* which of them has which name, 0 for none
          srt,       \* the sorted one
          ihold,     \* who is housekeeping
          P,         \* process -> where it is and what it knows
          acked,     \* objects which are acknowledged
          died       \* how many have
vars == <<kind, silo, hold, ino, app, hk, srt, ihold, P, acked, died>>

Procs == DOMAIN kind
E(k, n, p, c) == [k |-> k, n |-> n, p |-> p, c |-> c]
Local == [pc |-> "start", n |-> 0, own |-> <<>>, sn |-> 0, i |-> 0, fd |-> 0, ent |-> E("", 0, 0, ""), ret |-> "", buf |-> {}, again |-> FALSE,
          must |-> {}, want |-> "", ok |-> TRUE]

IsStore(q) == kind[q] \in Objs
Mine(q) == Segs[kind[q]]
At(q, pc) == P[q].pc = pc

\* To start with: two silos, with room in the second, and half of the index is sorted
Init ==
    /\ kind \in Cases
    /\ silo = [n \in Silos |-> IF n = 0 THEN <<"w", "z", "z0">> ELSE IF n = 1 THEN <<"w", "z1">> ELSE <<>>]
    /\ hold = [n \in Silos |-> 0]
    /\ ino = <<{E("w", 1, 1, ""), E("z1", 1, 2, "")}>>
    /\ app = 1 /\ hk = 0
    /\ srt = {E("w", 0, 1, ""), E("z", 0, 2, ""), E("z0", 0, 3, "")}
    /\ ihold = 0
    /\ P = [q \in Procs |-> Local]
    /\ acked = {"z"}
    /\ died = 0

Go(q, f) == P' = [P EXCEPT ![q] = f @@ @]
Index == srt \cup (IF app = 0 THEN {} ELSE ino[app]) \cup (IF hk = 0 THEN {} ELSE ino[hk])

(***************************************************************************)
(* Index entries                                                           *)
(***************************************************************************)
Insert(q, e, ret) == [pc |-> "ins-open", ent |-> e, ret |-> ret]

InsOpen(q) ==
    /\ At(q, "ins-open")
    /\ IF app = 0 THEN /\ ino' = Append(ino, {})
                       /\ app' = Len(ino) + 1
                  ELSE UNCHANGED <<ino, app>>
    /\ Go(q, [pc |-> "ins-write", fd |-> app'])
    /\ UNCHANGED <<kind, silo, hold, hk, srt, ihold, acked, died>>

InsWrite(q) ==
    /\ At(q, "ins-write")
    /\ ino' = [ino EXCEPT ![P[q].fd] = @ \cup {P[q].ent}]
    /\ Go(q, [pc |-> IF Flaw = "insert-once" THEN P[q].ret ELSE "ins-check"])
    /\ UNCHANGED <<kind, silo, hold, app, hk, srt, ihold, acked, died>>

InsCheck(q) ==
    /\ At(q, "ins-check")
    /\ Go(q, [pc |-> IF app = P[q].fd THEN P[q].ret ELSE "ins-open"])
    /\ UNCHANGED <<kind, silo, hold, ino, app, hk, srt, ihold, acked, died>>

(***************************************************************************)
(* Store                                                                   *)
(***************************************************************************)
Files == <<kind, ino, app, hk, srt, ihold, died>>

\* Find a number which is free, for each of the segments
Start(q) ==
    /\ IsStore(q) /\ At(q, "start")
    /\ LET n == P[q].n IN
       Go(q, IF silo[n] # <<>> \/ hold[n] # 0 THEN [n |-> n + 1] ELSE [pc |-> "create"])
    /\ UNCHANGED <<silo, hold, acked>> /\ UNCHANGED Files

Create(q) ==
    /\ At(q, "create")
    /\ LET n == P[q].n IN
       IF hold[n] # 0 /\ Flaw # "hold-not-exclusive"
       THEN /\ Go(q, [pc |-> "start", n |-> n + 1]) /\ UNCHANGED hold
       ELSE /\ hold' = [hold EXCEPT ![n] = q]
            /\ Go(q, [pc |-> IF Flaw = "no-second-look" THEN "mine" ELSE "recheck"])
    /\ UNCHANGED <<silo, acked>> /\ UNCHANGED Files

Recheck(q) ==
    /\ At(q, "recheck")
    /\ LET n == P[q].n IN
       IF silo[n] # <<>> THEN /\ hold' = [hold EXCEPT ![n] = 0]
                              /\ Go(q, [pc |-> "start", n |-> n + 1])
                         ELSE /\ Go(q, [pc |-> "mine"]) /\ UNCHANGED hold
    /\ UNCHANGED <<silo, acked>> /\ UNCHANGED Files

Got(q) ==
    /\ At(q, "mine")
    /\ LET own == Append(P[q].own, P[q].n) IN
       Go(q, IF Len(own) < Len(Mine(q)) THEN [own |-> own, pc |-> "start", n |-> P[q].n + 1] ELSE [own |-> own, pc |-> "there"])
    /\ UNCHANGED <<silo, hold, acked>> /\ UNCHANGED Files

\* (it may be there; two who store the same at the same time both store it)
There(q) ==
    /\ At(q, "there")
    /\ Go(q, IF \E e \in Index : e.k = Mine(q)[1] THEN [pc |-> "release", i |-> 1]
             ELSE IF Len(Mine(q)) = 1 THEN [pc |-> "try", sn |-> 0]
             ELSE [pc |-> "install", i |-> IF Flaw = "first-segment-first" THEN 1 ELSE Len(Mine(q))])
    /\ UNCHANGED <<silo, hold, acked>> /\ UNCHANGED Files

\* Is there room in an earlier silo?
Try(q) ==
    /\ At(q, "try")
    /\ LET sn == P[q].sn IN
       Go(q, IF sn = P[q].own[1] THEN [pc |-> "install", i |-> 1]
             ELSE IF silo[sn] # <<>> /\ Len(silo[sn]) < Max THEN [pc |-> "grab"]
             ELSE [sn |-> sn + 1])
    /\ UNCHANGED <<silo, hold, acked>> /\ UNCHANGED Files

Grab(q) ==
    /\ At(q, "grab")
    /\ LET sn == P[q].sn IN
       IF hold[sn] # 0 /\ Flaw # "append-without-hold"
       THEN /\ Go(q, [pc |-> "try", sn |-> sn + 1]) /\ UNCHANGED hold
       ELSE /\ hold' = [hold EXCEPT ![sn] = q]
            /\ Go(q, [pc |-> IF Flaw = "append-without-look" THEN "append" ELSE "look"])
    /\ UNCHANGED <<silo, acked>> /\ UNCHANGED Files

Look(q) ==
    /\ At(q, "look")
    /\ LET sn == P[q].sn IN
       IF Len(silo[sn]) < Max THEN /\ Go(q, [pc |-> "append"]) /\ UNCHANGED hold
       ELSE /\ hold' = [hold EXCEPT ![sn] = 0]
            /\ Go(q, [pc |-> "try", sn |-> sn + 1])
    /\ UNCHANGED <<silo, acked>> /\ UNCHANGED Files

AppendTo(q) ==
    /\ At(q, "append")
    /\ LET sn == P[q].sn IN
       /\ silo' = [silo EXCEPT ![sn] = Append(@, Mine(q)[1])]
       /\ Go(q, Insert(q, E(Mine(q)[1], sn, Len(silo[sn]) + 1, ""), "appended"))
    /\ UNCHANGED <<hold, acked>> /\ UNCHANGED Files

Appended(q) ==
    /\ At(q, "appended")
    /\ hold' = [hold EXCEPT ![P[q].sn] = 0]
    /\ Go(q, [pc |-> "release", i |-> 1])
    /\ UNCHANGED <<silo, acked>> /\ UNCHANGED Files

\* Give up the silos which are not needed, and say so
Release(q) ==
    /\ At(q, "release")
    /\ IF P[q].i > Len(P[q].own)
       THEN /\ acked' = acked \cup {kind[q]}
            /\ Go(q, [pc |-> "done"])
            /\ UNCHANGED hold
       ELSE /\ hold' = [hold EXCEPT ![P[q].own[P[q].i]] = 0]
            /\ Go(q, [i |-> P[q].i + 1])
            /\ UNCHANGED acked
    /\ UNCHANGED silo /\ UNCHANGED Files

\* A silo of its own for each segment, the last one first
Next1(q) == LET i == P[q].i IN
            IF Flaw = "first-segment-first" THEN IF i = Len(Mine(q)) THEN 0 ELSE i + 1 ELSE i - 1
Entry(q) == LET i == P[q].i IN
            E(Mine(q)[i], P[q].own[i], 2, IF i < Len(Mine(q)) THEN Mine(q)[i + 1] ELSE "")

Install(q) ==
    /\ At(q, "install")
    /\ IF P[q].i = 0
       THEN /\ acked' = acked \cup {kind[q]}
            /\ Go(q, [pc |-> "done"])
            /\ UNCHANGED <<silo, hold>>
       ELSE LET n == P[q].own[P[q].i] IN
            /\ IF Flaw = "entry-first" THEN /\ Go(q, Insert(q, E("w", n, 1, ""), "late-link"))
                                            /\ UNCHANGED silo
               ELSE IF silo[n] # <<>> THEN /\ Go(q, [pc |-> "failed"]) /\ UNCHANGED silo
               ELSE /\ silo' = [silo EXCEPT ![n] = <<"w", Mine(q)[P[q].i]>>]
                    /\ Go(q, Insert(q, E("w", n, 1, ""), "unhold"))
            /\ UNCHANGED <<hold, acked>>
    /\ UNCHANGED Files

LateLink(q) ==
    /\ At(q, "late-link")
    /\ silo' = [silo EXCEPT ![P[q].own[P[q].i]] = <<"w", Mine(q)[P[q].i]>>]
    /\ Go(q, [pc |-> "unhold"])
    /\ UNCHANGED <<hold, acked>> /\ UNCHANGED Files

Unhold(q) ==
    /\ At(q, "unhold")
    /\ hold' = [hold EXCEPT ![P[q].own[P[q].i]] = 0]
    /\ Go(q, Insert(q, Entry(q), "installed"))
    /\ UNCHANGED <<silo, acked>> /\ UNCHANGED Files

Installed(q) ==
    /\ At(q, "installed")
    /\ Go(q, [pc |-> "install", i |-> Next1(q)])
    /\ UNCHANGED <<silo, hold, acked>> /\ UNCHANGED Files

Store(q) == \/ Start(q) \/ Create(q) \/ Recheck(q) \/ Got(q) \/ There(q) \/ Try(q) \/ Grab(q) \/ Look(q) \/ AppendTo(q) \/ Appended(q)
            \/ Release(q) \/ Install(q) \/ LateLink(q) \/ Unhold(q) \/ Installed(q)

(***************************************************************************)
(* Housekeeping                                                            *)
(***************************************************************************)
Others == <<kind, silo, hold, acked, died>>

HkHold(q) ==
    /\ kind[q] = "hk" /\ At(q, "start")
    /\ IF ihold # 0 /\ Flaw # "two-housekeepers"
       THEN /\ Go(q, [pc |-> "done"]) /\ UNCHANGED ihold
       ELSE /\ ihold' = q
            /\ Go(q, [pc |-> "hk-link"])
    /\ UNCHANGED <<ino, app, hk, srt>> /\ UNCHANGED Others

HkLink(q) ==
    /\ At(q, "hk-link")
    /\ IF app = 0 THEN /\ Go(q, [pc |-> "hk-end"]) /\ UNCHANGED hk
       ELSE IF hk # 0 /\ Flaw # "snapshot-replaced" THEN /\ Go(q, [pc |-> "hk-read", again |-> TRUE]) /\ UNCHANGED hk
       ELSE /\ hk' = app
            /\ Go(q, [pc |-> "hk-unlink", again |-> FALSE])
    /\ UNCHANGED <<ino, app, srt, ihold>> /\ UNCHANGED Others

HkUnlink(q) ==
    /\ At(q, "hk-unlink")
    /\ app' = 0
    /\ Go(q, [pc |-> "hk-read"])
    /\ UNCHANGED <<ino, hk, srt, ihold>> /\ UNCHANGED Others

HkRead(q) ==
    /\ At(q, "hk-read")
    /\ IF hk = 0 THEN Go(q, [pc |-> "failed"])
       ELSE Go(q, [pc |-> IF Flaw = "snapshot-unlinked-early" THEN "hk-drop" ELSE "hk-merge", buf |-> ino[hk]])
    /\ UNCHANGED <<ino, app, hk, srt, ihold>> /\ UNCHANGED Others

\* (the new one is written beside it; renaming it is what counts, if nobody else does so meanwhile)
HkMerge(q) ==
    /\ At(q, "hk-merge")
    /\ Go(q, [pc |-> "hk-rename", buf |-> P[q].buf \cup srt])
    /\ UNCHANGED <<ino, app, hk, srt, ihold>> /\ UNCHANGED Others

HkRename(q) ==
    /\ At(q, "hk-rename")
    /\ srt' = P[q].buf
    /\ Go(q, IF Flaw = "snapshot-unlinked-early" THEN [pc |-> IF P[q].again THEN "hk-link" ELSE "hk-end"] ELSE [pc |-> "hk-drop"])
    /\ UNCHANGED <<ino, app, hk, ihold>> /\ UNCHANGED Others

HkDrop(q) ==
    /\ At(q, "hk-drop")
    /\ hk' = 0
    /\ Go(q, [pc |-> IF Flaw = "snapshot-unlinked-early" THEN "hk-merge" ELSE IF P[q].again THEN "hk-link" ELSE "hk-end"])
    /\ UNCHANGED <<ino, app, srt, ihold>> /\ UNCHANGED Others

HkEnd(q) ==
    /\ At(q, "hk-end")
    /\ ihold' = 0
    /\ Go(q, [pc |-> "done"])
    /\ UNCHANGED <<ino, app, hk, srt>> /\ UNCHANGED Others

Housekeep(q) == \/ HkHold(q) \/ HkLink(q) \/ HkUnlink(q) \/ HkRead(q) \/ HkMerge(q) \/ HkRename(q) \/ HkDrop(q) \/ HkEnd(q)

(***************************************************************************)
(* A reader asks for one object after the other, one segment after the     *)
(* other, and goes through the three index files for each.                 *)
(***************************************************************************)
World == <<kind, silo, hold, ino, app, hk, srt, ihold, acked, died>>
Order == IF Flaw = "reads-backwards" THEN <<"srt", "hk", "app">> ELSE <<"app", "hk", "srt">>

RdStart(q) ==
    /\ kind[q] = "rd" /\ At(q, "start")
    /\ \E o \in {kind[x] : x \in Procs} \cap Objs :
          Go(q, [pc |-> "rd-file", want |-> o, i |-> 1, n |-> 1, buf |-> {}, must |-> acked])
    /\ UNCHANGED World

RdFile(q) ==
    /\ At(q, "rd-file")
    /\ LET f == Order[P[q].n]
           es == CASE f = "app" -> (IF app = 0 THEN {} ELSE ino[app])
                   [] f = "hk" -> (IF hk = 0 THEN {} ELSE ino[hk])
                   [] f = "srt" -> srt
       IN Go(q, [buf |-> P[q].buf \cup {e \in es : e.k = Segs[P[q].want][P[q].i]}, n |-> P[q].n + 1,
                 pc |-> IF P[q].n = 3 THEN "rd-found" ELSE "rd-file"])
    /\ UNCHANGED World

\* What it found has to be there, and the rest of it too
RdFound(q) ==
    /\ At(q, "rd-found")
    /\ LET l == P[q]
           have == l.buf # {} /\ \A e \in l.buf : e.p \in DOMAIN silo[e.n] /\ silo[e.n][e.p] = e.k
           fine == have \/ (l.buf = {} /\ l.i = 1 /\ l.want \notin l.must)
       IN Go(q, IF ~fine \/ ~have \/ l.i = Len(Segs[l.want]) THEN [pc |-> "done", ok |-> fine]
                ELSE [pc |-> "rd-file", i |-> l.i + 1, n |-> 1, buf |-> {}])
    /\ UNCHANGED World

Read(q) == RdStart(q) \/ RdFile(q) \/ RdFound(q)

(***************************************************************************)
(* The plug                                                                *)
(***************************************************************************)
Over(q) == P[q].pc \in {"done", "dead", "failed"}

Die(q) ==
    /\ died < Crashes /\ kind[q] # "rd" /\ ~Over(q) /\ ~At(q, "start")
    /\ died' = died + 1
    /\ Go(q, [pc |-> "dead"])
    /\ UNCHANGED <<kind, silo, hold, ino, app, hk, srt, ihold, acked>>

\* Somebody notices, and takes away what it held
Tidy ==
    /\ \E q \in Procs : At(q, "dead") /\ (ihold = q \/ \E n \in Silos : hold[n] = q)
    /\ hold' = [n \in Silos |-> IF hold[n] # 0 /\ At(hold[n], "dead") THEN 0 ELSE hold[n]]
    /\ ihold' = IF ihold # 0 /\ At(ihold, "dead") THEN 0 ELSE ihold
    /\ UNCHANGED <<kind, silo, ino, app, hk, srt, P, acked, died>>

Step(q) == InsOpen(q) \/ InsWrite(q) \/ InsCheck(q) \/ Store(q) \/ Housekeep(q) \/ Read(q)
Next == (\E q \in Procs : Step(q) \/ Die(q)) \/ Tidy
Spec == Init /\ [][Next]_vars /\ \A q \in {1, 2, 3, 4} : WF_vars(q \in Procs /\ Step(q))

(***************************************************************************)
(* Claims                                                                  *)
(***************************************************************************)
Recs == {x \in Silos \X (1..Max) : x[2] \in DOMAIN silo[x[1]]}

\* C22, C05
NoOverflow == \A n \in Silos : Len(silo[n]) <= Max
AppendOnly == [][\A n \in Silos : Len(silo'[n]) >= Len(silo[n]) /\ SubSeq(silo'[n], 1, Len(silo[n])) = silo[n]]_vars
\* C12: a silo changes while it is held by who changes it
OnlyHolder == [][\A n \in Silos : silo'[n] # silo[n] => hold[n] # 0 /\ P'[hold[n]] # P[hold[n]]]_vars
NoneFails == \A q \in Procs : ~At(q, "failed")
\* C08: entries refer to what is there ...
NoDangling == \A e \in Index : e.p \in DOMAIN silo[e.n] /\ silo[e.n][e.p] = e.k
\* ... and none is lost, once it has been inserted (one written to a file which housekeeping has already read is seen, goes away
\* when the file does, and is written again)
Inserting(e) == \E q \in Procs : P[q].ent = e /\ P[q].pc \in {"ins-open", "ins-write", "ins-check", "dead"}
NoneLost == [][\A e \in Index \ Index' : Inserting(e)]_vars
\* C11: what is there is there completely
Whole == \A o \in Objs : (\E e \in Index : e.k = Segs[o][1]) =>
                            \A i \in DOMAIN Segs[o] : \E e \in Index : e.k = Segs[o][i] /\ (i < Len(Segs[o]) => e.c = Segs[o][i + 1])
\* C01
Acked == \A o \in acked : \E e \in Index : e.k = Segs[o][1]
\* C12: readers
ReaderFine == \A q \in Procs : P[q].ok
\* C08: in the end the index has all of it, unless somebody died
Complete == (died = 0 /\ \A q \in Procs : Over(q)) => {<<e.n, e.p>> : e \in Index} = Recs
\* C22: no hold survives, but for those of the dead
NoHold == (\A q \in Procs : Over(q)) => \A n \in Silos : hold[n] = 0 \/ At(hold[n], "dead")
\* C12: everybody gets there
AllEnd == <>(\A q \in Procs : Over(q))
=============================================================================
