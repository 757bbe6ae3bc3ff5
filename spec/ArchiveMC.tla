------------------------------ MODULE ArchiveMC ------------------------------
(***************************************************************************)
(* The design of AardWARC, as a state machine over the states of Archive.  *)
(*                                                                         *)
(* One action per command, with what the world may do to an archive        *)
(* between them (hold or write-protect a silo, lose the index, scribble in *)
(* the cache file).  Sizes are in units, a silo has room for MaxSize.      *)
(* TLC checks that every step satisfies everything Judge demands, that the *)
(* lookup algorithm finds every object whichever order the index gives its *)
(* entries in, and prints the histories which are replayed on the program. *)
(***************************************************************************)
EXTENDS Archive, Json

CONSTANTS MaxSize, MaxDepth, MaxSilo, Ops

VARIABLES s,        \* the archive, as in Archive.tla
          cache,    \* <<first non silo, first silo with space>>
          appx,     \* the index entries not yet housekept
          last,     \* the event leading here
          prev,     \* the state before it
          h         \* the history (not part of the state, see View)

cfg == [idlen |-> 4, maxsize |-> MaxSize]

(* Contents: name -> its bytes, as a sequence of unit blocks.  What gets    *)
(* stored as segments are blocks of SegLen units.                          *)
SegLen == MaxSize - 1
Blk(x) == [i \in 1..SegLen |-> x]
Contents ==
    [tiny  |-> <<"t">>,
     small |-> <<"s", "s", "s">>,
     full  |-> Blk("p"),                         \* identical to a segment
     two   |-> Blk("y") \o Blk("p"),
     three |-> Blk("x") \o Blk("p") \o Blk("p"), \* with identical segments
     tail  |-> Blk("y") \o Blk("p") \o <<"r">>]

\* Digests: injective, but "pp..." and "xp.." style prefixes collide in the
\* four characters of the continuation field as far as we can arrange it
Dig(b) == CASE b = <<"t">> -> "a001"
            [] b = <<"s", "s", "s">> -> "a002"
            [] b = Blk("p") -> "b001"
            [] b = Blk("y") -> "b002"
            [] b = Blk("x") -> "b003"
            [] b = Contents.two -> "c001"
            [] b = Contents.three -> "c002"
            [] b = Contents.tail -> "c003"
            [] b = <<"r">> -> "a003"
            [] OTHER -> "ffff"

MetaDig(c, ref) == "d" \o SubSeq(ref, 2, 4)

R0 == [hok |-> TRUE, ver |-> "WARC/1.1", date |-> TRUE, haa |-> -1, hlen |-> 0, sep |-> TRUE,
       cgz |-> -1, pdig |-> "", refers |-> "", segno |-> -1, segorig |-> "", segtot |-> -1, fname |-> "", title |-> "",
       off |-> 0]

SiloName(n) == "silo" \o ToString(n)

MkRec(type, id, bd, n, mime) ==
    [type |-> type, id |-> id, idl |-> id, bd |-> bd, bdig |-> bd, nbody |-> n, clen |-> n, blen |-> n, baa |-> n, len |-> n,
     mime |-> mime] @@ R0

WarcInfo(n) == [fname |-> SiloName(n), title |-> SiloName(n)] @@
               MkRec("warcinfo", "e00" \o ToString(n), "e00" \o ToString(n), 1, "application/warc-fields")

---------------------------------------------------------------------------
(* Making events *)

EntryOf(n, r, c) == [k |-> Key(r.idl), f |-> Flag(r), n |-> n, o |-> r.off, c |-> c]
Z8 == "00000000"

D0 == [silos |-> <<>>, gone |-> <<>>, iadd |-> <<>>, idel |-> <<>>, idup |-> 0, irc |-> 0, misc |-> <<>>, held |-> <<>>,
       aux |-> "", cats |-> <<>>]

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Total(recs) == IF recs = <<>> THEN 0 ELSE recs[Len(recs)].off + recs[Len(recs)].len

\* A silo file as observed; digests of files are their records
SiloObs(n, old, new, ro) ==
    [n |-> n, sz |-> Total(old \o new), dig |-> old \o new, osz |-> Total(old), pre |-> old, ro |-> ro,
     frm |-> Len(old), recs |-> new, junk |-> 0, name |-> SiloName(n)]

OldRecs(n) == IF n \in DOMAIN s.silos THEN s.silos[n].recs ELSE <<>>

\* Take a step by event e
Step(e0, newcache, newappx, label) ==
    LET e == [e0 EXCEPT !.d.misc = SeqOf(IF e0.op = "env" THEN Range(e0.d.misc) ELSE s.misc),
                        !.d.held = SeqOf(IF e0.op = "env" THEN Range(e0.d.held) ELSE s.held)]
    IN  /\ s' = After(cfg, e, s)
        /\ prev' = s
        /\ last' = e
        /\ cache' = newcache
        /\ appx' = newappx
        /\ h' = Append(h, label)

Env(what, d) == [op |-> "env", what |-> what, rc |-> 0, d |-> [D0 EXCEPT !.misc = SeqOf(s.misc), !.held = SeqOf(s.held)] ] 

---------------------------------------------------------------------------
(* store *)

\* The n'th silo number from the cache hint on which is free to use
Free(n) == n \notin DOMAIN s.silos /\ n \notin s.held
NextFree(from) == CHOOSE n \in from..(from + 20) : Free(n) /\ \A m \in from..(n-1) : ~Free(m)
RECURSIVE TakeFree(_, _)
TakeFree(from, k) == IF k = 0 THEN <<>> ELSE LET n == NextFree(from) IN <<n>> \o TakeFree(n + 1, k - 1)

Cut(b) == [i \in 1..((Len(b) + SegLen - 1) \div SegLen) |->
              SubSeq(b, (i-1)*SegLen + 1, IF i*SegLen < Len(b) THEN i*SegLen ELSE Len(b))]

\* Bump the hint past the silos which now exist
RECURSIVE Bump(_, _)
Bump(c, ns) == IF c \in ns THEN Bump(c + 1, ns) ELSE c

StoreEv(kind, b, ref, id, rc, d, c) ==
    [op |-> "store", kind |-> kind, dig |-> Dig(b), len |-> Len(b), mime |-> "m", ref |-> ref, forced |-> "",
     bad |-> "", mdig |-> IF ref = "" THEN "" ELSE MetaDig(b, ref), rc |-> rc, id |-> id, d |-> d]

\* silos the append loop may try, lowest first, stopping at a write-protected one
Appendable(n, need) == /\ n \in DOMAIN s.silos /\ n \notin s.held /\ ~s.silos[n].ro
                       /\ s.silos[n].sz + need <= MaxSize
                       /\ \A m \in cache[2]..n : m \in DOMAIN s.silos => ~s.silos[m].ro

Store(c, kind, ref) ==
    LET b    == Contents[c]
        id   == IF kind = "resource" THEN Dig(b) ELSE MetaDig(b, ref)
        segs == Cut(b)
        nseg == Len(segs)
        at   == TakeFree(cache[1], nseg)
        lab  == [op |-> "store", c |-> c, kind |-> kind, ref |-> ref]
        known == id \in {Rec(s.silos, x).id : x \in {y \in RecIds(s.silos) : IsObjRec(Rec(s.silos, y))}}
                 \* found through the index
                 /\ \E en \in s.idx : en.k = Key(id) /\ ~HasBit(en.f, 2) /\ (HasBit(en.f, 16) => HasBit(en.f, 32))
    IN
    /\ kind = "metadata" => ref \in DOMAIN s.objs
    /\ at[nseg] < MaxSilo
    /\ IF known
       THEN Step(StoreEv(kind, b, ref, id, 0, D0, c), cache, appx, lab)
       ELSE IF nseg = 1
       THEN LET r0 == [refers |-> ref] @@ MkRec(kind, id, Dig(b), Len(b), "m")
                apps == {n \in cache[2]..(at[1]-1) : Appendable(n, Len(b))}
            IN IF apps # {}
               THEN LET n == CHOOSE m \in apps : \A k \in apps : m <= k
                        r == [r0 EXCEPT !.off = Total(OldRecs(n))]
                    IN Step(StoreEv(kind, b, ref, id, 0,
                              [D0 EXCEPT !.silos = <<SiloObs(n, OldRecs(n), <<r>>, FALSE)>>,
                                         !.iadd = <<EntryOf(n, r, Z8)>>], c),
                            <<Bump(cache[1], DOMAIN s.silos), cache[2]>>, appx \cup {EntryOf(n, r, Z8)}, lab)
               ELSE LET n == at[1]
                        r == [r0 EXCEPT !.off = 1]
                        es == <<EntryOf(n, WarcInfo(n), Z8), EntryOf(n, r, Z8)>>
                    IN Step(StoreEv(kind, b, ref, id, 0,
                              [D0 EXCEPT !.silos = <<SiloObs(n, <<>>, <<WarcInfo(n), r>>, FALSE)>>, !.iadd = es], c),
                            <<IF n = cache[1] THEN n + 1 ELSE cache[1], cache[2]>>, appx \cup Range(es), lab)
       ELSE LET R(i) == [refers |-> ref, off |-> 1, segno |-> i,
                         segorig |-> IF i = 1 THEN "" ELSE id,
                         pdig |-> IF i = 1 THEN Dig(b) ELSE "",
                         segtot |-> IF i = nseg THEN Len(b) ELSE -1] @@
                        MkRec(IF i = 1 THEN kind ELSE "continuation", IF i = 1 THEN id ELSE Dig(segs[i]),
                              Dig(segs[i]), Len(segs[i]), "m")
                C(i) == IF i = nseg THEN Z8 ELSE SubSeq(Key(R(i+1).id), 1, 8)
                es == UNION {{EntryOf(at[i], WarcInfo(at[i]), Z8), EntryOf(at[i], R(i), C(i))} : i \in 1..nseg}
            IN Step(StoreEv(kind, b, ref, id, 0,
                        [D0 EXCEPT !.silos = [i \in 1..nseg |-> SiloObs(at[i], <<>>, <<WarcInfo(at[i]), R(i)>>, FALSE)],
                                   !.iadd = SeqOf(es),
                                   !.cats = <<[id |-> id, dig |-> Dig(b)]>>], c),
                    <<Bump(cache[1], {at[i] : i \in 1..nseg}), cache[2]>>, appx \cup es, lab)

---------------------------------------------------------------------------
(* Other commands *)

Housekeep == /\ Step([op |-> "housekeep", rc |-> 0, pre |-> appx # {}, post |-> <<>>, d |-> D0], cache, {},
                     [op |-> "housekeep"])

FullIndex == UNION {{EntryOf(x[1], Rec(s.silos, x),
                        LET r == Rec(s.silos, x)
                            nx == {y \in SegIds(s.silos) : Rec(s.silos, y).segno = r.segno + 1 /\ Origin(Rec(s.silos, y)) = Origin(r)}
                        IN IF IsSeg(r) /\ ~IsLast(r) /\ nx # {}
                           THEN SubSeq(Key(Rec(s.silos, CHOOSE y \in nx : TRUE).id), 1, 8) ELSE Z8)}
                    : x \in RecIds(s.silos)}

Reindex == Step([op |-> "reindex", rc |-> 0, left |-> FALSE, full |-> TRUE, which |-> <<>>,
                 d |-> [D0 EXCEPT !.iadd = SeqOf(FullIndex \ s.idx)]], cache, {}, [op |-> "reindex"])

\* Named silos only: what one can tell from them, segments need their successor
ReindexSome(ns) ==
    LET Next1(x) == {y \in SegIds(s.silos) : /\ Rec(s.silos, y).segno = Rec(s.silos, x).segno + 1
                                             /\ Origin(Rec(s.silos, y)) = Origin(Rec(s.silos, x))}
        xs == {x \in RecIds(s.silos) : x[1] \in ns /\ LET r == Rec(s.silos, x)
                                                      IN ~IsSeg(r) \/ IsLast(r) \/ \E y \in Next1(x) : y[1] \in ns}
        es == {en \in FullIndex : \E x \in xs : en.n = x[1] /\ en.o = Rec(s.silos, x).off}
    IN Step([op |-> "reindex", rc |-> 0, left |-> FALSE, full |-> FALSE, which |-> SeqOf(ns),
             d |-> [D0 EXCEPT !.iadd = SeqOf(es \ s.idx)]], cache, {}, [op |-> "reindexsome", ns |-> SeqOf(ns)])

MkSilo(n) == /\ n < MaxSilo
             /\ LET ok == n \notin DOMAIN s.silos /\ n \notin s.held
                    e == EntryOf(n, WarcInfo(n), Z8)
                IN Step([op |-> "mksilo", n |-> n, rc |-> IF ok THEN 0 ELSE 1,
                         d |-> IF ok THEN [D0 EXCEPT !.silos = <<SiloObs(n, <<>>, <<WarcInfo(n)>>, FALSE)>>, !.iadd = <<e>>]
                               ELSE D0],
                        cache, IF ok THEN appx \cup {e} ELSE appx, [op |-> "mksilo", n |-> n])

(* The world *)

Protect(n) == /\ n \in DOMAIN s.silos /\ ~s.silos[n].ro /\ n \notin s.held
              /\ \A m \in DOMAIN s.silos : m < n => s.silos[m].ro      \* bottom up
              /\ Step([Env("protect", D0) EXCEPT !.d.silos = <<SiloObs(n, OldRecs(n), <<>>, TRUE)>>],
                      cache, appx, [op |-> "protect", n |-> n])
Hold(n) == /\ n < MaxSilo /\ n \notin s.held
           /\ Step([Env("hold", D0) EXCEPT !.d.misc = Append(@, "hold" \o ToString(n)), !.d.held = Append(@, n)],
                   cache, appx, [op |-> "hold", n |-> n])
Unhold(n) == /\ n \in s.held
             /\ Step([Env("unhold", D0) EXCEPT !.d.misc = SeqOf(s.misc \ {"hold" \o ToString(n)}), !.d.held = SeqOf(s.held \ {n})],
                     cache, appx, [op |-> "unhold", n |-> n])
LoseIndex(how) == /\ ~s.lost /\ s.idx # {}
                  /\ LET gone == IF how = "all" THEN s.idx ELSE appx
                     IN /\ gone # {}
                        /\ Step([Env("loseindex", D0) EXCEPT !.d.idel = SeqOf(gone)],
                                cache, {}, [op |-> "loseindex", how |-> how])
Scribble(a, b) == Step(Env("cache", D0), <<a, b>>, appx, [op |-> "cache", a |-> a, b |-> b])

---------------------------------------------------------------------------
Init == /\ s = Empty({}, "") /\ prev = s /\ cache = <<0, 0>> /\ appx = {} /\ h = <<>>
        /\ last = [op |-> "env", what |-> "", rc |-> 0, d |-> D0]

Do(o) == o \in Ops

Next ==
    \/ Do("store") /\ ~s.lost /\ \E c \in DOMAIN Contents : Store(c, "resource", "")
    \/ Do("meta") /\ ~s.lost /\ \E c \in {"tiny", "two"} : \E i \in DOMAIN s.objs : s.objs[i].kind = "resource" /\ Store(c, "metadata", i)
    \/ Do("housekeep") /\ appx # {} /\ Housekeep
    \/ Do("reindex") /\ Reindex
    \/ Do("reindex") /\ s.lost /\ \E ns \in SUBSET DOMAIN s.silos : ns # {} /\ ReindexSome(ns)
    \/ Do("mksilo") /\ \E n \in 0..(MaxSilo-1) : MkSilo(n)
    \/ Do("protect") /\ \E n \in DOMAIN s.silos : Protect(n)
    \/ Do("hold") /\ \E n \in 0..(MaxSilo-1) : Hold(n)
    \/ Do("hold") /\ \E n \in s.held : Unhold(n)
    \/ Do("lose") /\ \E how \in {"all", "appendix"} : LoseIndex(how)
    \/ Do("cache") /\ \E a, b \in {0, 2, 5} : cache # <<a, b>> /\ Scribble(a, b)

vars == <<s, cache, appx, last, prev, h>>
Spec == Init /\ [][Next]_vars

View == <<s, cache, appx>>
Depth == TLCGet("level") <= MaxDepth

---------------------------------------------------------------------------
(* What is checked *)

\* Every step is one Archive.tla allows.  (last' and prev' are functions of the step)
StepOK == LET b == Judge(cfg, last', s, s') IN b = {} \/ (PrintT(<<"STEP", b>>) /\ FALSE)
AllSteps == [][StepOK]_vars

\* What get may come up with for id, whichever order the index delivers
\* the entries in: it takes the first one which is the right record
RECURSIVE Follow(_, _, _)
Follow(id, k, segno) ==
    LET cand == {x \in RecIds(s.silos) : \E en \in s.idx :
                    /\ en.n = x[1] /\ en.o = Rec(s.silos, x).off /\ IsPrefixStr(k, en.k)}
        ok == {x \in cand : LET r == Rec(s.silos, x) IN
                    IF segno = 1 THEN r.id = id /\ IsObjRec(r)
                    ELSE r.segno = segno /\ r.segorig = id}
    IN  IF ok = {} THEN {<<"none">>}
        ELSE UNION {LET r == Rec(s.silos, x)
                        en == CHOOSE en \in s.idx : en.n = x[1] /\ en.o = r.off
                    IN IF ~IsSeg(r) \/ IsLast(r) THEN {<<r.bd>>}
                       ELSE {<<r.bd>> \o y : y \in Follow(id, en.c, segno + 1)}
                    : x \in ok}

ContentOf(dig) == CHOOSE c \in DOMAIN Contents : Dig(Contents[c]) = dig

Retrievable ==
    ~s.lost => \A id \in DOMAIN s.objs :
        LET want == [i \in 1..Len(Cut(Contents[ContentOf(s.objs[id].dig)])) |-> Dig(Cut(Contents[ContentOf(s.objs[id].dig)])[i])]
        IN  Follow(id, Key(id), 1) = {want}

\* For getting histories out of -simulate
Emit == TLCGet("level") = MaxDepth + 1 => PrintT("HIST " \o ToJson(h))
=============================================================================
