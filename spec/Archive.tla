------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* What an AardWARC archive is, seen from outside, and what one operation  *)
(* on it may do.                                                           *)
(*                                                                         *)
(* This module has no variables.  A *state* is a record                    *)
(*                                                                         *)
(*   silos  silo number -> [sz, dig, ro, recs, junk, name]: the file's     *)
(*          size, digest, whether it is write-protected, the records in    *)
(*          it, number of bytes which are not part of a record             *)
(*   idx    the set of index entries [k, f, n, o, c]                       *)
(*   dup    how many entries the index holds more than once                *)
(*   misc   names of files which are neither silo, index nor cache         *)
(*   held   the silos for which there is a hold file                      *)
(*   aux    digest of all the files which are not silos                    *)
(*   objs   id -> [kind, dig, len, mime, ref]: the objects which have been *)
(*          acknowledged to somebody                                       *)
(*   lost   the index has been damaged by somebody else                    *)
(*   tamper the cache has been written by somebody else                    *)
(*   pend   objects which somebody is about to store (see Conc.tla)        *)
(*   idx0   the index when they began                                      *)
(*   props  the properties which are at stake then                         *)
(*   max    the configured size of silos, if it ever changed               *)
(*                                                                         *)
(* and Judge(cfg, e, s, t) is the set of <<property, facet>> which event e *)
(* violates when it leads from state s to state t.                         *)
(*                                                                         *)
(* ArchiveMC.tla is a design of the system: a state machine whose every    *)
(* step must satisfy Judge, and which TLC explores exhaustively.           *)
(* ArchiveTrace.tla has the states and events of real executions instead.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[i] : i \in DOMAIN f}

NoSilos == [n \in {} |-> 0]
NoObjs  == [i \in {} |-> 0]

Empty(misc, aux) == [silos |-> NoSilos, idx |-> {}, dup |-> 0, misc |-> misc, held |-> {}, aux |-> aux,
                     objs |-> NoObjs, lost |-> FALSE, tamper |-> FALSE, pend |-> NoObjs, idx0 |-> {}, props |-> {}, max |-> 0]

MaxSz(cfg, s) == IF s.max = 0 THEN cfg.maxsize ELSE s.max

Take(str, n) == SubSeq(str, 1, IF n < Len(str) THEN n ELSE Len(str))

\* The index only has room for 96 bits of the ID
Key(id) == IF Len(id) >= 24 THEN SubSeq(id, 1, 24)
           ELSE id \o SubSeq("000000000000000000000000", 1, 24 - Len(id))

IsPrefixStr(p, str) == Len(p) <= Len(str) /\ SubSeq(str, 1, Len(p)) = p

---------------------------------------------------------------------------
(* Records *)

TypeFlag(ty) == CASE ty = "warcinfo" -> 2
                  [] ty = "resource" -> 4
                  [] ty = "metadata" -> 8
                  [] OTHER -> 0

IsSeg(r)   == r.segno > 0
IsFirst(r) == r.segno = 1
IsLast(r)  == r.segtot >= 0

Flag(r) == TypeFlag(r.type)
           + (IF IsSeg(r) THEN 16 + (IF IsFirst(r) THEN 32 ELSE 0) + (IF IsLast(r) THEN 64 ELSE 0) ELSE 0)

\* Does flag word f have the bit b (a power of two) set
HasBit(f, b) == (f \div b) % 2 = 1

Origin(r) == IF IsFirst(r) THEN r.id ELSE r.segorig

\* Objects are what a user can ask for
IsObjRec(r) == r.type \in {"resource", "metadata"} /\ (IsSeg(r) => IsFirst(r))

RecIds(silos) == UNION {{<<n, i>> : i \in 1..Len(silos[n].recs)} : n \in DOMAIN silos}
Rec(silos, x) == silos[x[1]].recs[x[2]]

\* The framing: what any record must look like (C06)
FrameOK(r) ==
    /\ r.hok /\ r.ver = "WARC/1.1" /\ r.date
    /\ r.haa \in {-1, r.hlen}            \* the header member may state its length,
    /\ r.baa = r.blen                    \* the body member must
    /\ r.sep
\* The headers: they tell the truth about the body (C06)
TruthOK(cfg, r) ==
    /\ r.clen = r.nbody /\ r.bdig = r.bd
    /\ r.cgz \in {-1, r.blen}
    /\ r.mime # ""
    /\ r.type \in {"warcinfo", "resource", "metadata", "continuation"}
    /\ (r.type = "continuation") = (r.segno > 1)
    /\ (r.type = "warcinfo") => (r.segno = -1 /\ r.fname # "" /\ r.refers = "" /\ r.mime = "application/warc-fields")
    /\ (r.type # "warcinfo") => (r.fname = "")
    /\ (r.type = "resource") => (r.refers = "")
    /\ (r.type = "metadata") => (r.refers # "")
    /\ (r.segno = -1) => (r.segorig = "" /\ r.segtot = -1 /\ r.pdig = "")
    /\ r.segno # 0 /\ r.segno # -2 /\ r.segtot # -2
    /\ (r.segno = 1) => (r.segorig = "" /\ r.segtot = -1 /\ r.pdig # "")
    /\ (r.segno > 1) => (r.segorig # "" /\ r.pdig = "")
    /\ Len(r.id) = cfg.idlen
\* Everything but metadata is named by the digest of its contents (C03)
NameOK(cfg, r) ==
    /\ r.type \in {"warcinfo", "continuation"} => r.id = Take(r.bd, cfg.idlen)
    /\ (r.type = "resource" /\ r.segno = -1) => r.id = Take(r.bd, cfg.idlen)
    /\ (r.type = "resource" /\ r.segno = 1) => r.id = Take(r.pdig, cfg.idlen)

\* Place of a record in its silo
PlaceOK(silo, i) ==
    LET r == silo.recs[i] IN
        /\ (i = 1) = (r.type = "warcinfo")
        /\ (i = 1) => (r.off = 0 /\ r.fname = silo.name /\ r.title = silo.name)
        /\ (i > 1) => r.off = silo.recs[i-1].off + silo.recs[i-1].len

---------------------------------------------------------------------------
(* Segmented objects *)

SegIds(silos) == {x \in RecIds(silos) : IsSeg(Rec(silos, x))}

Chain(silos, segs, oid) == {x \in segs : Origin(Rec(silos, x)) = oid}

\* Lengths stop at Most: TLC can not count further.  (What is behind that is told apart by digests)
Most == 2147483647
Plus(a, b) == IF a > Most - b THEN Most ELSE a + b

RECURSIVE SumLen(_, _)
SumLen(silos, xs) == IF xs = {} THEN 0
                     ELSE LET x == CHOOSE y \in xs : TRUE
                          IN Plus(Rec(silos, x).nbody, SumLen(silos, xs \ {x}))

\* A complete and well formed chain of segments
ChainOK(silos, segs, oid) ==
    LET ch == Chain(silos, segs, oid)
        n  == Cardinality(ch)
        R(x) == Rec(silos, x)
    IN  /\ n >= 2
        /\ {R(x).segno : x \in ch} = 1..n
        /\ \A x \in ch : (R(x).segno = n) = IsLast(R(x))
        /\ \A x \in ch : IsLast(R(x)) => R(x).segtot = SumLen(silos, ch)

\* A segment which is not the last one only ends because the silo was full
FullOK(max, silos, segs) ==
    \A x \in segs : ~IsLast(Rec(silos, x)) => silos[x[1]].sz >= max - (max \div 8)

---------------------------------------------------------------------------
(* The index *)

Entry4(n, r) == [k |-> Key(r.idl), f |-> Flag(r), n |-> n, o |-> r.off]
Expected4(silos) == {Entry4(x[1], Rec(silos, x)) : x \in RecIds(silos)}
Drop5(en) == [k |-> en.k, f |-> en.f, n |-> en.n, o |-> en.o]

\* The name of the next segment
ContOK(silos, segs, en) ==
    IF HasBit(en.f, 16) /\ ~HasBit(en.f, 64)
    THEN \E x \in segs : \E y \in segs :
            /\ x[1] = en.n /\ Rec(silos, x).off = en.o
            /\ Rec(silos, y).segno = Rec(silos, x).segno + 1
            /\ Origin(Rec(silos, y)) = Origin(Rec(silos, x))
            /\ en.c = SubSeq(Key(Rec(silos, y).idl), 1, 8)
    ELSE en.c = "00000000"

\* The index as it ought to be (C08)
IdxExact(silos, idx) ==
    LET segs == SegIds(silos) IN
        /\ {Drop5(en) : en \in idx} = Expected4(silos)
        /\ Cardinality(idx) = Cardinality(RecIds(silos))
        /\ \A en \in idx : ContOK(silos, segs, en)

\* Lookup by (part of an) ID and type
Match(idx, p, ty) ==
    {en \in idx : IsPrefixStr(Take(p, 24), en.k) /\ (ty # "" => HasBit(en.f, TypeFlag(ty)))}

---------------------------------------------------------------------------
(* What an event changed *)

Quiet(d)    == d.silos = <<>> /\ d.gone = <<>>
IdxQuiet(d) == d.iadd = <<>> /\ d.idel = <<>>
Unchanged(s, t, d) == Quiet(d) /\ IdxQuiet(d) /\ t.dup = s.dup /\ t.misc = s.misc

SiloAfter(s, x) ==
    [sz |-> x.sz, dig |-> x.dig, ro |-> x.ro, junk |-> x.junk, name |-> x.name,
     recs |-> (IF x.frm > 0 /\ x.n \in DOMAIN s.silos THEN SubSeq(s.silos[x.n].recs, 1, x.frm) ELSE <<>>) \o x.recs]

Apply(s, e) ==
    LET d   == e.d
        ch  == {d.silos[i].n : i \in DOMAIN d.silos}
        X(n) == d.silos[CHOOSE i \in DOMAIN d.silos : d.silos[i].n = n]
        dom == (DOMAIN s.silos \ Range(d.gone)) \cup ch
    IN [s EXCEPT !.silos = [n \in dom |-> IF n \in ch THEN SiloAfter(s, X(n)) ELSE s.silos[n]],
                 !.idx = (@ \ Range(d.idel)) \cup Range(d.iadd),
                 !.dup = d.idup, !.misc = Range(d.misc), !.held = Range(d.held), !.aux = d.aux]

ExpectId(cfg, e) == IF e.forced # "" THEN e.forced
                    ELSE Take(IF e.kind = "resource" THEN e.dig ELSE e.mdig, cfg.idlen)

Acceptable(s, e) == e.bad = "" /\ (e.kind = "metadata" => e.ref \in DOMAIN s.objs)

After(cfg, e, s) ==
    LET t == Apply(s, e) IN
    CASE e.op = "store" /\ Acceptable(s, e) /\ e.rc = 0 ->
            IF ExpectId(cfg, e) \in DOMAIN s.objs THEN t
            ELSE [t EXCEPT !.objs = (ExpectId(cfg, e) :>
                    [kind |-> e.kind, dig |-> e.dig, len |-> e.len, mime |-> e.mime, ref |-> e.ref]) @@ @]
      [] e.op = "env" /\ e.what = "loseindex" -> [t EXCEPT !.lost = TRUE]
      [] e.op = "wrote" -> [t EXCEPT !.lost = TRUE]
      [] e.op = "env" /\ e.what = "conf" -> [t EXCEPT !.max = e.max]
      [] e.op = "env" /\ e.what = "cache" -> [t EXCEPT !.tamper = TRUE]
      [] e.op = "reindex" /\ e.full -> [t EXCEPT !.lost = FALSE]
      [] OTHER -> t

---------------------------------------------------------------------------
(* The facets.  F(p, n, c): unless c, facet n of property p is violated    *)

F(p, n, c) == IF c THEN {} ELSE {<<p, n>>}
FF(ps, n, c) == IF c THEN {} ELSE {<<p, n>> : p \in ps}

\* Any operation of the program's own
AnyOp(cfg, e, s, t) ==
    LET d == e.d
        New(x) == x.n \notin DOMAIN s.silos
        xs == Range(d.silos)
    IN  F("C05", "silo removed", d.gone = <<>>)
   \cup F("C05", "silo bytes changed", \A x \in xs : ~New(x) => x.pre = s.silos[x.n].dig)
   \cup F("C05", "silo shrunk", \A x \in xs : ~New(x) => x.sz >= s.silos[x.n].sz)
   \cup F("C05", "write-protected silo changed", \A x \in xs : ~New(x) => (~s.silos[x.n].ro /\ ~x.ro))
   \cup F("C06", "bytes which are not a record", \A x \in xs : x.junk = 0)
   \cup F("C06", "record framing", \A x \in xs : \A r \in Range(x.recs) : FrameOK(r))
   \cup F("C06", "record headers", \A x \in xs : \A r \in Range(x.recs) : TruthOK(cfg, r))
   \cup F("C06", "record place", \A x \in xs : \A i \in 1..Len(t.silos[x.n].recs) : PlaceOK(t.silos[x.n], i))
   \cup F("C06", "empty silo", \A x \in xs : t.silos[x.n].recs # <<>>)
   \cup F("C03", "record name", \A x \in xs : \A r \in Range(x.recs) : NameOK(cfg, r))
   \cup F("C22", "silo too big", \A x \in xs : (New(x) \/ x.sz > s.silos[x.n].sz) => x.sz <= MaxSz(cfg, s))
   \cup FF({"C22", "C21"}, "stray files", t.misc = s.misc \/ (e.op = "housekeep" /\ t.misc = s.misc \ {"index.housekeep"}))
   \cup F("C08", "dumpindex fails", d.irc = 0)

\* The index, after an operation which changed silos or index
IdxOp(e, t) ==
    IF (Quiet(e.d) /\ IdxQuiet(e.d) /\ t.dup = 0) \/ t.lost THEN {}
    ELSE FF({"C08"} \cup (IF e.op = "reindex" THEN {"C10"} ELSE {}), "index not exact", IdxExact(t.silos, t.idx))
    \cup F("C08", "duplicate index entries", t.dup = 0)

\* Segments, after an operation which added some
SegOp(cfg, e, t) ==
    IF \A x \in Range(e.d.silos) : \A r \in Range(x.recs) : ~IsSeg(r) THEN {}
    ELSE LET segs == SegIds(t.silos)
             orgs == {Origin(Rec(t.silos, x)) : x \in segs}
             news == {x \in segs : \E y \in Range(e.d.silos) : /\ y.n = x[1]
                                                                /\ \E r \in Range(y.recs) : r.off = Rec(t.silos, x).off}
         IN  F("C07", "segments of an object", \A o \in orgs : ChainOK(t.silos, segs, o))
        \cup F("C07", "segmented without need", FullOK(MaxSz(cfg, t), t.silos, news))
        \cup F("C07", "segments do not make up the object", \A c \in Range(e.d.cats) :
                    \A x \in Chain(t.silos, segs, c.id) : IsFirst(Rec(t.silos, x)) => c.dig = Rec(t.silos, x).pdig)

ReadOnly(e, s, t) == F("C05", "read-only operation changed something", Unchanged(s, t, e.d) /\ t.aux = s.aux)

---------------------------------------------------------------------------
(* store *)

StoreNew(cfg, e, s, t) ==
    LET d    == e.d
        id   == ExpectId(cfg, e)
        nr   == UNION {{<<i, j>> : j \in 1..Len(d.silos[i].recs)} : i \in DOMAIN d.silos}
        R(x) == d.silos[x[1]].recs[x[2]]
        N(x) == d.silos[x[1]].n
        newsilos == {d.silos[i].n : i \in DOMAIN d.silos} \ DOMAIN s.silos
        heads == {x \in nr : IsObjRec(R(x))}
        holds == s.held
    IN  FF({"C01", "C04"}, "not exactly one new object", Cardinality(heads) = 1)
   \cup F("C04", "index entries for objects",
          Cardinality({en \in Range(d.iadd) : ~HasBit(en.f, 2) /\ (HasBit(en.f, 16) => HasBit(en.f, 32))}) = 1
          /\ d.idel = <<>>)
   \cup (IF Cardinality(heads) # 1 THEN {} ELSE
         LET x == CHOOSE y \in heads : TRUE
             r == R(x)
             others == {y \in nr : y # x /\ R(y).type # "warcinfo"}
         IN FF({"C03", "C01"}, "new object has wrong ID", r.id = id)
       \cup FF({"C06", "C20"}, "new object has wrong headers", r.type = e.kind /\ r.mime = e.mime /\ r.refers = e.ref)
       \cup FF({"C01", "C07"}, "new object has wrong content",
               IF IsSeg(r) THEN r.pdig = e.dig ELSE (r.bd = e.dig /\ r.nbody = e.len))
       \cup F("C07", "new object's segments",
              \A y \in others : R(y).type = "continuation" /\ R(y).segorig = id /\ R(y).mime = e.mime /\ R(y).refers = e.ref)
       \cup F("C20", "forced ID used for more than the object",
              e.forced # "" => \A y \in others : R(y).id # id)
       \cup F("C07", "total length", IsSeg(r) => \E y \in others : R(y).segtot = e.len)
       \cup F("C22", "fresh silo not needed",
              (N(x) \in newsilos /\ ~IsSeg(r) /\ ~s.tamper) =>
                 \A m \in DOMAIN s.silos :
                    (m < N(x) /\ m \notin holds /\ (\A k \in DOMAIN s.silos : k <= m => ~s.silos[k].ro))
                        => s.silos[m].sz + r.len + 128 > MaxSz(cfg, s)))
   \cup F("C22", "silo numbers skipped",
          ~s.tamper => \A n \in newsilos : \A m \in 0..n : m \in DOMAIN t.silos \/ m \in holds)
   \cup F("C22", "wrote to a held silo", \A i \in DOMAIN d.silos : d.silos[i].n \notin holds)
   \cup F("C22", "records in silos",
          \A n \in newsilos : Cardinality({x \in nr : N(x) = n}) <= 2)

StoreOp(cfg, e, s, t) ==
    IF Acceptable(s, e)
    THEN LET id == ExpectId(cfg, e) IN
         FF({"C01"} \cup (IF e.kind = "metadata" THEN {"C20"} ELSE {}) \cup (IF id \in DOMAIN s.objs THEN {"C04"} ELSE {}),
            "store of valid object fails", e.rc = 0)
    \cup (IF e.rc # 0 THEN {} ELSE
         FF({"C03"} \cup (IF id \in DOMAIN s.objs THEN {"C04"} ELSE {}) \cup
            (IF e.kind = "metadata" THEN {"C20"} ELSE {}), "ID printed", e.id = id)
    \cup (IF s.lost THEN {}
          ELSE IF id \in DOMAIN s.objs
          THEN F("C04", "store of existing object changed something", Unchanged(s, t, e.d))
          ELSE StoreNew(cfg, e, s, t)))
    ELSE FF({"C21"} \cup (IF e.bad = "" THEN {"C20"} ELSE {}), "bad request accepted", e.rc # 0 /\ e.id = "")
    \cup F("C21", "rejected request changed something", Unchanged(s, t, e.d) /\ t.aux = s.aux)

---------------------------------------------------------------------------
(* get and cgi *)

ContentOK(r, o) == r.rc = 0 /\ r.dig = o.dig /\ r.len = o.len
HeadersOK(r, o) == /\ r.h.hok /\ r.h.ver = "WARC/1.1" /\ r.h.date /\ r.h.id = r.id /\ r.h.type = o.kind /\ r.h.mime = o.mime
                   /\ r.h.clen = o.len /\ r.h.bdig = o.dig /\ r.h.refers = o.ref
                   \* (the first segment's number may be left in there)
                   /\ r.h.fname = "" /\ r.h.segno \in {-1, 1} /\ r.h.segorig = "" /\ r.h.segtot = -1 /\ r.h.pdig \in {"", o.dig}

\* Accept-Encoding, as codings with their quality: gzip by that name, or, if that is not mentioned, by "*"
AcceptsGzip(offer) ==
    LET named == {i \in DOMAIN offer : offer[i].c = "gzip"} IN
    IF named # {} THEN \E i \in named : offer[i].q > 0
    ELSE \E i \in DOMAIN offer : offer[i].c = "*" /\ offer[i].q > 0

FetchOne(s, r) ==
    IF r.id \notin DOMAIN s.objs
    THEN F("C02", "unknown ID delivered",
           IF r.mode \in {"cgi", "cgiz", "cgid"} THEN r.status # "200" /\ r.rc # 2000
           ELSE r.rc # 0 /\ r.len = 0)
    ELSE LET o == s.objs[r.id] IN
    CASE r.mode = ""  -> FF({"C01"} \cup (IF o.kind = "metadata" THEN {"C20"} ELSE {}), "get delivers something else", ContentOK(r, o))
                    \cup F("C02", "get prints wrong headers", r.rc = 0 => HeadersOK(r, o))
      [] r.mode = "q" -> FF({"C01", "C02"}, "get -q delivers something else", ContentOK(r, o))
                    \cup F("C02", "get -q is not quiet", r.other = 0)
      [] r.mode = "o" -> FF({"C01", "C02"}, "get -o delivers something else", ContentOK(r, o))
                    \cup F("C02", "get -o prints wrong headers", r.rc = 0 => HeadersOK(r, o))
      [] r.mode \in {"n", "no"} -> F("C02", "get -n", r.rc = 0 /\ r.len = 0 /\ HeadersOK(r, o))
      [] r.mode = "z" -> F("C02", "get -z delivers something else", ContentOK(r, o) /\ r.zok /\ r.nmem >= 1)
                    \cup F("C02", "get -z prints wrong headers", r.rc = 0 => HeadersOK(r, o))
      [] r.mode = "qz" -> F("C02", "get -qz delivers something else", ContentOK(r, o) /\ r.zok /\ r.nmem >= 1)
      [] OTHER -> F("C02", "cgi delivers something else", ContentOK(r, o) /\ r.zok)
             \cup F("C02", "cgi headers",
                  /\ r.status = "200" /\ r.hb /\ r.ct = o.mime /\ r.clen = r.blen
                  /\ r.enc \in {"", "gzip"}
                  /\ (r.enc = "gzip" => (AcceptsGzip(r.offer) /\ r.nmem = 1)))

GetOp(e, s, t) == UNION {FetchOne(s, e.res[i]) : i \in DOMAIN e.res}

---------------------------------------------------------------------------
(* dumpindex and byid *)

LookupOp(e, s) ==
    UNION {LET r == e.res[i] IN
           F("C08", "dumpindex lookup", r.rc = 0 /\ Range(r.es) = Match(s.idx, r.p, r.t)
                                        /\ (s.dup = 0 => Len(r.es) = Cardinality(Range(r.es))))
           : i \in DOMAIN e.res}

ById(s, p) ==
    LET hits == {x \in RecIds(s.silos) : IsPrefixStr(Take(p, 24), Key(Rec(s.silos, x).idl))}
    IN hits

ByidOp(e, s) ==
    UNION {LET r == e.res[i]
               hits == ById(s, r.p)
               want == {[id |-> Rec(s.silos, x).id, wt |-> Rec(s.silos, x).type] : x \in hits}
               n == Cardinality(hits)
           IN F("C08", "byid", /\ Range(r.es) = want /\ Len(r.es) = n
                               /\ \A w \in want : Cardinality({j \in DOMAIN r.es : r.es[j] = w}) =
                                      Cardinality({x \in hits : Rec(s.silos, x).id = w.id /\ Rec(s.silos, x).type = w.wt}))
          \cup F("C08", "byid exit code", r.rc = IF r.e THEN 0 ELSE IF n < 256 THEN n ELSE 255)
           : i \in DOMAIN e.res}

---------------------------------------------------------------------------
(* filter *)

FilterWant(s, e) ==
    LET n == Len(e.lines)
        keys == {Key(i) : i \in DOMAIN s.objs}
        P(i) == IF e.s THEN e.lines[i].id \in DOMAIN s.objs ELSE Key(e.lines[i].id) \in keys
        Idx == [i \in 1..n |-> i]
        Keep(i) == e.v \/ (P(i) = e.r)
        sel == SelectSeq(Idx, Keep)
    IN [j \in 1..Len(sel) |->
            IF e.v THEN (IF P(sel[j]) THEN "1 " ELSE "0 ") \o e.lines[sel[j]].raw
            ELSE e.lines[sel[j]].raw]

FilterOp(cfg, e, s) ==
    IF \A i \in DOMAIN e.lines : e.lines[i].id # ""
    THEN F("C16", "filter output", e.rc = 0 /\ e.out = FilterWant(s, e))
    ELSE F("C16", "filter accepts what is not an ID", e.rc # 0)

---------------------------------------------------------------------------
(* housekeeping, reindex, mksilo, audit, rebuild *)

HousekeepOp(e, s, t) ==
    F("C09", "housekeeping fails", e.rc = 0)
    \cup F("C09", "housekeeping changed the index", IdxQuiet(e.d) /\ t.dup <= s.dup)
    \cup F("C05", "housekeeping changed a silo", Quiet(e.d))

\* Of named silos only: their records, except segments whose object is not all there
SomeReindexed(e, s, t) ==
    LET ns   == Range(e.which)
        all  == RecIds(s.silos)
        segs == SegIds(s.silos)
        here == {x \in all : /\ x[1] \in ns
                             /\ IsSeg(Rec(s.silos, x)) =>
                                   \A y \in segs : Origin(Rec(s.silos, y)) = Origin(Rec(s.silos, x)) => y[1] \in ns}
        t4   == {Drop5(en) : en \in t.idx}
    IN  /\ s.idx \subseteq t.idx
        /\ {Entry4(x[1], Rec(s.silos, x)) : x \in here} \subseteq t4
        /\ t4 \subseteq {Entry4(x[1], Rec(s.silos, x)) : x \in all}
        /\ Cardinality(t.idx) = Cardinality(t4)
        /\ \A en \in t.idx \ s.idx : ContOK(s.silos, segs, en)

ReindexOp(e, s, t) ==
    F("C10", "reindex fails", e.rc = 0)
    \cup F("C10", "reindex of named silos", e.which # <<>> => (SomeReindexed(e, s, t) /\ t.dup <= s.dup))
    \cup F("C05", "reindex changed a silo", Quiet(e.d))
    \cup (IF e.full THEN F("C10", "reindex does not make the index complete",
                           IdxExact(t.silos, t.idx) /\ t.dup = 0 /\ ~e.left) ELSE {})
    \cup (IF ~s.lost THEN F("C10", "reindex of a good index changed it", IdxQuiet(e.d)) ELSE {})

MksiloOp(cfg, e, s, t) ==
    IF e.n \in DOMAIN s.silos \/ e.n \in s.held
    THEN FF({"C21", "C22"}, "mksilo of existing silo", e.rc # 0 /\ Unchanged(s, t, e.d))
    ELSE F("C22", "mksilo", /\ e.rc = 0 /\ DOMAIN t.silos = DOMAIN s.silos \cup {e.n}
                            /\ Len(e.d.silos) = 1 /\ Len(t.silos[e.n].recs) = 1)

RECURSIVE SumRecs(_, _)
SumRecs(silos, ns) == IF ns = {} THEN 0 ELSE LET n == CHOOSE m \in ns : TRUE
                                             IN Len(silos[n].recs) + SumRecs(silos, ns \ {n})

AuditOp(cfg, e, s) ==
    LET ns == IF e.which = <<>> THEN DOMAIN s.silos ELSE Range(e.which)
        segs == SegIds(s.silos)
        \* asked about some of an object's segments audit is right to miss the others
        closed == \A x \in segs : x[1] \in ns =>
                      \A y \in segs : Origin(Rec(s.silos, y)) = Origin(Rec(s.silos, x)) => y[1] \in ns
        \* metadata with an ID of somebody's own choice
        forced == {x \in RecIds(s.silos) : /\ x[1] \in ns /\ IsObjRec(Rec(s.silos, x))
                                           /\ Rec(s.silos, x).type = "metadata"
                                           /\ Rec(s.silos, x).idl # Take(Rec(s.silos, x).mdig, cfg.idlen)}
        single == {x \in forced : ~IsSeg(Rec(s.silos, x))}
    IN
    F("C14", "audit fails", e.rc = 0)
    \cup F("C14", "audit complains about a good archive", (closed /\ (e.ig \/ forced = {})) => ~e.problem)
    \cup F("C14", "audit does not see forced IDs", (closed /\ ~e.ig /\ forced # {}) => e.problem)
    \cup F("C14", "audit does not look at everything",
           /\ e.good + e.bad = SumRecs(s.silos, ns) /\ e.nsil = Cardinality(ns)
           /\ e.bad = IF e.ig THEN 0 ELSE Cardinality(single))

RebuildOp(e, s) ==
    LET rs == s.silos[e.n].recs IN
    F("C19", "rebuild fails", e.rc = 0)
    \cup F("C19", "rebuilt silo differs",
           e.rc = 0 => /\ e.junk = 0 /\ Len(e.recs) = Len(rs)
                       /\ \A i \in 1..Len(rs) : /\ e.recs[i].hd = rs[i].hd /\ e.recs[i].bd = rs[i].bd
                                                /\ FrameOK(e.recs[i].r) /\ TruthOK([idlen |-> Len(rs[i].id)], e.recs[i].r))

\* Rebuilding a copy of the silo, some records of which had an ID and a WARC-Record-Digest of their own,
\* as before WARC-Block-Digest: these get what they would have now, and the rest stays
RebuildOldOp(e, s) ==
    LET rs == s.silos[e.n].recs IN
    F("C19", "rebuild of an old silo fails", e.rc = 0)
    \cup F("C19", "rebuilt old silo differs",
           e.rc = 0 => /\ e.junk = 0 /\ Len(e.recs) = Len(rs)
                       /\ \A i \in 1..Len(rs) :
                            LET r == rs[i]
                                x == e.recs[i].r
                                c == [idlen |-> Len(r.id)]
                            IN IF i \notin Range(e.old)
                               THEN /\ e.recs[i].hd = r.hd /\ e.recs[i].bd = r.bd /\ FrameOK(x) /\ TruthOK(c, x)
                               ELSE /\ FrameOK(x) /\ TruthOK(c, x) /\ e.recs[i].same
                                    /\ x.type # "metadata" => x.id = Take(x.bd, c.idlen)
                                    /\ [f \in {"bd", "nbody", "type", "mime", "refers", "segno", "segorig", "segtot", "pdig", "fname", "title"} |-> x[f]]
                                       = [f \in {"bd", "nbody", "type", "mime", "refers", "segno", "segorig", "segtot", "pdig", "fname", "title"} |-> r[f]])

\* A request which is refused before it gets anywhere
RejectOp(e, s, t) ==
    F("C21", "bad request accepted", e.rc # 0 /\ e.rc # 2000)
    \cup F("C21", "rejected request changed something", Unchanged(s, t, e.d) /\ t.aux = s.aux)

---------------------------------------------------------------------------
Judge(cfg, e, s, t) ==
    IF e.op = "env" THEN {}
    ELSE IF e.op = "wrote" THEN F("C08", "index entries not listed", t.idx = s.idx \cup Range(e.es) /\ e.d.irc = 0)
    ELSE AnyOp(cfg, e, s, t) \cup IdxOp(e, t) \cup SegOp(cfg, e, t) \cup
    CASE e.op = "store"     -> StoreOp(cfg, e, s, t)
      [] e.op = "get"       -> GetOp(e, s, t) \cup ReadOnly(e, s, t)
      [] e.op = "dumpindex" -> LookupOp(e, s) \cup ReadOnly(e, s, t)
      [] e.op = "byid"      -> ByidOp(e, s) \cup ReadOnly(e, s, t)
      [] e.op = "filter"    -> FilterOp(cfg, e, s) \cup ReadOnly(e, s, t)
      [] e.op = "audit"     -> AuditOp(cfg, e, s) \cup ReadOnly(e, s, t)
      [] e.op = "info"      -> ReadOnly(e, s, t)
      [] e.op = "housekeep" -> HousekeepOp(e, s, t)
      [] e.op = "reindex"   -> ReindexOp(e, s, t)
      [] e.op = "mksilo"    -> MksiloOp(cfg, e, s, t)
      [] e.op = "rebuild"   -> RebuildOp(e, s) \cup F("C19", "rebuild changed the archive", Unchanged(s, t, e.d))
      [] e.op = "rebuildold" -> RebuildOldOp(e, s) \cup F("C19", "rebuild changed the archive", Unchanged(s, t, e.d))
      [] e.op = "reject"    -> RejectOp(e, s, t)
      [] OTHER -> {<<"?", "unknown event">>}
=============================================================================
