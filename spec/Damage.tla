------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Archives which somebody has damaged.                                    *)
(*                                                                         *)
(* AuditSound says, in terms of records only, which archives audit has to  *)
(* be content with; DamageOp judges what audit and get made of an archive  *)
(* with one silo changed under it.                                         *)
(***************************************************************************)
EXTENDS Archive

\* One record, by itself
RecordSound(cfg, r) ==
    /\ r.hok /\ r.sep
    /\ r.clen = r.nbody
    /\ r.bdig = r.bd
    /\ r.baa = r.blen
    /\ r.type # ""
    /\ r.segno >= -1 /\ r.segno # 0
    /\ r.segtot >= -1
    /\ (r.segno = 1) => r.pdig # ""
    /\ r.segno # 1 =>
        r.idl = IF r.type = "metadata" THEN Take(r.mdig, cfg.idlen) ELSE Take(r.bd, cfg.idlen)
    /\ r.segno = 1 =>
        r.idl = IF r.type = "metadata" THEN Take(r.mdig, cfg.idlen) ELSE Take(r.pdig, cfg.idlen)

SiloSound(cfg, silo) == silo.junk = 0 /\ \A r \in Range(silo.recs) : RecordSound(cfg, r)

\* With all the segments belonging to some object's complete chain, which amounts to the
\* contents the first one promises.  (cats: what they really amount to)
SegsSound(silos, cats) ==
    LET segs == SegIds(silos)
        orgs == {Origin(Rec(silos, x)) : x \in segs}
    IN /\ \A o \in orgs : ChainOK(silos, segs, o)
       /\ \A c \in Range(cats) : \A x \in Chain(silos, segs, c.id) :
                IsFirst(Rec(silos, x)) => Rec(silos, x).pdig = c.dig

AuditSound(cfg, silos, cats) == (\A n \in DOMAIN silos : SiloSound(cfg, silos[n])) /\ SegsSound(silos, cats)

---------------------------------------------------------------------------
\* The records an object is made of, as <<silo, offset>>
Parts(s, id) ==
    LET own == {x \in RecIds(s.silos) : IsObjRec(Rec(s.silos, x)) /\ Rec(s.silos, x).id = id}
        seg == {x \in SegIds(s.silos) : Origin(Rec(s.silos, x)) = id}
    IN {<<x[1], Rec(s.silos, x).off>> : x \in own \cup seg}

Exact(r, o) == r.rc = 0 /\ r.dig = o.dig /\ r.len = o.len /\ (r.mode \in {"cgi", "cgiz"} => r.status = "200")
\* Nobody is led to believe he has the object: the command fails, or what it gave does not unpack.
\* (get -z and CGI pass on the record as it is, so what a sound gzip member holds is up to the reader)
Noticed(e, r) == \/ r.rc # 0 \/ (r.mode \in {"z", "qz", "cgiz"} /\ ~r.zok)
                 \/ (r.mode \in {"cgi", "cgiz"} /\ r.status # "200")
                 \/ (r.mode \in {"z", "qz", "cgi", "cgiz"} /\ e.case.part = "body"
                                                       /\ e.case.how \in {"other", "shorter", "longer", "empty"})

DamageOp(cfg, e, s) ==
    LET after == [x \in (DOMAIN s.silos \ (IF e.gone THEN {e.n} ELSE {})) |->
                    IF x = e.n THEN [s.silos[x] EXCEPT !.recs = e.recs, !.junk = e.junk] ELSE s.silos[x]]
        hits == {<<e.n, e.hit[i]>> : i \in DOMAIN e.hit}
        sound == AuditSound(cfg, after, e.cats)
    IN
    UNION {LET r == e.res[i]
               o == s.objs[r.id]
           IN IF Parts(s, r.id) \cap hits = {}
              THEN F("C15", "object out of reach of the damage is affected", Exact(r, o))
              ELSE F("C15", "damaged data passed off as good", Exact(r, o) \/ Noticed(e, r))
           : i \in {j \in DOMAIN e.res : e.res[j].id \in DOMAIN s.objs}}
    \cup F("C14", "audit misses damage", sound \/ e.problem)
    \cup F("C14", "audit of the damaged silo misses damage",
           (e.gone => e.p1) /\ (e.n \in DOMAIN after => (SiloSound(cfg, after[e.n]) \/ e.p1)))
    \cup F("C14", "audit complains without damage",
             (sound /\ (e.case.part \in {"mime", "date"} \/ e.case.how = "repack")) => ~e.problem)
=============================================================================
