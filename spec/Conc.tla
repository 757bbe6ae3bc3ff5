-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Commands which are interrupted, interleaved, or have system calls       *)
(* failing under them.  The states are those of Archive, but seen while    *)
(* the commands are at it; s.pend has the objects they are about to store. *)
(*                                                                         *)
(*   begin   the commands start                                            *)
(*   step    somebody looks, between two system calls                      *)
(*   end     one of the commands has ended                                 *)
(*   done    all of them have                                              *)
(*   crash   what would have happened if all had been killed at this point *)
(*           (or one had failed) and somebody had cleaned up then: the     *)
(*           events of a copy                                              *)
(*   fault   a command has ended, which had a system call fail             *)
(*                                                                         *)
(* Everything which must hold here must hold at any system call, so it     *)
(* is what a reader may rely on, and what a crash at that point leaves.    *)
(***************************************************************************)
EXTENDS Damage

ConcOps == {"begin", "step", "end", "done", "crash", "fault",
            "x-found", "x-store", "x-stevedore", "x-reindex", "x-housekeep", "x-end"}

ObjOf(o) == [kind |-> o.kind, dig |-> o.dig, len |-> o.len, mime |-> o.mime, ref |-> o.ref]

ConcAfter(cfg, e, s) ==
    LET t == Apply(s, e) IN
    CASE e.op = "begin" -> [t EXCEPT !.pend = [i \in {e.pend[j].id : j \in DOMAIN e.pend} |->
                                                 ObjOf(e.pend[CHOOSE j \in DOMAIN e.pend : e.pend[j].id = i])],
                                     !.props = Range(e.props), !.idx0 = t.idx]
      [] e.op \in {"end", "fault"} /\ e.rc = 0 ->
            [t EXCEPT !.objs = @ @@ [i \in Range(e.ids) \cap DOMAIN s.pend |-> s.pend[i]]]
      [] e.op = "x-store" /\ e.rc = 0 -> [t EXCEPT !.objs = @ @@ [i \in {e.want} |-> s.pend[i]]]
      [] e.op = "x-stevedore" /\ e.rc = 0 -> [t EXCEPT !.objs = @ @@ [i \in Range(e.want) |-> s.pend[i]]]
      [] OTHER -> t

\* What is there can be relied on
Sane(P, cfg, e, s, t) ==
    LET d == e.d
        New(x) == x.n \notin DOMAIN s.silos
        xs == Range(d.silos)
        segs == SegIds(t.silos)
        news == Range(d.iadd)
    IN  FF(P \cup {"C05"}, "silo damaged", d.gone = <<>> /\ \A x \in xs : ~New(x) => (x.pre = s.silos[x.n].dig /\ x.sz >= s.silos[x.n].sz
                                                                        /\ ~s.silos[x.n].ro /\ ~x.ro))
   \cup FF(P \cup {"C06"}, "silo not well-formed",
           \A x \in xs : /\ x.junk = 0 /\ t.silos[x.n].recs # <<>>
                         /\ \A r \in Range(x.recs) : FrameOK(r) /\ TruthOK(cfg, r) /\ NameOK(cfg, r)
                         /\ \A i \in 1..Len(t.silos[x.n].recs) : PlaceOK(t.silos[x.n], i))
   \cup FF(P \cup {"C22"}, "silo too big", \A x \in xs : x.sz <= MaxSz(cfg, s))
   \cup FF(P \cup {"C08"}, "index cannot be read", d.irc = 0)
   \cup FF(P \cup {"C08"}, "index entry without record", \A en \in news : Drop5(en) \in Expected4(t.silos))
   \cup FF(P \cup {"C08"}, "index entry with wrong successor", \A en \in news : ContOK(t.silos, segs, en))
   \* (an entry which is being inserted may be seen, go away with the file which housekeeping has already read, and be written
   \* again: see CommitMC)
   \cup FF(P \cup {"C08", "C09"}, "index entry lost",
           IF e.op \in {"step", "end", "done"} THEN Range(d.idel) \cap s.idx0 = {} ELSE d.idel = <<>>)

\* What readers get: what has been acknowledged, and the rest all or not
Gets(P, s, res) ==
    UNION {LET r == res[i] IN
           IF r.id \in DOMAIN s.objs
           THEN FF(P \cup {"C01"}, "acknowledged object not retrievable", ContentOK(r, s.objs[r.id]))
           ELSE FF(P, "unacknowledged object half there",
                   (r.rc # 0 /\ r.rc # 2000) \/ (r.id \in DOMAIN s.pend /\ ContentOK(r, s.pend[r.id])))
           : i \in DOMAIN res}

\* The headers of what is there tell what it was stored as, whichever of the segments got there
Told(P, s, t) ==
    FF(P \cup {"C06", "C07"}, "wrong headers",
       \A x \in RecIds(t.silos) :
          LET r == Rec(t.silos, x)
              i == IF IsSeg(r) THEN Origin(r) ELSE r.id
              o == IF i \in DOMAIN t.objs THEN t.objs[i] ELSE s.pend[i]
          IN (r.type # "warcinfo" /\ i \in (DOMAIN t.objs \cup DOMAIN s.pend)) =>
                /\ r.mime = o.mime /\ r.refers = o.ref
                /\ (r.type # "continuation") => r.type = o.kind
                /\ (IsSeg(r) /\ IsLast(r)) => r.segtot = o.len)

Complete4(t) == /\ {Drop5(en) : en \in t.idx} = Expected4(t.silos)
                /\ \A en \in t.idx : ContOK(t.silos, SegIds(t.silos), en)

RECURSIVE ConcJudge(_, _, _, _)
RECURSIVE Subs(_, _, _, _)

ConcJudge(cfg, e, s, t) ==
    LET P == s.props IN
    CASE e.op = "begin" -> {}
      [] e.op = "step" -> Sane(P, cfg, e, s, t)
                    \* (when nothing else has happened since somebody looked)
                    \cup FF(P \cup {"C12", "C22"}, "silo written without being held",
                            e.single => \A x \in Range(e.d.silos) : x.n \in s.held)
                    \cup (IF e.lost THEN {} ELSE Gets(P, t, e.res))
      [] e.op = "end" -> FF(P, e.kind \o " fails", e.rc = 0) \cup FF(P, e.kind \o " gives wrong result", e.rc = 0 => e.good)
                    \cup FF(P, "wrong ID printed", (e.kind = "store" /\ e.rc = 0) => e.id = e.ids[1])
                    \cup Sane(P, cfg, e, s, t)
      [] e.op = "done" -> Sane(P, cfg, e, s, t) \cup Gets(P, t, e.res) \cup Told(P, s, t)
                    \cup (IF e.lost THEN {} ELSE FF(P \cup {"C08"}, "index not complete", Complete4(t)))
                    \cup FF(P \cup {"C22"}, "stray files", t.misc = {})
      [] e.op = "crash" -> Subs(cfg, e.sub, 1, t)
      [] e.op = "fault" -> Sane(P, cfg, e, s, t)
                    \cup FF(P, e.kind \o " reports success without having done it", e.rc = 0 => e.good)
                    \cup FF(P, e.kind \o " does not end", e.rc # 2000)
                    \* (it was close which failed, and nothing else tells that what was written before got to the disk)
                    \cup FF(P, e.kind \o " reports success, but may have lost what it wrote", e.unsure => e.rc # 0)
                    \cup FF(P, e.kind \o " reports success, but the object is not there",
                            (e.rc = 0 /\ e.kind \in {"store", "stevedore"}) =>
                                \A i \in DOMAIN e.res : e.res[i].id \in Range(e.ids) => ContentOK(e.res[i], s.pend[e.res[i].id]))
                    \cup FF(P, "index not complete", (e.rc = 0 /\ e.kind \in {"reindex", "housekeep"}) => Complete4(t))
                    \cup (IF e.lost THEN {} ELSE Gets(P, s, e.res))
      [] e.op = "x-found" -> Sane(P, cfg, e, s, t)
      [] e.op = "x-store" -> Sane(P, cfg, e, s, t) \cup FF(P, "store after crash fails", e.rc = 0 /\ e.id = e.want)
      [] e.op = "x-stevedore" -> Sane(P, cfg, e, s, t) \cup FF(P, "stevedore after crash fails", e.rc = 0)
      [] e.op = "x-reindex" -> Sane(P, cfg, e, s, t)
                          \cup FF(P, "reindex after crash fails", e.rc = 0)
                          \cup FF(P, "reindex after crash not complete", Complete4(t))
      [] e.op = "x-housekeep" -> Sane(P, cfg, e, s, t) \cup FF(P, "housekeeping after crash fails", e.rc = 0 /\ IdxQuiet(e.d))
      [] e.op = "x-end" -> Sane(P, cfg, e, s, t) \cup Gets(P, t, e.res) \cup Told(P, s, t)
                       \cup FF(P, "stray files after crash", \A m \in t.misc : IsPrefixStr("index.tmp.", m))

Subs(cfg, evs, i, s) ==
    IF i > Len(evs) THEN {}
    ELSE LET t == ConcAfter(cfg, evs[i], s)
         IN ConcJudge(cfg, evs[i], s, t) \cup Subs(cfg, evs, i + 1, t)

\* After a crash the state is that of before: it happened in a copy
JudgeConc(cfg, e, s, t) ==
    IF e.op = "damage" THEN DamageOp(cfg, e, s)
    ELSE IF e.op \in ConcOps THEN ConcJudge(cfg, e, s, t)
    ELSE Judge(cfg, e, s, t)

AfterConc(cfg, e, s) == IF e.op \in ConcOps THEN ConcAfter(cfg, e, s) ELSE After(cfg, e, s)
=============================================================================
