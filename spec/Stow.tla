-------------------------------- MODULE Stow --------------------------------
(***************************************************************************)
(* Protocol sessions with stevedore, and stow, which is the other end.     *)
(*                                                                         *)
(* A session is a sequence of requests:                                    *)
(*                                                                         *)
(*   filter  is this ID in the archive?           (id)                     *)
(*   mark    give your verdict on everything so far                        *)
(*   data    store this                           (dig, len)               *)
(*   meta    store this about that                (mdig, dig, len, ref)    *)
(*   other   something there is no such thing as                           *)
(*                                                                         *)
(* and the answers, by kind, come in the order of the requests:            *)
(*                                                                         *)
(*   filter  all up to this ID are there, but this one is not              *)
(*   skip    so many more are there                                        *)
(*   mark    all the others are there, up to the mark                      *)
(*   data    the ID of what was stored                                     *)
(*   meta    likewise                                                      *)
(*   msg     just talk: the greeting, and for each "other"                 *)
(***************************************************************************)
EXTENDS Conc

OfKind(xs, k) == SelectSeq(xs, LAMBDA x : x.t \in k)

IsPrefixSeq(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

---------------------------------------------------------------------------
(* What the answers to filter requests amount to                           *)
(* Walk(q, r, i, j, miss): q requests, r answers, the first not yet settled *)
(* request and the first not yet considered answer                         *)

RECURSIVE Walk(_, _, _, _, _)
Walk(q, r, i, j, miss) ==
    IF j > Len(r) THEN [ok |-> TRUE, miss |-> miss, rest |-> i]
    ELSE LET a == r[j]
             mark == {k \in i..Len(q) : q[k].t = "mark"}
             \* the requests which can be settled without passing a mark
             top == IF mark = {} THEN Len(q) ELSE (CHOOSE k \in mark : \A m \in mark : k <= m) - 1
             hit == {k \in i..top : q[k].id = a.id}
         IN CASE a.t = "mark" -> IF mark = {} THEN [ok |-> FALSE, miss |-> miss, rest |-> i]
                                 ELSE Walk(q, r, top + 2, j + 1, miss)
              [] a.t = "skip" -> IF a.n < 1 \/ i + a.n - 1 > top THEN [ok |-> FALSE, miss |-> miss, rest |-> i]
                                 ELSE Walk(q, r, i + a.n, j + 1, miss)
              [] a.t = "filter" -> IF hit = {} THEN [ok |-> FALSE, miss |-> miss, rest |-> i]
                                   ELSE LET k == CHOOSE k \in hit : \A m \in hit : k <= m
                                        IN Walk(q, r, k + 1, j + 1, miss \cup {k})
              [] OTHER -> [ok |-> FALSE, miss |-> miss, rest |-> i]

FilterJudge(cfg, e, s, t) ==
    LET q == OfKind(e.reqs, {"filter", "mark"})
        r == OfKind(e.reps, {"filter", "skip", "mark"})
        w == Walk(q, r, 1, 1, {})
        before == {Key(i) : i \in DOMAIN s.objs}
        after == {Key(i) : i \in DOMAIN t.objs}
        rest == IF e.cut THEN w.rest - 1 ELSE Len(q)
        missing == {q[k].id : k \in w.miss}
        present == {q[k].id : k \in {j \in 1..rest : q[j].t = "filter" /\ j \notin w.miss}}
    IN  F("C18", "filter answers do not match the requests", w.ok)
   \cup (IF ~w.ok THEN {} ELSE
         F("C18", "object in the archive reported missing",
           \A id \in missing : Key(id) \notin before)
    \cup F("C18", "missing object reported present",
           \A id \in present : Key(id) \in after)
    \cup (IF e.cut THEN {} ELSE
          F("C18", "filter requests without answer", \A k \in w.rest..Len(q) : q[k].t = "filter")))

---------------------------------------------------------------------------
(* What is to be stored *)

SessId(cfg, x) == Take(IF x.t = "data" THEN x.dig ELSE x.mdig, cfg.idlen)
SessObj(x) == IF x.t = "data"
              THEN [kind |-> "resource", dig |-> x.dig, len |-> x.len, mime |-> "application/octet-stream", ref |-> ""]
              ELSE [kind |-> "metadata", dig |-> x.dig, len |-> x.len, mime |-> "application/json", ref |-> x.ref]

Ids(cfg, xs) == [i \in DOMAIN xs |-> SessId(cfg, xs[i])]
IdsOf(xs) == [i \in DOMAIN xs |-> xs[i].id]

\* The objects which have come, according to the silos
Heads(e) == UNION {{e.d.silos[i].recs[j] : j \in {k \in 1..Len(e.d.silos[i].recs) : IsObjRec(e.d.silos[i].recs[k])}}
                   : i \in DOMAIN e.d.silos}
HeadIds(e) == {r.id : r \in Heads(e)}
NHeads(e) == Cardinality(UNION {{<<e.d.silos[i].n, e.d.silos[i].recs[j].off>> :
                            j \in {k \in 1..Len(e.d.silos[i].recs) : IsObjRec(e.d.silos[i].recs[k])}}
                   : i \in DOMAIN e.d.silos})

SessionAfter(cfg, e, s, t) ==
    LET xs == OfKind(e.reqs, {"data", "meta"})
        got == IF e.cut THEN {SessId(cfg, x) : x \in {xs[i] : i \in {j \in DOMAIN xs : SessId(cfg, xs[j]) \in HeadIds(e)}}}
               ELSE {SessId(cfg, xs[i]) : i \in DOMAIN xs}
        new == [id \in got |-> SessObj(xs[CHOOSE i \in DOMAIN xs : SessId(cfg, xs[i]) = id])]
        \* what there was of an unfinished one may be stored, as just that
        part == IF e.part.t # "" /\ SessId(cfg, e.part) \in HeadIds(e) THEN {SessId(cfg, e.part)} ELSE {}
    IN [t EXCEPT !.objs = @ @@ new @@ [id \in part |-> SessObj(e.part)]]

SessionJudge(cfg, e, s, t) ==
    LET xs == OfKind(e.reqs, {"data", "meta"})
        dw == Ids(cfg, OfKind(e.reqs, {"data"}))
        mw == Ids(cfg, OfKind(e.reqs, {"meta"}))
        dg == IdsOf(OfKind(e.reps, {"data"}))
        mg == IdsOf(OfKind(e.reps, {"meta"}))
        want == {SessId(cfg, xs[i]) : i \in DOMAIN xs} \ DOMAIN s.objs
    IN  F("C18", "stevedore does not end", e.rc # 2000)
   \cup F("C18", "not the protocol", OfKind(e.reps, {"junk"}) = <<>>)
   \cup F("C18", "no greeting", e.reps # <<>> /\ e.reps[1].t = "msg")
   \cup FilterJudge(cfg, e, s, t)
   \cup F("C18", "something reported stored which was not", IsPrefixSeq(dg, dw) /\ IsPrefixSeq(mg, mw))
   \cup F("C18", "something stored twice", NHeads(e) = Cardinality(HeadIds(e)) /\ HeadIds(e) \cap DOMAIN s.objs = {})
   \cup (IF e.cut
         THEN F("C18", "something else stored", HeadIds(e) \subseteq want \cup (IF e.part.t = "" THEN {} ELSE {SessId(cfg, e.part)}))
         \cup F("C18", "acknowledged but not stored", (Range(dg) \cup Range(mg)) \subseteq DOMAIN s.objs \cup HeadIds(e))
         ELSE F("C18", "session fails", e.rc = 0)
         \cup F("C18", "not everything acknowledged", dg = dw /\ mg = mw)
         \cup F("C18", "not exactly what was sent stored", HeadIds(e) = want)
         \cup F("C18", "wrong number of messages",
                Len(OfKind(e.reps, {"msg"})) = 1 + Len(OfKind(e.reqs, {"other"}))))
   \cup F("C18", "stored something else",
          \A i \in DOMAIN e.res : e.res[i].id \in DOMAIN t.objs => ContentOK(e.res[i], t.objs[e.res[i].id]))
   \cup F("C18", "wrong kind of object",
          \A r \in Heads(e) : r.id \in DOMAIN t.objs =>
             /\ r.type = t.objs[r.id].kind /\ r.mime = t.objs[r.id].mime /\ r.refers = t.objs[r.id].ref)

---------------------------------------------------------------------------
(* stow *)

FileObj(f) == [kind |-> "resource", dig |-> f.dig, len |-> f.len, mime |-> "application/octet-stream", ref |-> ""]

\* (even if it failed, what it did store is there to stay)
StowAfter(cfg, e, s, t) ==
    LET there == IF e.rc = 0 THEN DOMAIN e.files ELSE DOMAIN e.files \cap HeadIds(e)
        metas == {i \in DOMAIN e.jobs : e.jobs[i].metaid # "" /\ e.jobs[i].metaid \in HeadIds(e)}
        Meta(i) == CHOOSE i2 \in metas : e.jobs[i2].metaid = i
        mobj == [i \in {e.jobs[j].metaid : j \in metas} |->
                    [kind |-> "metadata", dig |-> e.jobs[Meta(i)].mdig, len |-> e.jobs[Meta(i)].mlen,
                     mime |-> "application/json", ref |-> Take(e.jobs[Meta(i)].man, cfg.idlen)]]
        \* (metadata which it had no word about)
        silent == {r \in Heads(e) : r.type = "metadata" /\ r.id \notin DOMAIN mobj}
        sobj == [i \in {r.id : r \in silent} |->
                    LET r == CHOOSE r2 \in silent : r2.id = i
                    IN [kind |-> "metadata", dig |-> r.bd, len |-> r.nbody, mime |-> r.mime, ref |-> r.refers]]
    IN [t EXCEPT !.objs = @ @@ [i \in there |-> FileObj(e.files[i])] @@ mobj @@ sobj]

StowJudge(cfg, e, s, t) ==
    LET Manifest(j) == Take(j.man, cfg.idlen)
    IN  F("C17", "stow does not end", e.rc # 2000)
   \cup F("C17", "stow fails", e.peer = "ok" => e.rc = 0)
   \cup F("C17", "stow reports success when the stevedore failed", e.peer = "fail" => e.rc # 0)
   \cup (IF e.rc # 0 THEN {} ELSE
         F("C17", "file or manifest not in the archive", \A i \in DOMAIN e.files : ContentOK(e.files[i].got, FileObj(e.files[i])))
    \cup F("C17", "wrong kind of object", \A r \in Heads(e) : r.id \in DOMAIN e.files =>
              r.type = "resource" /\ r.mime = "application/octet-stream")
    \cup F("C17", "no metadata about the manifest",
           \A i \in DOMAIN e.jobs :
              LET j == e.jobs[i] IN
              /\ j.metaid # "" /\ j.mt = j.man /\ j.target = j.name /\ j.changed = j.wantchanged
              /\ \/ \E r \in Heads(e) : /\ r.id = j.metaid /\ r.type = "metadata" /\ r.mime = "application/json"
                                        /\ r.refers = Manifest(j)
                 \* (the same thing twice within a second)
                 \/ j.metaid \in DOMAIN s.objs /\ s.objs[j.metaid].ref = Manifest(j))
    \cup F("C17", "stored other things, or some twice",
           /\ NHeads(e) = Cardinality(HeadIds(e)) /\ HeadIds(e) \cap DOMAIN s.objs = {}
           /\ HeadIds(e) \subseteq DOMAIN e.files \cup {e.jobs[i].metaid : i \in DOMAIN e.jobs}))
   \cup F("C17", "lost what was there", 
          /\ \A i \in DOMAIN e.res : e.res[i].id \in DOMAIN s.objs => ContentOK(e.res[i], s.objs[e.res[i].id])
          /\ \A i \in DOMAIN e.files \cap DOMAIN s.objs : ContentOK(e.files[i].got, s.objs[i]))

---------------------------------------------------------------------------
AfterAny(cfg, e, s) ==
    CASE e.op = "session" -> SessionAfter(cfg, e, s, Apply(s, e))
      [] e.op = "stow" -> StowAfter(cfg, e, s, Apply(s, e))
      [] OTHER -> AfterConc(cfg, e, s)

JudgeAny(cfg, e, s, t) ==
    CASE e.op = "session" -> AnyOp(cfg, e, s, t) \cup IdxOp(e, t) \cup SegOp(cfg, e, t) \cup SessionJudge(cfg, e, s, t)
      [] e.op = "stow" -> AnyOp(cfg, e, s, t) \cup IdxOp(e, t) \cup SegOp(cfg, e, t) \cup StowJudge(cfg, e, s, t)
      [] OTHER -> JudgeConc(cfg, e, s, t)
=============================================================================
