"""Which scenarios and which models decide which property.

jobs(prop, tier, seed, hists) gives the jobs; MODELS the specifications which are model checked
for their own sake (module, configuration, for the thorough tier)."""
import itertools, random

GEN = dict(store=12, get=3, housekeep=2, reindex=1, lookups=1, byid=0.5, filter=1, mksilo=0.6, audit=0.5, auditone=0.2,
           rebuild=0.3, info=0.2, reject=0.5, protect=0.4, hold=1, cache=0.7, lose=0.6, conf=0.6)


def W(**k):
    """Weights with some operations dominant and the rest as background"""
    return dict({o: 0.15 for o in GEN}, store=6, **k)


MODES = ["", "q", "n", "o", "z", "qz", "no", "cgi", "cgiz", "cgid"]
M15 = dict(maxsize=15360)

CRASH = ("first", "small", "meta", "fresh", "seg", "segsame", "again", "protected", "housekeep", "housekeepbig", "rehousekeep",
         "reindex", "mksilo")
PAIRS = ("small", "first", "tight", "seg", "segsmall", "shared", "same", "storehk", "seghk", "hkhk", "gethk", "dumphk", "findhk",
         "dumpstore", "filterhk", "getstore", "auditstore", "three", "threehk")
FAULTS = CRASH + ("stdin", "get", "getq", "getz", "geto", "cgi", "dumpindex", "filter", "audit", "rebuild")


def schedules(q, n, i, seed):
    """Schedules for interleaving: [(which command, how many system calls)]"""
    nc = 4 if q["pair"] == "threehk" else 3 if q["pair"] == "three" else 2
    r = random.Random("%s %s %d" % (seed, q["pair"], i))
    if "one" in q:
        # one goes so far, then the others run through, then it goes on
        m = q.pop("one")
        off = r.randrange(m)
        return [[(w, k)] + [(o, -1) for o in r.sample(range(nc), nc) if o != w]
                for w in range(nc if nc < 4 else 2) for k in range(1 + (off + i) % m, 105, m)]
    if "race" in q:
        return None
    out = []
    for x in range(q.pop("rnd")):
        out.append([(r.randrange(nc), r.choice((r.randrange(1, 10), r.randrange(1, 90))))
                    for z in range(r.choice((2, 2, 3, 3, 4, 8)))])
    return out


# property -> [(family, number in the quick tier, parameters)]
HUGE = ("big", 1, dict(rnd=(), zero=(300000000, 2200000000), thorough=True))
PLAN = dict(
    C01=[("vast", 1, dict(n=3)), ("huge", 1, dict(max=20000000, modes=[""])), ("align", 3, dict()), ("big", 1, dict()), ("sched", 1, dict(each=("shared", "seg", "getstore"), one=9)),
         ("hist", 14, dict(n=30, w=W(get=3, housekeep=2, reindex=1, lose=.4, cache=.5, hold=.7))),
         ("sizes", 2, dict(kind="rnd")), ("sizes", 2, dict(kind="text", ratio=.32)), ("sizes", 2, dict(kind="zero", conf=M15)),
         ("sizes", 1, dict(kind="zero", conf=dict(maxsize=5000))),
         ("reseg", 6, dict()), ("meta", 3, dict()), ("chunks", 3, dict()), ("pack", 2, dict()), ("model", 24, dict()),
         ("far", 2, dict()), ("bounds", 4, dict())],
    C02=[("vast", 1, dict(n=2, modes=["z", "cgi", "q", "no"])), ("huge", 1, dict(max=20000000, modes=["z", "cgi"])), ("hist", 14, dict(n=20, w=W(get=8, housekeep=1), modes=MODES)), ("meta", 3, dict()),
         ("modes", 8, dict()), ("reseg", 2, dict()), ("bounds", 16, dict())],
    C03=[("chunks", 10, dict()), ("hist", 10, dict(n=30, w=W(housekeep=1, hold=1))), ("meta", 4, dict()),
         ("sizes", 2, dict(kind="rnd", n=6)), ("reseg", 2, dict()), ("again", 2, dict())],
    C04=[("again", 14, dict()), ("chunks", 6, dict()), ("hist", 10, dict(n=30, w=W(housekeep=2, reindex=1, lose=.3, hold=1, cache=1))),
         ("meta", 3, dict()), ("reseg", 3, dict()), ("model", 16, dict())],
    C05=[("vast", 1, dict(n=2)), ("sched", 1, dict(each=("small", "tight", "seg"), one=9)),
         ("hist", 20, dict(n=35, w=GEN)), ("rebuild", 2, dict()), ("far", 1, dict()), ("reject", 2, dict()),
         ("pack", 2, dict()), ("model", 16, dict()), ("readers", 4, dict()), ("many", 6, dict())],
    C06=[("big", 1, dict()), HUGE, ("align", 3, dict()), ("sched", 1, dict(each=PAIRS[:4], one=9)),
         ("sizes", 2, dict(kind="rnd")), ("sizes", 2, dict(kind="text", ratio=.32)), ("sizes", 3, dict(kind="zero", conf=M15)),
         ("sizes", 1, dict(kind="rep", ratio=.5)), ("pack", 4, dict()), ("meta", 4, dict()),
         ("hist", 8, dict(n=25, w=W(mksilo=1, hold=1))), ("reseg", 3, dict()), ("chunks", 3, dict())],
    C07=[("huge", 1, dict(max=2000000, modes=[])), ("sizes", 3, dict(kind="rnd")), ("sizes", 2, dict(kind="zero", conf=M15)), ("sizes", 2, dict(kind="text", ratio=.32)),
         ("reseg", 10, dict()), ("chunks", 4, dict()), ("model", 24, dict()), ("renum", 3, dict())],
    C08=[("vast", 1, dict(n=3)), ("sched", 1, dict(each=("small", "first", "storehk", "seghk"), one=9)),
         ("hist", 14, dict(n=30, w=W(lookups=6, byid=4, housekeep=3, reindex=1))), ("keys", 10, dict()), ("pack", 2, dict()),
         ("reseg", 6, dict()), ("model", 16, dict()), ("far", 2, dict()), ("idxfile", 12, dict()), ("meta", 2, dict()), ("many", 3, dict())],
    C09=[("sched", 1, dict(each=("storehk", "seghk", "hkhk", "threehk"), one=9)),
         ("keys", 16, dict()), ("hist", 10, dict(n=40, w=W(housekeep=6, lookups=2))), ("idxfile", 16, dict()), ("idxfile", 1, dict(bulk=17000, rounds=1)),
         ("reseg", 4, dict()), ("again", 3, dict()), ("many", 3, dict())],
    C10=[("vast", 1, dict(n=2, reindex=1)), ("huge", 1, dict(max=3000000, modes=["qz"], reindex=1, thorough=1)), ("align", 3, dict()), ("big", 1, dict()), ("reseg", 14, dict()), ("renum", 6, dict()), ("far", 2, dict()), ("model", 24, dict()),
         ("hist", 8, dict(n=30, w=W(reindex=4, lose=3, hold=1, housekeep=1)))],
    C11=[("crash", 2, dict(each=CRASH)), ("kill", 3, dict(each=CRASH))],
    C12=[("crash", 1, dict(each=("first", "small", "seg", "fresh", "mksilo"))), ("sched", 1, dict(each=PAIRS, one=3)), ("sched", 1, dict(each=PAIRS, rnd=6)), ("sched", 1, dict(each=PAIRS, race=30))],
    C13=[("fault", 1, dict(each=FAULTS, parts=3))],
    C14=[("vast", 1, dict(n=1, modes=[], audit=1)), ("huge", 1, dict(max=3000000, modes=[], audit=1, thorough=1)), ("align", 4, dict()), ("big", 1, dict()), ("hist", 6, dict(n=20, w=W(audit=3, auditone=3, hold=1))), ("reseg", 3, dict()), ("sizes", 1, dict(kind="zero", conf=M15)),
         ("meta", 2, dict()), ("far", 2, dict()), ("bounds", 4, dict()), ("damage", 24, dict(per=4))],
    C15=[("damage", 32, dict(per=8))],
    C16=[("filter", 24, dict()), ("many", 4, dict()), ("hist", 6, dict(n=25, w=W(filter=5, housekeep=1)))],
    C17=[("stow", 60, dict()), ("stow", 6, dict(kinds=("change",))), ("stow", 1, dict(kinds=("change",), changes=100, rounds=1)), ("stow", 12, dict(kinds=("fail", "any"))), ("stow", 2, dict(many=2500, rounds=2))],
    C18=[("sessions", 160, dict()), ("sessions", 40, dict(how=("cut", "bad"))), ("sessions", 8, dict(n=12, how=("all",))), ("bulk", 4, dict()), ("stow", 4, dict())],
    C19=[("vast", 1, dict(n=1, modes=[], rebuild=1)), ("align", 12, dict()), ("rebuild", 2, dict(conf=dict(maxsize=2000000), n=4)), ("big", 1, dict(all=1)), ("rebuild", 24, dict()), ("sizes", 2, dict(kind="zero", rebuild=True, conf=M15)),
         ("sizes", 2, dict(kind="text", ratio=.32, rebuild=True)), ("reseg", 2, dict(rebuild=True)), ("meta", 4, dict(rebuild=True)),
         ("far", 2, dict()), ("bounds", 6, dict())],
    C20=[("meta", 24, dict()), ("hist", 6, dict(n=25, w=W(housekeep=1, reindex=1, lookups=1)))],
    C21=[("reject", 8, dict()), ("hist", 10, dict(n=40, w=W(reject=10, hold=1, protect=.5))), ("meta", 2, dict())],
    C22=[("vast", 1, dict(n=3, modes=[])), ("crash", 1, dict(each=("small", "seg"))), ("sched", 1, dict(each=("tight", "small", "first", "seg", "three"), race=24)),
         ("sched", 1, dict(each=("tight", ), one=1)), ("sched", 1, dict(each=("seg", "three"), one=3)), ("pack", 12, dict()), ("hist", 12, dict(n=35, w=W(hold=2, cache=3, mksilo=1.5, protect=.6))), ("far", 3, dict()),
         ("sizes", 2, dict(kind="rnd")), ("sizes", 2, dict(kind="text", ratio=.32)), ("model", 16, dict()), ("chunks", 2, dict())],
    C23=[("config", 32, dict())],
)

# property -> [(module, cfg for quick, cfg for thorough)]
DESIGN = [("ArchiveMC", "ArchiveMC", "ArchiveMC5")]
MODELS = dict({p: DESIGN for p in ("C01", "C03", "C04", "C05", "C07", "C08", "C10", "C22")})
MODELS["C09"] = INDEX = [("IndexMC", "IndexMC", "IndexMC5")]
MODELS["C08"] = DESIGN + INDEX
MODELS["C11"] = MODELS["C12"] = [("CommitMC", "CommitMC", "CommitMC5")]
MODELS["C17"] = MODELS["C18"] = [("StowMC", "StowMC", "StowMC5")]
MODELS["C23"] = [("ConfigMC", "ConfigMC", "ConfigMC3")]

# thorough: this many times the jobs
THOROUGH = 8


def wants_hist(prop):
    return sum(n for f, n, p in PLAN.get(prop, ()) if f == "model")


def wants_cases(prop):
    return any(f == "damage" for f, n, p in PLAN.get(prop, ()))


def jobs(prop, tier, seed, hists, families, cases=()):
    out = []
    for x, (fam, n, p) in enumerate(PLAN[prop]):
        if fam not in families or (tier == "quick" and p.get("thorough")):
            continue
        if p.get("thorough"):
            k, p = 1, {a: b for a, b in p.items() if a != "thorough"}
        else:
            k = 1 if tier == "quick" else 2 if fam in ("huge", "vast") else THOROUGH
        each = p.get("each", (None,))
        for i, name in itertools.product(range(n * k), each):
            q = dict(p)
            if name:
                del q["each"]
                q[dict(crash="sit", kill="sit", sched="pair", fault="case")[fam]] = name
            if fam == "sched":
                q["scheds"] = schedules(q, n * k, i, seed)
            if fam == "model":
                if i >= len(hists):
                    break
                q["hist"] = hists[i]
                q["idbits"] = (128, 96, 64, 256)[i % 4]
            if fam == "damage":
                # every case is dealt out p["per"] times
                m = n * k
                q["cases"] = []
                for x2 in range(q["per"] * k):
                    l = list(cases)
                    random.Random("%s%d" % (seed, x2)).shuffle(l)
                    q["cases"] += l[i::m]
            j = dict(fam=fam, seed="%s/%d/%d/%d" % (prop, seed, x, i), p=q)
            parts = q.pop("parts", 1)
            for y in range(parts):
                out.append(j if parts == 1 else dict(j, p=dict(q, part=(y, parts))))
    # Long ones do not come last
    random.Random(seed).shuffle(out)
    out.sort(key=lambda j: -1 if j["fam"] in ("huge", "vast") else 0 if j["fam"] in ("sizes", "far", "hist", "rebuild", "damage", "sched", "fault", "bounds", "stow") else 1)
    return out

T = "TLA+ specification checked with TLC, bound to the program by trace validation"
NOTE = (T, "TLC judges every step of recorded executions of the program against spec/Archive.tla (explicit state and "
           "transition predicates), for scenarios made from seeds and from histories TLC generates out of the design model "
           "spec/ArchiveMC.tla, which itself is explored exhaustively in small scope.  Exhaustive for the models, sampled for "
           "the program; trusts the silo parser in harness/aw.py, zlib, hashlib and TLC.")
NOTES = {}
NOT_YET = {}
