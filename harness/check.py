#!/usr/bin/env python3
"""Decide one property:  check.py PROPERTY [--replay FILE]

Builds aardwarc out of /repo's working tree, model checks the specifications the property rests on,
runs scenarios on the program and lets TLC judge what was recorded against the specifications.
Exit 0: held on all of it.  Exit 1 and VIOLATION line: broken.  Anything else: no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build, jobs as J, plan, tlc

TIER = os.environ.get("VERIF_TIER", "quick")
# Past this nothing new is begun; an order of magnitude more than it takes, unless everything hangs
BUDGET = 400 if TIER == "quick" else 36000
SEED = int(os.environ.get("VERIF_SEED", "1"))


def known():
    """[(property, facet, case)] of the recorded findings"""
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) facet=<(.*?)> case=(\S+)", l)
        if m:
            out.append(m.groups())
    return out


def histories(n, scratch):
    """Histories of the design model, for replaying"""
    rc, out = tlc.run("ArchiveMC", "ArchiveHist", scratch, workers=4,
                      args=["-simulate", "num=%d" % (n * 3), "-depth", "15", "-seed", str(SEED)])
    hs, seen = [], set()
    for m in re.finditer(r'^"HIST (.*)"$', out, re.M):
        h = json.loads(m.group(1).replace('\\"', '"'))
        k = json.dumps(h[:-1])
        if k not in seen:
            seen.add(k)
            hs.append(h)
    if len(hs) < n // 2:
        raise tlc.TLCError("only %d histories:\n%s" % (len(hs), out[-2000:]))
    return hs[:n]


def model(m, scratch, res):
    """Model check a specification for its own sake"""
    module, cfg = m
    try:
        d = tempfile.mkdtemp(prefix="mc-", dir=scratch)
        rc, out = tlc.run(module, cfg, d, workers=4)
        ok = rc == 0 and "No error has been found" in out
        g, n = tlc.stats(out)
        res[m] = dict(ok=ok, transitions=g, states=n, out="" if ok else out[-3000:])
    except Exception:
        res[m] = dict(ok=False, transitions=0, states=0, out=traceback.format_exc())


def judge(results, prop, scratch):
    """-> ({job index: [facet, event, module]}, stats)"""
    bymod = {}
    for k, r in enumerate(results):
        for mod, t in r["traces"]:
            bymod.setdefault(mod, []).append((k, t))
    hits, st = {}, dict(traces=0, events=0, states=0, transitions=0, other={})
    for mod, l in sorted(bymod.items()):
        d = tempfile.mkdtemp(prefix="tc-", dir=scratch)
        v, g, n = tlc.check_traces(mod, [t for _, t in l], d)
        shutil.rmtree(d)
        st["traces"] += len(l)
        st["events"] += sum(len(t["ev"]) for _, t in l)
        st["states"] += n
        st["transitions"] += g
        for x in v:
            k, t = l[x["tr"] - 1]
            for p, facet in x["bad"]:
                if p == prop or p == "?":
                    ev = t["ev"][min(x["l"], len(t["ev"])) - 1] if t["ev"] else {}
                    hits.setdefault(k, []).append(dict(facet=facet, event=x["l"], module=mod,
                                                       ev={a: b for a, b in ev.items() if a != "d"}))
                else:
                    st["other"][p] = st["other"].get(p, 0) + 1
    return hits, st


def sample(r):
    """A case, written out"""
    out = dict(job=dict(r["job"], p={k: v for k, v in r["job"]["p"].items() if k not in ("hist", "cases")}))
    if r["traces"]:
        mod, t = r["traces"][-1]
        out["module"] = mod
        out["events"] = [json.loads(json.dumps({a: b for a, b in e.items() if a != "d"}, default=str)[:300] + '"}')
                         if len(json.dumps(e, default=str)) > 10 ** 9 else
                         {a: b for a, b in e.items() if isinstance(b, (int, bool, str)) and len(str(b)) < 70}
                         for e in t["ev"][:6]]
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    scratch = tempfile.mkdtemp(prefix="aw-verif-")
    os.chmod(scratch, 0o755)
    try:
        return decide(prop, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, replay, scratch, t0):
    J.load()
    try:
        binary = build.build(scratch)
        tools = build.tools(scratch)
    except build.BuildError as e:
        print("build failed: %s" % e)
        return 2
    models, mths = {}, []
    jobs_scratch = os.path.join(scratch, "jobs")
    os.mkdir(jobs_scratch)
    if replay:
        js = [json.load(open(replay))["job"]]
    else:
        hists = []
        n = plan.wants_hist(prop)
        if n:
            hists = histories(n if TIER == "quick" else n * plan.THOROUGH, scratch)
        cases = ()
        if plan.wants_cases(prop):
            import scen_damage
            cases = scen_damage.cases(scratch)
        js = plan.jobs(prop, TIER, SEED, hists, J.FAMILIES, cases)
        ml = [(m, q if TIER == "quick" else t) for m, q, t in plan.MODELS.get(prop, ())]

        def allmodels():
            for m in ml:
                model(m, scratch, models)
        th = threading.Thread(target=allmodels)
        th.start()
        mths.append(th)
    results = J.run_all(js, binary, jobs_scratch, tools, deadline=t0 + BUDGET)
    t1 = time.time()
    hits, st = judge(results, prop, scratch)
    for th in mths:
        th.join()
    t2 = time.time()
    print("%s: %d jobs, %d commands, %d events in %d traces; run %.1f s, judged %.1f s; models %s" %
          (prop, len(results), sum(r["ncmd"] for r in results), st["events"], st["traces"], t1 - t0, t2 - t1,
           ", ".join("%s/%s %d states" % (m[0], m[1], r["states"]) for m, r in models.items())))
    if len(results) < len(js):
        print("%d jobs not run for lack of time" % (len(js) - len(results)))
    errs = [r for r in results if r["err"]]
    # A verdict counts if it comes again
    kn = known()
    viol = []
    # (those which do not take long first)
    for k in sorted(hits, key=lambda k: (results[k]["wall"] > 10, k))[:12]:
        if viol and time.time() - t0 > BUDGET:
            break
        name = results[k]["job"]["fam"] + ":" + str(results[k]["job"]["seed"])
        fs = [h for h in hits[k] if not any(p == prop and f == h["facet"] and c == name for p, f, c in kn)]
        for h in hits[k]:
            if h not in fs:
                print("KNOWN-FINDING: property=%s %s (%s)" % (prop, h["facet"], name))
        if not fs:
            continue
        again = None
        for _ in range(3):
            if time.time() - t0 > 1.6 * BUDGET:
                break
            r = J.run_job(results[k]["job"], binary, jobs_scratch, tools)
            h2, _ = judge([r], prop, scratch)
            if set(h["facet"] for h in h2.get(0, ())) & set(h["facet"] for h in fs):
                again = h2[0]
                break
        if again is None:
            print("not repeated: %s %s" % (name, fs[0]))
            continue
        viol.append((results[k]["job"], fs))
        if len(viol) >= 3:
            break
    bad = [m for m, r in models.items() if not r["ok"]]
    if not replay:
        evidence(prop, results, st, models, viol, t0)
    if viol:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for n, (job, fs) in enumerate(viol):
            fn = os.path.join(d, "%s-%d.json" % (prop, n))
            with open(fn, "w") as f:
                json.dump(dict(property=prop, job=job, violations=fs), f, indent=1, default=str)
            for h in fs[:3]:
                print("  %s at event %d of %s:%s  %s" % (h["facet"], h["event"], job["fam"], job["seed"],
                                                        json.dumps(h["ev"], default=str)[:400]))
            print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    if bad:
        for m in bad:
            print("specification %s does not hold:\n%s" % (m, models[m]["out"]))
        return 3
    if errs:
        print("%d jobs failed, the first with:\n%s\n%s" % (len(errs), errs[0]["job"], errs[0]["err"]))
        return 4
    return 0


def evidence(prop, results, st, models, viol, t0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    fams = {}
    for r in results:
        fams[r["job"]["fam"]] = fams.get(r["job"]["fam"], 0) + 1
    rng = [r for r in results if r["traces"]]
    ev = dict(
        property=prop, tier=TIER, seed=SEED, level="model_checking",
        coverage=dict(
            states=st["states"] + sum(m["states"] for m in models.values()),
            transitions=st["transitions"] + sum(m["transitions"] for m in models.values()),
            traces_validated_against_impl=st["traces"],
            events_judged=st["events"],
            commands_run=sum(r["ncmd"] for r in results),
            scenarios=fams,
            models={"%s/%s" % m: dict(states=r["states"], transitions=r["transitions"], ok=r["ok"]) for m, r in models.items()},
            facets_of_other_properties_seen=st["other"],
            samples=[sample(r) for r in rng[:: max(1, len(rng) // 4)][:4]]),
        assumptions=["the independent silo parser (harness/aw.py) and TLC are trusted",
                     "sampled histories, not all of them; see DESIGN.md for bounds"],
        wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 5
    sys.stdout.flush()
    sys.exit(rc)
