"""Jobs: a job is a scenario family, a seed and parameters, all JSON.  Running one gives traces.

    {"fam": "hist", "seed": 17, "p": {...}}

Jobs are run in worker processes, each in a directory of its own which is removed afterwards.
"""
import importlib, json, os, random, shutil, signal, sys, tempfile, time, traceback
from concurrent.futures import CancelledError, ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from aw import Enough

FAMILIES = {}           # name -> function(ctx)
MODULES = ("scen", "scen_index", "scen_damage", "scen_conc", "scen_proto", "scen_fault", "scen_config")


def family(f):
    FAMILIES[f.__name__[4:] if f.__name__.startswith("fam_") else f.__name__] = f
    return f


class Ctx:
    """What a scenario gets to work with"""

    def __init__(self, job, binary, top, tools):
        self.job, self.bin, self.top, self.tools = job, binary, top, tools
        self.rng = random.Random(json.dumps([job["fam"], job["seed"]]))
        self.p = job.get("p", {})
        self.traces = []        # (module, trace)
        self.ncmd = 0
        self.n = 0
        self.arch = []

    def archive(self, **kw):
        from ops import Ops
        self.n += 1
        d = os.path.join(self.top, "%d" % self.n)
        os.makedirs(d)
        a = Ops(self.bin, d, **kw)
        a.tools = self.tools
        self.arch.append(a)
        return a

    def emit(self, module, trace):
        self.traces.append((module, trace))


def load():
    for m in MODULES:
        try:
            importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise


def run_job(job, binary, scratch, tools):
    """-> dict(job, traces, ncmd, err, wall)"""
    t0 = time.time()
    top = tempfile.mkdtemp(prefix="j-", dir=scratch)
    ctx = Ctx(job, binary, top, tools)
    err = None
    try:
        FAMILIES[job["fam"]](ctx)
    except Enough:
        pass
    except Exception:
        err = traceback.format_exc()
    for a in ctx.arch:
        if a.events:
            ctx.emit("ArchiveTrace", a.trace(job["fam"] + ":" + str(job["seed"])))
        ctx.ncmd += a.ncmd
    shutil.rmtree(top, ignore_errors=True)
    return dict(job=job, traces=ctx.traces, ncmd=ctx.ncmd, err=err, wall=time.time() - t0)


def _init():
    load()


def _run(a):
    return run_job(*a)


def run_all(jobs, binary, scratch, tools, workers=8, deadline=None):
    """Run all the jobs (which can be started before the deadline); results in the order of the jobs"""
    load()
    with ProcessPoolExecutor(workers, initializer=_init) as ex:
        fs = [ex.submit(_run, (j, binary, scratch, tools)) for j in jobs]
        out = []
        for f in fs:
            try:
                out.append(f.result(None if deadline is None else max(0, deadline - time.time())))
            except TimeoutError:
                # The ones running come to an end, the others are not begun
                deadline = None
                for g in fs:
                    g.cancel()
                if not f.cancelled():
                    out.append(f.result())
            except CancelledError:
                pass
        return out
