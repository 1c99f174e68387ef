"""Goals: a contract with the code it is about; run_goal explores every path."""
import time, traceback
from .core import *
from . import core, interp


class Goal:
    def __init__(self, name, fn, budget=60, max_paths=4000):
        self.name, self.fn, self.budget, self.max_paths = name, fn, budget, max_paths


class Enough(Exception):
    """Refuted often enough: no need to explore further."""


def run_goal(world, g, debug=False):
    t = time.time()
    ctx = Ctx(g.name, deadline=time.time() + g.budget, max_paths=g.max_paths)
    err = None

    def path(ctx):
        it = world.with_ctx(ctx)
        try:
            g.fn(ctx, it)
        except PyRaise as e:
            raise Unsupported("exception escaped from the goal: %s" % describe_exc(e.exc))
        left = ctx.state_left() + ["module state " + str(f) for _, _, f in ctx.lasting(0, world.global_ids())]
        if left:
            ctx.incomplete.append("state kept between calls: " + ", ".join(sorted(set(map(str, left)))))
        if sum(o.status == "refuted" for o in ctx.obls) >= 12:
            raise Enough()
    try:
        ctx.explore(path)
    except Enough:
        pass
    except RecursionError:
        ctx.unsupported.append("recursion")
    except Exception as e:      # an error of the verifier itself: the goal is undecided
        if debug:
            raise
        ctx.unsupported.append("verifier: %s: %s" % (type(e).__name__, str(e)[:300]))
        err = traceback.format_exc()
    ctx.unsupported += sorted(set(ctx.incomplete))
    by = {"discharged": 0, "refuted": 0, "unknown": 0, "cover": 0, "vacuous": 0}
    back = {}
    seen = {}
    refuted = []
    for o in ctx.obls:
        by[o.status] += 1
        seen.setdefault(o.name, []).append(o.status)
        if o.status == "discharged":
            back[o.info] = back.get(o.info, 0) + 1
        if o.status == "refuted" and len(refuted) < 5:
            refuted.append({"obligation": o.name, **(o.info or {})})
    unknown = sorted({o.name for o in ctx.obls if o.status == "unknown"})
    status = "proved"
    if ctx.unsupported or by["unknown"] or by["vacuous"]:
        status = "undecided"
    if by["discharged"] + by["refuted"] == 0:
        status = "undecided"
    if by["refuted"]:
        status = "refuted"
    return {"goal": g.name, "status": status, "counts": by, "backends": back, "paths": ctx.paths,
            "obligations": {k: len(v) for k, v in seen.items()}, "refuted": refuted, "unknown": unknown,
            "unsupported": ctx.unsupported[:5], "functions": sorted(ctx.functions), "trusted": sorted(ctx.trusted),
            "seconds": round(time.time() - t, 3), "solver_s": round(ctx.stats.solver_s, 3), "queries": ctx.stats.queries,
            "trace": err}


def describe_exc(e):
    if isinstance(e, SObj):
        return "%s%r" % (e.cls.name, e.attrs.get("args", ()))
    return repr(e)
