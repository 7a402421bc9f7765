"""Checks of the replay buffers (B01-B06, B09): spec/Buf.tla, MCBuf.tla, BufTrace.tla."""
from __future__ import annotations

from vlib import bufdrv
from vlib.core import Ctx

ALLK = ["plain", "vec", "cached"]
# property -> (bounded models, schedule models, weights of the random operations, kinds)
PLAN = {
    "B01": (["plain3:8", "vec22:5"], ["plain3", "plain2", "plain1"],
            {"add": 12, "reset": 1, "update": 2, "snap": 2, "fromdata": 0.3}, ALLK),
    "B02": (["plain2:8", "plain3:8", "vec22:5"], ["plain3", "vec22"],
            {"add": 14, "reset": 1.5, "update": 0.7}, ALLK),
    "B03": (["plain4:8", "vec31:5"], ["plain4", "vec22"],
            {"add": 8, "reset": 0.6, "update": 1, "snap": 4, "clone": 0.5, "fromdata": 0.2}, ALLK),
    "B04": (["vec22:6", "vec123:5"], ["vec22", "vec31"],
            {"add": 14, "reset": 0.6, "snap": 2, "sample": 0.5, "reject": 0.6}, ["vec", "vec", "vec", "plain"]),
    "B05": (["cached322:6", "cached43:9"], ["cached43", "cached322"],
            {"add": 14, "reset": 0.4, "snap": 2}, ["cached"]),
    "B06": (["plain4:8", "cached43:8"], ["plain3", "vec22"],
            {"add": 8, "reset": 0.4, "sample": 8, "full": 3, "stack": 3, "clone": 0.3, "update": 0.4}, ALLK),
    "B09": (["plain3:8"], ["plain3"],
            {"add": 8, "reset": 0.5, "clone": 3, "snap": 1, "fromdata": 0.5, "sample": 1, "update": 0.7}, ALLK),
}
CAPS = {"plain1": [1], "plain2": [2], "plain3": [3], "plain4": [4], "vec22": [2, 2], "vec33": [3, 3], "vec31": [3, 1],
        "vec123": [1, 2, 3], "cached322": [3, 2, 2], "cached43": [4, 3]}


def kind_of(cfg):
    return "plain" if cfg.startswith("plain") else "vec" if cfg.startswith("vec") else "cached"


def job_random(seed, k, nops, weights, kinds):
    return [bufdrv.random_trace(seed * 1000 + j, nops, weights, kinds) for j in range(k)]


def job_sched(walks, cfg, seed):
    return bufdrv.replay_schedules(walks, kind_of(cfg), CAPS[cfg], seed, snap_every=2)


def split(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def check(ctx: Ctx):
    models, scheds, weights, kinds = PLAN[ctx.prop]
    for m in models:
        cfg, n = m.split(":")
        ctx.model_check("MCBuf", consts={"VF_CFG": cfg, "VF_N": str(int(n) + ctx.pick(0, 2)), "VF_L": "9"})
    jobs = []
    for cfg in scheds:
        w = ctx.schedules("MCBuf", "MCBufE.cfg", consts={"VF_CFG": cfg, "VF_N": "1000", "VF_L": ctx.pick("3", "5")},
                          max_edges=ctx.pick(1500, 20000))
        jobs += [(p, cfg, ctx.seed) for p in split(w, 8)]
    traces = [t for r in ctx.run_jobs(job_sched, jobs, label="schedules") for t in r]
    ctx.validate("BufTrace", traces, label="schedule replay")
    k = ctx.pick(12, 120)
    jobs = [(ctx.seed * 100 + j, k, ctx.pick(60, 150), weights, kinds) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_random, jobs, label="histories") for t in r]
    for part in split(traces, ctx.pick(1, 8)):
        ctx.validate("BufTrace", part, label="random history")
    ctx.assumptions = [
        "the fields of one added batch have the same layout in every add (only the presence of info/policy entries varies)",
        "no buffer id occurs twice in one add",
    ]


CHECKS = dict.fromkeys(PLAN, check)


# ------------------------------------------------------------------ prioritised replay
def job_prio(seed, k, nops):
    from vlib import priodrv
    return [priodrv.random_trace(seed * 1000 + j, nops) for j in range(k)] + [
        priodrv.tree_trace(seed * 1000 + j, 12) for j in range(k // 2)]


def job_prio_sched(walks, cfg, seed):
    from vlib import priodrv
    return [priodrv.sched_trace(w, kind_of(cfg), CAPS[cfg], seed * 31 + j) for j, w in enumerate(walks)]


def check_prio(ctx: Ctx):
    ctx.model_check("MCSegTree", consts={"VF_N": ctx.pick("5", "7"), "VF_V": "2" if not ctx.thorough else "2"})
    for cfg, n, w in [("plain2", 5, 3), ("plain3", 4, 2), ("vec22", 4, 2)]:
        ctx.model_check("MCPrio", consts={"VF_CFG": cfg, "VF_N": str(n + ctx.pick(0, 1)), "VF_W": str(w)})
    jobs = []
    for cfg, w in [("plain2", "3"), ("vec22", "2")]:
        ws = ctx.schedules("MCPrio", "MCPrioE.cfg", consts={"VF_CFG": cfg, "VF_N": "1000", "VF_W": w},
                           max_edges=ctx.pick(1500, 100000))
        jobs += [(p, cfg, ctx.seed) for p in split(ws, 4)]
    traces = [t for r in ctx.run_jobs(job_prio_sched, jobs, label="schedules") for t in r]
    ctx.validate("PrioTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(20, 200), ctx.pick(60, 150)) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_prio, jobs, label="histories") for t in r]
    for part in split(traces, ctx.pick(1, 8)):
        ctx.validate("PrioTrace", part, label="random history")
    ctx.assumptions = ["priorities are small integers, so that all sums are exact",
                       "the distribution of draws is tested with six standard deviations"]


CHECKS["B07"] = check_prio


# ------------------------------------------------------------------ hindsight replay
def job_her(seed, k, nops):
    from vlib import herdrv
    return [herdrv.random_trace(seed * 1000 + j, nops) for j in range(k)]


def job_her_sched(walks, cap, ign, seed):
    from vlib import herdrv
    return [herdrv.sched_trace(w, cap, ign, seed * 31 + j) for j, w in enumerate(walks)]


def check_her(ctx: Ctx):
    for c, n, ign in [(3, 6, 0), (3, 6, 1)] + ([(4, 6, 0), (4, 6, 1)] if ctx.thorough else []):
        ctx.model_check("MCHer", consts={"VF_C": str(c), "VF_N": str(n), "VF_IGN": str(ign)}, timeout=800)
    jobs = []
    for c, ign in [(3, 0), (3, 1)] + ([(4, 0), (4, 1)] if ctx.thorough else []):
        ws = ctx.schedules("MCHer", "MCHerE.cfg", consts={"VF_C": str(c), "VF_N": "1000", "VF_IGN": str(ign)})
        jobs += [(p, c, ign, ctx.seed * 10 + q) for p in split(ws, 4) for q in range(3)]
    traces = [t for r in ctx.run_jobs(job_her_sched, jobs, label="schedules") for t in r]
    ctx.validate("HerTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(20, 250), ctx.pick(50, 120)) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_her, jobs, label="histories") for t in r]
    for part in split(traces, ctx.pick(1, 8)):
        ctx.validate("HerTrace", part, label="random history")
    ctx.assumptions = ["the horizon is at least the length of every stored part of an episode (as its documentation demands)"]


CHECKS["B08"] = check_her


def job_convert(seed, k):
    return [bufdrv.convert_trace(seed * 1000 + j, 25) for j in range(k)]


def job_prio_clone(seed, k, nops):
    from vlib import priodrv
    return [priodrv.random_trace(seed * 1000 + j, nops, 6.0) for j in range(k)]


def check_copies(ctx: Ctx):
    check(ctx)
    n = ctx.pick(8, 16)
    traces = [t for r in ctx.run_jobs(job_convert, [(ctx.seed * 100 + j, ctx.pick(5, 60)) for j in range(n)], label="conversion") for t in r]
    ctx.validate("BufTrace", traces, label="conversion")
    traces = [t for r in ctx.run_jobs(job_prio_clone, [(ctx.seed * 77 + j, ctx.pick(8, 60), 60) for j in range(n)],
                                      label="prioritised copies") for t in r]
    ctx.validate("PrioTrace", traces, label="prioritised copies")
    traces = [t for r in ctx.run_jobs(job_her, [(ctx.seed * 78 + j, ctx.pick(6, 60), 60) for j in range(n)],
                                      label="hindsight copies") for t in r]
    ctx.validate("HerTrace", traces, label="hindsight copies")


CHECKS["B09"] = check_copies
