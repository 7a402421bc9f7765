"""Checks of the collectors (C01-C04): spec/Collect.tla, MCCollect.tla, CollTrace.tla."""
from __future__ import annotations

from vlib import colldrv
from vlib.checks_buf import split
from vlib.core import Ctx


def job_random(seed, k, nops, prop):
    return [colldrv.random_trace(seed * 1000 + j, nops, prop) for j in range(k)]


def job_sched(walks, seed, prop):
    return [colldrv.sched_trace(w, seed * 31 + j, prop) for j, w in enumerate(walks)]


def consts(lens, asyn, need=1, calls=2, req=3):
    return {"VF_L": str(lens), "VF_A": str(int(asyn)), "VF_W": str(need), "VF_C": str(calls), "VF_R": str(req)}


def check_coll(ctx: Ctx):
    p = ctx.prop
    asyn = p == "C04"
    models = [(1, 1, 2), (2, 1, 3), (3, 2, 3), (3, 1, 2)] if asyn else [(2, 1, 5), (3, 1, 5), (4, 1, 5), (5, 1, 6), (6, 1, 5)]
    if not ctx.thorough:
        models = models[:3]
    if ctx.thorough:
        models += [(4, 1, 3), (5, 3, 2)] if asyn else [(4, 1, 8), (5, 1, 8)]
    for le, need, req in models:
        ctx.model_check("MCCollect", consts=consts(le, asyn, need, ctx.pick(2, 2 if asyn else 3), req))
    jobs = []
    for j, (le, req) in enumerate(([(1, 2), (2, 3), (3, 2)] if asyn else [(2, 4), (3, 5), (4, 4), (5, 4), (6, 4)])[:ctx.pick(3, None)]):
        sch = ctx.schedules("MCCollect", "MCCollectE.cfg", consts=consts(le, asyn, 1, 9, req), max_len=60,
                            max_edges=ctx.pick(4000, None))
        jobs += [(q, ctx.seed * 10 + 100 * j + k, p) for k, q in enumerate(split(sch, 4))]
    traces = [t for r in ctx.run_jobs(job_sched, jobs, label="schedules") for t in r]
    ctx.validate("CollTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(14, 150), ctx.pick(14, 20), p) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_random, jobs, label="histories", timeout=400) for t in r]
    ctx.validate("CollTrace", traces, label="random history")
    ctx.assumptions = ["an episode fits into the sub-buffer of its environment (longer ones are refused with an explaining error)",
                       "the environments run in-process; how results travel from real workers is the matter of E01 and E02"]


CHECKS = {"C01": check_coll, "C02": check_coll, "C03": check_coll, "C04": check_coll}
