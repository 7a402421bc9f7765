"""Checks of the trainers and loggers: T01-T03."""
from __future__ import annotations

from vlib import traindrv
from vlib.checks_buf import split
from vlib.core import Ctx


def job_random(seed, k, nops, prop):
    return [traindrv.random_trace(seed * 1000 + j, nops, prop) for j in range(k)]


def job_sched(walks, c, seed):
    return [traindrv.sched_trace(w, c, seed * 31 + j) for j, w in enumerate(walks)]


def model_conf(kind, v, maxe, spe):
    """The configuration that MCTrainer.C describes."""
    return dict(kind=kind, max=maxe, spe=spe, spc=2, epc=0, un=1, ud=2, bs=0 if v == 3 else 2, rep=1, ept=1, test=v != 4, stop=v != 2, thr=24,
                tit=v == 1, sb=True, ck=True, trf=v != 3, tef=v != 3, score=1 if v == 3 else 0, metric=0, rows=3, nenv=1, tenv=1, cap=100,
                vbuf=False, mode=True, it=3, ie=1, iu=2, ii=1, si=2 if v == 2 else 1)


def check_train(ctx: Ctx):
    p = ctx.prop
    models = {"T01": [(0, 2, 2), (0, 3, 2), (1, 3, 2), (1, 4, 2), (2, 2, 2)], "T02": [(1, 1, 1), (0, 1, 1), (2, 1, 2), (0, 3, 2)],
              "T03": [(1, 2, 2), (0, 3, 1), (2, 3, 2)]}[p]
    if ctx.thorough:
        models = [(k, v, 2) for k in range(3) for v in range(1, 5)] + [(1, 2, 3)]
    for k, v, m in models:
        ctx.model_check("MCTrainer", consts={"VF_K": str(k), "VF_V": str(v), "VF_M": str(m)})
    jobs = []
    for j, (k, v, m, runs) in enumerate({"T01": [(0, 2, 1, 2), (1, 4, 1, 2), (2, 3, 2, 2)], "T02": [(1, 1, 1, 1), (0, 1, 1, 1), (1, 3, 2, 1)],
                                         "T03": [(0, 4, 2, 2), (2, 2, 2, 2), (1, 2, 2, 1)]}[p]):
        sch = ctx.schedules("MCTrainer", "MCTrainerE.cfg", consts={"VF_K": str(k), "VF_V": str(v), "VF_M": str(m), "VF_RUNS": str(runs)}, max_len=60,
                            max_edges=ctx.pick(2500, 30000))
        jobs += [(q, model_conf(k, v, m, 3), ctx.seed * 10 + 100 * j + i) for i, q in enumerate(split(sch, 6))]
    traces = [t for r in ctx.run_jobs(job_sched, jobs, label="schedules") for t in r]
    ctx.validate("TrainTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(16, 150), 0, p) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_random, jobs, label="histories") for t in r]
    ctx.validate("TrainTrace", traces, label="random history")
    ctx.assumptions = ["returns are multiples of 12 so that means of tests are integers"]


CHECKS = {"T01": check_train, "T02": check_train, "T03": check_train}
