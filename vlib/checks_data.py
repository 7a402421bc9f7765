"""Check of the batch algebra (D01): spec/BatchAlg.tla, MCBatch.tla, BatchTrace.tla."""
from __future__ import annotations

from vlib import batchdrv
from vlib.checks_buf import split
from vlib.core import Ctx


def job_random(seed, k, nops):
    return [batchdrv.random_trace(seed * 1000 + j, nops) for j in range(k)]


def job_sched(walks, seed):
    return [batchdrv.sched_trace(w, seed * 31 + j) for j, w in enumerate(walks)]


def check(ctx: Ctx):
    ctx.model_check("MCBatch", consts={"VF_R": ctx.pick("3", "4"), "VF_N": "4"})
    ws = ctx.schedules("MCBatch", "MCBatchE.cfg", consts={"VF_R": "3", "VF_N": "1000"}, max_edges=ctx.pick(2500, 100000))
    traces = [t for r in ctx.run_jobs(job_sched, [(p, ctx.seed * 10 + j) for j, p in enumerate(split(ws, 8))], label="schedules") for t in r]
    ctx.validate("BatchTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(25, 250), 60) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_random, jobs, label="histories") for t in r]
    for part in split(traces, ctx.pick(1, 8)):
        ctx.validate("BatchTrace", part, label="random history")
    ctx.assumptions = ["entries of one path have the same kind and inner shape in all batches that are joined",
                       "rows are integers, strings or null, all elements of a row being alike"]


CHECKS = {"D01": check}
