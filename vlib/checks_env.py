"""Checks of the environments (E01-E03): spec/VEnv.tla, MCVEnv.tla, VEnvTrace.tla, spec/Stats.tla ..."""
from __future__ import annotations

from vlib import envdrv, statdrv
from vlib.checks_buf import split
from vlib.core import Ctx


def job_random(seed, k, nops, kinds, asyn):
    return [envdrv.random_trace(seed * 1000 + j, nops, kinds, asyn, envdrv.FORMS[(seed + j) % len(envdrv.FORMS)]) for j in range(k)]


def job_sched(walks, seed, num, need, timed):
    return [envdrv.sched_trace(w, seed * 31 + j, num, need, timed) for j, w in enumerate(walks)]


def check_env(ctx: Ctx):
    asyn = ctx.prop == "E02"
    ws = ctx.pick([(1, 0), (2, 0), (2, 1)] if asyn else [(3, 0)], [(1, 0), (2, 0), (3, 0), (1, 1), (3, 1)])
    for w, t in ws:
        ctx.model_check("MCVEnv", consts={"VF_E": "3", "VF_W": str(w), "VF_T": str(t), "VF_N": ctx.pick("5", "6")})
    jobs = []
    for num, w, t in [(3, w, t) for w, t in ws] + ([(4, 2, 0)] if ctx.thorough else []):
        sch = ctx.schedules("MCVEnv", "MCVEnvE.cfg", consts={"VF_E": str(num), "VF_W": str(w), "VF_T": str(t), "VF_N": "99"},
                            max_len=40)
        jobs += [(p, ctx.seed * 10 + j, num, w, bool(t)) for j, p in enumerate(split(sch, 4))]
    traces = [t for r in ctx.run_jobs(job_sched, jobs, label="schedules") for t in r]
    ctx.validate("VEnvTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(14, 120), ctx.pick(40, 80), ["dummy", "script", "ray"], asyn) for j in range(ctx.pick(16, 32))]
    jobs += [(ctx.seed * 100 + 50 + j, ctx.pick(3, 20), ctx.pick(40, 80), ["subproc", "subprocsh", "shmem"], asyn)
             for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_random, jobs, label="histories", timeout=400) for t in r]
    ctx.validate("VEnvTrace", traces, label="random history")
    ctx.assumptions = ["ray is represented by an in-process model of its documented contract (actors execute calls in order, "
                       "results are copies, wait returns num_returns of the given references)",
                       "a time out of a real subprocess environment is short against the time a blocked environment takes"]


def job_stat(seed, k, nops):
    return [statdrv.random_trace(seed * 1000 + j, nops) for j in range(k)]


def job_statsched(walks, seed):
    return [statdrv.sched_trace(w, seed * 31 + j) for j, w in enumerate(walks)]


def check_stats(ctx: Ctx):
    ctx.model_check("MCStats", consts={"VF_N": ctx.pick("4", "5")})
    sch = ctx.schedules("MCStats", "MCStatsE.cfg", consts={"VF_N": "4"}, max_len=25)
    traces = [t for r in ctx.run_jobs(job_statsched, [(p, ctx.seed * 10 + j) for j, p in enumerate(split(sch, 8))], label="schedules")
              for t in r]
    ctx.validate("StatsTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(30, 300), ctx.pick(40, 60)) for j in range(ctx.pick(8, 32))]
    traces = [t for r in ctx.run_jobs(job_stat, jobs, label="histories") for t in r]
    ctx.validate("StatsTrace", traces, label="random history")
    ctx.assumptions = ["floating point results are compared to a thousandth with exact integer statistics"]


CHECKS = {"E03": check_stats, "E01": check_env, "E02": check_env}
