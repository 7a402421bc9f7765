"""Checks of the policies' computations: R01-R06."""
from __future__ import annotations

from vlib import actdrv, multidrv, poldrv, retdrv, upddrv
from vlib.checks_buf import split
from vlib.core import Ctx

LAYOUTS = [[2], [3], [2, 2], [1, 3], [3, 2], [4]]


def job_ret_random(seed, k, nops, prop):
    return [retdrv.random_trace(seed * 1000 + j, nops, prop) for j in range(k)]


def job_ret_sched(walks, seed, prop, caps):
    return [retdrv.sched_trace(w, seed * 31 + j, prop, caps) for j, w in enumerate(walks)]


def check_ret(ctx: Ctx):
    p = ctx.prop
    for lay, x, r, n in [(1, 2, 2, 4), (2, 1, 0, 4), (3, 0, 0, 3)] + ([(2, 2, 0, 6), (3, 1, 0, 4), (6, 1, 0, 5), (5, 0, 0, 4)] if ctx.thorough else []):
        ctx.model_check("MCReturns", consts={"VF_L": str(lay), "VF_X": str(x), "VF_R": str(r), "VF_N": str(n)})
    jobs = []
    for j, (lay, x) in enumerate([(1, 2), (3, 0), (2, 1)] + ([(4, 1), (3, 1), (6, 1)] if ctx.thorough else [])):
        sch = ctx.schedules("MCReturns", "MCReturnsE.cfg", consts={"VF_L": str(lay), "VF_X": str(x), "VF_R": "0", "VF_N": "3"}, max_len=40,
                            max_edges=ctx.pick(3000, 20000))
        jobs += [(q, ctx.seed * 10 + 100 * j + k, p, LAYOUTS[lay - 1]) for k, q in enumerate(split(sch, 6))]
    traces = [t for r in ctx.run_jobs(job_ret_sched, jobs, label="schedules") for t in r]
    ctx.validate("RetTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(12, 120), ctx.pick(14, 25), p) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_ret_random, jobs, label="histories") for t in r]
    ctx.validate("RetTrace", traces, label="random history")
    ctx.assumptions = ["discount factors are dyadic fractions so that the expected numbers are exact integers after scaling"]


def job_upd_random(seed, k, nops):
    return [upddrv.random_trace(seed * 1000 + j, nops) for j in range(k)]


def job_upd_sched(walks, seed):
    return [upddrv.sched_trace(w, seed * 31 + j) for j, w in enumerate(walks)]


def check_upd(ctx: Ctx):
    ctx.model_check("MCUpdate", consts={"VF_D": "3", "VF_LR": ctx.pick("2", "4")})
    sch = ctx.schedules("MCUpdate", "MCUpdateE.cfg", consts={"VF_D": ctx.pick("2", "3"), "VF_LR": "2"}, max_len=40, max_edges=ctx.pick(8000, 60000))
    jobs = [(q, ctx.seed * 10 + k) for k, q in enumerate(split(sch, 8))]
    traces = [t for r in ctx.run_jobs(job_upd_sched, jobs, label="schedules") for t in r]
    ctx.validate("UpdateTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(20, 200), ctx.pick(40, 60)) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_upd_random, jobs, label="histories") for t in r]
    ctx.validate("UpdateTrace", traces, label="random history")
    ctx.assumptions = ["the networks' outputs do not matter: recording networks report which transitions each optimisation step used"]


def job_pol_random(seed, k, nops, prop, fam):
    return [poldrv.random_trace(seed * 1000 + j, nops, prop, fam) for j in range(k)]


def job_pol_sched(walks, seed, fam, k, d):
    return [poldrv.sched_trace(w, seed * 31 + j, fam, k, d) for j, w in enumerate(walks)]


def check_target(ctx: Ctx):
    for f, k, d, n in [(0, 2, 2, 6), (0, 0, 2, 4), (0, 3, 2, 7), (1, 1, 2, 4), (2, 2, 2, 5), (3, 3, 2, 5)] + ([(0, 1, 2, 6), (1, 1, 4, 5), (2, 3, 4, 6), (3, 2, 4, 6)] if ctx.thorough else []):
        ctx.model_check("MCTarget", consts={"VF_F": str(f), "VF_K": str(k), "VF_TAU": str(d), "VF_N": str(n)})
    jobs = []
    for f, k, d in [(0, 3, 2), (0, 0, 2), (1, 1, 2), (2, 2, 2), (3, 3, 2)] + ([(0, 1, 2), (0, 2, 2), (1, 1, 4), (2, 3, 2), (3, 2, 4)] if ctx.thorough else []):
        sch = ctx.schedules("MCTarget", "MCTargetE.cfg", consts={"VF_F": str(f), "VF_K": str(k), "VF_TAU": str(d), "VF_N": "7" if k == 3 else "5"}, max_len=60, max_edges=ctx.pick(4000, 40000))
        for j, fam in enumerate(poldrv.SCHED[f]):
            if fam == "dbcq" and k == 0:
                continue
            jobs.append((sch, ctx.seed * 10 + j, fam, k, d))
    traces = [t for r in ctx.run_jobs(job_pol_sched, jobs, label="schedules") for t in r]
    ctx.validate("PolTrace", traces, label="schedule replay")
    fams = poldrv.HARD + poldrv.SOFT
    jobs = [(ctx.seed * 100 + j, ctx.pick(16, 150), ctx.pick(35, 50), "R04", f) for j, f in enumerate(fams)]
    traces = [t for r in ctx.run_jobs(job_pol_random, jobs, label="histories") for t in r]
    ctx.validate("PolTrace", traces, label="random history")
    ctx.assumptions = ["optimisers are replaced by ones that add an integer to the values they were given, so that a target network is an exact fraction"]


def check_boot(ctx: Ctx):
    ctx.model_check("MCBoot", consts={"VF_B": ctx.pick("1", "2")})
    fams = poldrv.HARD + poldrv.SOFT
    jobs = [(ctx.seed * 100 + j, ctx.pick(24, 250), ctx.pick(24, 40), "R07", f) for j, f in enumerate(fams)]
    traces = [t for r in ctx.run_jobs(job_pol_random, jobs, label="histories") for t in r]
    ctx.validate("PolTrace", traces, label="random history")
    ctx.assumptions = ["networks are replaced by small integer-valued ones, so that the expected values are exact"]


def job_act_random(seed, k, nops):
    return [actdrv.random_trace(seed * 1000 + j, nops) for j in range(k)]


def job_act_sched(walks, seed):
    return [actdrv.sched_trace(w, seed * 31 + j) for j, w in enumerate(walks)]


def check_act(ctx: Ctx):
    for r, d in [(2, 8)] + ([(3, 16), (4, 8)] if ctx.thorough else []):
        ctx.model_check("MCAction", consts={"VF_R": str(r), "VF_DEN": str(d)})
    sch = ctx.schedules("MCAction", "MCActionE.cfg", consts={"VF_R": ctx.pick("2", "3")}, max_len=40, max_edges=ctx.pick(4000, 20000))
    traces = [t for r in ctx.run_jobs(job_act_sched, [(q, ctx.seed * 10 + k) for k, q in enumerate(split(sch, 8))], label="schedules") for t in r]
    ctx.validate("ActTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(30, 250), ctx.pick(12, 20)) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_act_random, jobs, label="histories") for t in r]
    ctx.validate("ActTrace", traces, label="random history")
    if actdrv.bdq_mask_leaves():
        ctx.known.append("bdq-mask")
    ctx.assumptions = ["frequencies of random exploration are accepted within 140 of 1600 draws"]


def job_multi_random(seed, k, nops):
    return [multidrv.random_trace(seed * 1000 + j, nops) for j in range(k)]


def job_multi_sched(walks, seed, k):
    return [multidrv.sched_trace(w, seed * 31 + j, k) for j, w in enumerate(walks)]


def check_multi(ctx: Ctx):
    for k, n in [(3, 5), (2, 7)] + ([(4, 6), (3, 8)] if ctx.thorough else []):
        ctx.model_check("MCMulti", consts={"VF_K": str(k), "VF_N": str(n)})
    jobs = []
    for k, n in [(2, 4), (3, 3)] + ([(3, 5), (4, 4)] if ctx.thorough else []):
        sch = ctx.schedules("MCMulti", "MCMultiE.cfg", consts={"VF_K": str(k), "VF_N": str(n)}, max_len=30)
        jobs += [(q, ctx.seed * 10 + 100 * k + j, k) for j, q in enumerate(split(sch, 4))]
    traces = [t for r in ctx.run_jobs(job_multi_sched, jobs, label="schedules") for t in r]
    ctx.validate("MultiTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(16, 160), ctx.pick(20, 40)) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_multi_random, jobs, label="histories") for t in r]
    ctx.validate("MultiTrace", traces, label="random history")


CHECKS = {"R06": check_multi, "R05": check_act, "R01": check_ret, "R02": check_ret, "R03": check_upd, "R04": check_target, "R07": check_boot}
