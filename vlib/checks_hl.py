"""Checks of the high-level interface (H01, H02)."""
from __future__ import annotations

from vlib.checks_buf import split
from vlib.core import Ctx


def job_sched(walks, seed):
    from vlib import hldrv
    return hldrv.schedule(walks, seed)


def job_hist(seed, n, length, joblib):
    from vlib import hldrv
    return hldrv.histories(seed, n, length, joblib)


def job_setup_sched(walks, seed):
    from vlib import setupdrv
    return setupdrv.schedule(walks, seed)


def job_setup_hist(seed, n, length, venvs):
    from vlib import setupdrv
    return setupdrv.histories(seed, n, length, venvs)


def job_setup_known():
    from vlib import setupdrv
    return setupdrv.seeded_share_envs()


def check_setup(ctx: Ctx):
    ctx.model_check("MCSetup", consts={"VF_S": "2", "VF_V": "2", "VF_B": "2", "VF_X": "3", "VF_L": str(ctx.pick(5, 6))})
    sch = ctx.schedules("MCSetup", "MCSetupE.cfg", consts={"VF_S": "2", "VF_V": "1", "VF_B": "2", "VF_X": str(ctx.pick(2, 3)), "VF_L": "99"}, max_len=24, max_edges=ctx.pick(250, None))
    jobs = [(q, ctx.seed * 10 + j) for j, q in enumerate(split(sch, 8))]
    traces = [t for r in ctx.run_jobs(job_setup_sched, jobs, label="schedules") for t in r]
    ctx.validate("SetupTrace", traces, label="schedule replay")
    venvs = [[], ["subproc"], ["shmem"], ["shmem_fork"], ["subproc_shared_mem_auto"]]
    jobs = [(ctx.seed * 100 + 13 * j, ctx.pick(26, 130), ctx.pick(12, 20), venvs[j] if j < len(venvs) else []) for j in range(ctx.pick(8, 24))]
    traces = [t for r in ctx.run_jobs(job_setup_hist, jobs, label="histories") for t in r]
    ctx.validate("SetupTrace", traces, label="random history")
    if all(ctx.run_jobs(job_setup_known, [()], label="known finding")):
        ctx.known.append("seeded-env-seeds")


def check_run(ctx: Ctx):
    for off in (0, 1):
        ctx.model_check("MCExper", consts={"VF_R": str(ctx.pick(2, 3)), "VF_W": "4", "VF_OFF": str(off)})
    jobs = []
    for off in (0, 1):
        sch = ctx.schedules("MCExper", "MCExperE.cfg", consts={"VF_R": "2", "VF_W": "9", "VF_OFF": str(off)}, max_len=30, max_edges=ctx.pick(260, None))
        jobs += [(q, ctx.seed * 10 + j) for j, q in enumerate(split(sch, 8))]
    traces = [t for r in ctx.run_jobs(job_sched, jobs, label="schedules") for t in r]
    ctx.validate("ExperTrace", traces, label="schedule replay")
    jobs = [(ctx.seed * 100 + j, ctx.pick(12, 90), ctx.pick(4, 8), 1 if j == 0 else 0) for j in range(ctx.pick(16, 32))]
    traces = [t for r in ctx.run_jobs(job_hist, jobs, label="histories") for t in r]
    ctx.validate("ExperTrace", traces, label="random history")


CHECKS = {"H01": check_setup, "H02": check_run}
