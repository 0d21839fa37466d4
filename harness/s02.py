"""S02: interrupted work is resumed, not lost or repeated."""
from symx.engine import Scenario

from . import brk

ASSUMPTIONS = [
    "process, transport, setup and repair times and the times between failures are arbitrary positive reals up to 10000",
    "after the stated number of failures no further failure occurs",
]


def with_check(build):
    def fn(ctx):
        brk.check_work(ctx, build(ctx))

    return fn


def scenarios(tier):
    q = tier == "quick"
    one = ["an operation is interrupted"]
    two = one + ["an operation is interrupted twice"]
    return [
        Scenario("one-breakdown", with_check(brk.machine(jobs=1 if q else 2, bds=((2,),))), two, bounds="1 (thorough 2) jobs, 2 breakdowns"),
        Scenario("drawn-per-operation", with_check(brk.machine(jobs=2, bds=((1,),), pt="draw", job_arrivals=[1, 1])), one, bounds="2 jobs, a fresh duration per operation, 1 breakdown"),
        Scenario("two-breakdown-states", with_check(brk.machine(jobs=1, bds=((1,), (1,)))), two, bounds="1 job, two independent breakdowns that may overlap"),
        Scenario("capacity-2", with_check(brk.machine(jobs=2, cap=2, bds=((1,),))), one, bounds="2 jobs on a machine of capacity 2"),
        Scenario("process-breakdown", with_check(brk.machine(jobs=1 if q else 2, bds=(), pbds=((1,),))), one, bounds="failure of one process"),
        Scenario("process-and-machine-breakdown", with_check(brk.machine(jobs=1, bds=((1,),), pbds=((1,),))), one, bounds="failure of the machine and of one process"),
        Scenario("from-time-zero", with_check(brk.machine(jobs=1, bds=((1 if q else 2,),), job_arrivals=[0], tt=0)), one, bounds="1 job that starts at time 0, 1 (thorough 2) breakdowns"),
        Scenario("setup-interrupted", with_check(brk.machine(jobs=1, two_procs=True, setup=True, bds=((1,),), job_arrivals=[1])), one, bounds="setup between two processes, 1 breakdown"),
        Scenario("batch", with_check(brk.machine(jobs=2, cap=2, batch=2, bds=((1,),), job_arrivals=[1, 1])), one, bounds="a batch of 2 is worked on, 1 breakdown"),
        Scenario("transport-interrupted", with_check(brk.transport(jobs=1 if q else 2, n=1)), one, bounds="transport resource breaks down once"),
        Scenario("handling-interrupted", with_check(brk.transport(jobs=1, handling=(2, 3), gaps=[1])), one, bounds="1 product, times to load and unload, the transport resource breaks down once"),
        Scenario("parallel-transports-interrupted", with_check(brk.transport(jobs=2, cap=2, gaps=[1, None], tt=4)), one, bounds="2 products on a transport resource of capacity 2, 1 breakdown"),
    ]
