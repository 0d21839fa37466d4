"""S03: nothing is worked on a resource while it is broken down."""
from symx.engine import Scenario

from . import brk

ASSUMPTIONS = [
    "process, transport, setup and repair times and the times between failures are arbitrary positive reals up to 10000",
    "after the stated number of failures no further failure occurs",
]


def with_check(build):
    def fn(ctx):
        brk.check_down(ctx, build(ctx))

    return fn


def scenarios(tier):
    q = tier == "quick"
    rep = ["a failure is repaired"]
    return [
        Scenario("one-breakdown", with_check(brk.machine(jobs=1 if q else 2, bds=((2,),))), rep, bounds="1 (thorough 2) jobs, 2 breakdowns"),
        Scenario("two-breakdown-states", with_check(brk.machine(jobs=1, bds=((1,), (1,)))), rep + ["overlapping breakdowns"], bounds="1 job, two independent breakdowns that may overlap"),
        Scenario("capacity-2", with_check(brk.machine(jobs=2, cap=2, bds=((1,),), job_arrivals=[2, 1] if q else "sym")), rep, bounds="2 jobs on a machine of capacity 2"),
        Scenario("process-breakdown", with_check(brk.machine(jobs=1, bds=(), pbds=((2,),))), rep, bounds="one process fails twice"),
        Scenario("process-and-machine-breakdown", with_check(brk.machine(jobs=1, bds=((1,),), pbds=((1,),), job_arrivals=[1] if q else "sym")), rep, bounds="failure of the machine and of one process"),
        Scenario("two-process-breakdowns", with_check(brk.machine(jobs=1, two_procs=True, setup=True, bds=(), pbds=((1,), (1,)), job_arrivals=[1])), rep, bounds="both processes fail, setups between them"),
        Scenario("setup-and-breakdown", with_check(brk.machine(jobs=1, two_procs=True, setup=True, bds=((1,),), job_arrivals=[1])), rep, bounds="setup between two processes, 1 breakdown"),
        Scenario("batch", with_check(brk.machine(jobs=2, cap=2, batch=2, bds=((1,),), job_arrivals=[1, 1])), rep, bounds="a batch of 2 is worked on, 1 breakdown"),
        Scenario("transport-breakdown", with_check(brk.transport(jobs=1 if q else 2, n=1)), rep, bounds="transport resource breaks down once"),
        Scenario("handling-interrupted", with_check(brk.transport(jobs=1, handling=(2, 3), gaps=[1])), rep, bounds="1 product, times to load and unload, the transport resource breaks down once"),
        Scenario("parallel-transports-interrupted", with_check(brk.transport(jobs=2, cap=2, gaps=[1, None], tt=4)), rep, bounds="2 products on a transport resource of capacity 2, 1 breakdown"),
    ]
