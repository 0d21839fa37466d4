from symx.engine import Scenario

from . import flow

ASSUMPTIONS = ["arrival gaps, process and transport times are arbitrary positive reals up to 10000", "no breakdowns in these systems"]


def with_check(build):
    def fn(ctx):
        flow.check_capacity(ctx, build(ctx))

    return fn


def scenarios(tier):
    q = tier == "quick"
    mc, tc = ["machine capacity is used up"], ["transport capacity is used up"]
    return [
        Scenario("capacity-1", with_check(flow.line(3, ("P1",), (1,), (0,), (0,))), mc, bounds="3 products, machine of capacity 1"),
        Scenario("capacity-2", with_check(flow.line(3, ("P1",), (2,), (0,), (0,))), mc, bounds="3 products, machine of capacity 2"),
        Scenario("two-processes", with_check(flow.shared(2, 1, cap=2, pcaps=(1, 2), gaps=((3, None), (None,)) if q else "sym", tb=4 if q else "sym")), bounds="two processes with 1 and 2 slots on a machine of capacity 2"),
        Scenario("one-slot", with_check(flow.shared(3, 1, cap=4, pcaps=(1, 4), gaps=((2, 0.25, None if not q else 0.25), (0.5,)), tb=200)), bounds="three operations of a process with one slot on a machine of capacity 4"),
        Scenario("transport-1", with_check(flow.line(2, ("P1",), (1,), (0,), (0,), tcap=1, tt="sym")), tc, bounds="2 products, transport capacity 1"),
        Scenario("transport-2", with_check(flow.line(3, ("P1",), (1,), (0,), (0,), tcap=2, times="const")), tc, bounds="3 products, transport capacity 2"),
    ]
