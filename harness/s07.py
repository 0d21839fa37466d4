from symx.engine import Scenario

from . import flow

ASSUMPTIONS = ["arrival gaps, process and transport times are arbitrary positive reals up to 10000", "no breakdowns in these systems"]


def with_check(build, distinct=False):
    def fn(ctx):
        flow.check_flow(ctx, build(ctx), distinct)

    return fn


def scenarios(tier):
    q = tier == "quick"
    w = ["a product waits for a busy machine"]
    return [
        Scenario("line-2", with_check(flow.line(2, ("P1", "P2"), (1, 1))), w, bounds="2 products, 2 machines"),
        Scenario("capacity-2", with_check(flow.line(3, ("P1",), (2,), (0,), (0,)), True), w, bounds="3 products, machine of capacity 2, work arriving and ending at pairwise different instants"),
        Scenario("process-slots", with_check(flow.line(4, ("P1",), (6,), (0,), (0,), slots=(2,), gaps=(1, None, 3, 3)), True), w, bounds="4 products, machine of capacity 6 that offers the process twice, different instants"),
        Scenario("capacity-2-ties", with_check(flow.line(2, ("P1",), (2,), (0,), (0,))), bounds="2 products, machine of capacity 2, any instants"),
        Scenario("shared-machine", with_check(flow.shared(2, 1, gaps=((3, None), (None,)) if q else "sym", tb=4 if q else "sym")), w, bounds="two product types on one machine"),
        Scenario("one-transporter", with_check(flow.line(2, ("P1",), (1,), (0,), (0,), tcap=1, tt="sym")), bounds="2 products, one transporter of capacity 1"),
        Scenario("transporter-2", with_check(flow.line(3, ("P1",), (1,), (0,), (0,), tcap=2), True), bounds="3 products, transporter of capacity 2, requests and trips at pairwise different instants"),
    ]
