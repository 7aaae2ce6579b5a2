"""C09: a layer behaves as an ordered list under every history of edits."""
from .. import hist
from ..core import Violation

ID = "C09"
RUNS = {"quick": 11000, "thorough": 250000}
LISTS = ["ops"]
RULE = ("A run draws fields and a history of 5 to 150 edits over one or two layers (growing, shrinking and mixed phases), and "
        "compares the whole observable layer with a plain list of the same nodes after every edit, or (in half of the "
        "runs) after a drawn few of them, since observing may itself hide a defect.")
NONTRIVIAL = "at least one node was removed and the layer was compacted or edited afterwards."
STATES = "distinct (operation, live node count class, gap count class before, compacted) combinations"
STUB = ["nothing: the history itself is the input; the caller's iterables, key functions and predicates are simulated"]


def gen(r, tier):
    n = r.choice([5, 10, 20, 40, 80, 150])
    return {"fields": hist.gen_fields(r), "nlayers": r.choice([1, 1, 2]), "ops": hist.gen_edits(r, n), "watch": hist.gen_watch(r)}


def slots(L):
    return (L.nodes[-1].i + 1 if L.nodes else 0)


def execute(plan, ctx):
    h = hist.Hist(ctx, plan["fields"], plan["nlayers"], plan["watch"])
    removed = 0
    for op, li, x in plan["ops"]:
        ctx.steps += 1
        L = h.layers[li % len(h.layers)]
        before, gaps = len(L.nodes), slots(L) - len(L.nodes)
        h.step(op, L, x)
        h.verify(op, x)
        after = slots(L) - len(L.nodes)
        if len(L.nodes) < before:
            removed += 1
            if gaps and not after and op in hist.SHRINKING:
                ctx.probes["compaction triggered by a removal"] += 1
        elif removed:
            ctx.nontrivial = True
        ctx.ev(op, len(L.nodes), [n.i for n in L.nodes[:6]])
        ctx.state(op, min(20, before), min(12, gaps), min(12, after))
    h.verify("the end", final=True)
