"""C17: neighbourhood attention equals dense attention restricted to the geodesic neighbourhood (self, coarse and fine outputs; both implementations)."""
from checks.attncommon import *  # noqa: F401,F403
from checks.attncommon import run

RULE = "case = grid pair (self/down/up) x cutoff x heads x channels x normalisation x scale x aliasing x implementation x threads x data; non-trivial: more than two input points, neighbourhood excludes some point or resolution changes"
BUDGET = {"quick": {"shards": 8, "examples": 390}, "thorough": {"shards": 8, "examples": 5000}}
ASSUMPTIONS = ["every output point has a neighbour", "points within 1e-6 of the neighbourhood edge are discarded", "CPU kernels"]


def strategy(tier):
    return attn_strategy(7 if tier == "quick" else 14)


def nontrivial(c):
    return c["in"][0] * c["in"][1] > 2


def check(c):
    event("up" if upsample(c) else ("self" if c["in"] == c["out"] else "down"))
    event(c["impl"])
    torch.set_num_threads(c["threads"])
    try:
        run(c, True, False)
    finally:
        torch.set_num_threads(1)
