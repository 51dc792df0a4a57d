"""C18: gradients of neighbourhood attention (inputs and every parameter) equal those of the dense definition, for both implementations."""
from checks.attncommon import *  # noqa: F401,F403
from checks.attncommon import run

RULE = "case = grid pair (self/down/up) x cutoff x heads x channels x normalisation x scale x aliasing x implementation x threads x data; non-trivial: more than two input points"
BUDGET = {"quick": {"shards": 8, "examples": 170}, "thorough": {"shards": 8, "examples": 4000}}
ASSUMPTIONS = ["every output point has a neighbour", "single-precision cases with logits above 2000 are discarded"]


def strategy(tier):
    return attn_strategy(6 if tier == "quick" else 12)


def nontrivial(c):
    return c["in"][0] * c["in"][1] > 2


def check(c):
    event("up" if upsample(c) else ("self" if c["in"] == c["out"] else "down"))
    event(c["impl"])
    torch.set_num_threads(c["threads"])
    try:
        run(c, True, True)
    finally:
        torch.set_num_threads(1)
