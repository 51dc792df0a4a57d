"""C16: global spherical attention equals quadrature-weighted softmax attention, with its gradients."""
from checks.attncommon import *  # noqa: F401,F403
from checks.attncommon import run

RULE = "case = grid pair x heads x channels x normalisation x scale x aliasing of inputs x dropout x data; non-trivial: more than one input point and more than one head or channel"
BUDGET = {"quick": {"shards": 8, "examples": 900}, "thorough": {"shards": 8, "examples": 5000}}
ASSUMPTIONS = ["grids with a non-positive quadrature weight are not generated"]


def strategy(tier):
    @st.composite
    def s(draw):
        c = draw(attn_strategy(7 if tier == "quick" else 14, upsample_ok=False))
        # evaluation mode ignores dropout; training mode drops attention weights
        c["drop"] = draw(st.sampled_from([0.0, 0.0, 0.0, 0.3, 0.8]))
        c["train"] = draw(st.sampled_from([False, False, True]))
        return c

    return s()


def nontrivial(c):
    return c["in"][0] * c["in"][1] > 1 and c["ci"] * c["heads"] > 1


def training(c):
    """With unit values and projections the output is the matrix of attention weights: each is zero or that of evaluation mode / (1 - rate)."""
    import torch_harmonics as th

    N, h, p = c["in"][0] * c["in"][1], c["heads"], c["drop"]
    if N > 40 or bool((A.quad(c["in"], c["grid_in"]) <= 0).any()):
        raise Discard("too many points for the explicit attention matrix, or a non-positive quadrature weight")
    event("dropout in training")
    torch.manual_seed(c["seed"])
    with sut("AttentionS2 with dropout"):
        m = th.AttentionS2(N, h, tuple(c["in"]), tuple(c["out"]), grid_in=c["grid_in"], grid_out=c["grid_out"], bias=False, k_channels=2 * h, out_channels=N * h, drop_rate=p)
    with torch.no_grad():
        m.v_weights.copy_(torch.eye(N).repeat(h, 1)[:, :, None, None])
        m.proj_weights.copy_(torch.eye(N * h)[:, :, None, None])
    q, k = field([c["B"], N] + c["out"], c["seed"], dtype=torch.float32), field([c["B"], N] + c["in"], c["seed"] + 1, dtype=torch.float32)
    v = torch.eye(N).reshape(1, N, *c["in"]).expand(c["B"], -1, -1, -1).contiguous()
    with sut("forward"), torch.no_grad():
        w = m.eval()(q, k, v)
        m.train()
        torch.manual_seed(c["seed"])
        y = m(q, k, v)
        y2 = m(q, k, v)
        torch.manual_seed(c["seed"])
        y3 = m(q, k, v)
    expect(torch.equal(y, y3), "dropout is not reproducible from the global seed")
    kept = y != 0
    close(torch.where(kept, y * (1 - p), 0.0), torch.where(kept, w, 0.0), "kept attention weight", 1e-4, scale=1.0)
    sure = w > 1e-6
    n = int(sure.sum())
    rate = float((~kept & sure).sum()) / max(n, 1)
    expect(abs(rate - p) <= 6 * math.sqrt(p * (1 - p) / max(n, 1)) + 1e-9, f"{rate:.3f} of {n} attention weights were dropped, rate {p}")
    if n > 200:
        expect(not torch.equal(y, y2), "two training passes drop the same weights")


def check(c):
    event(f"heads{c['heads']}")
    event("qknorm" if c["qknorm"] else "plain")
    if c["drop"] and c["train"]:
        training(c)
    else:
        event("dropout in evaluation" if c["drop"] else "no dropout")
        run(c, False, True)
