"""C21: results never depend on what was created, mutated or converted before (caches and shared tables are isolated between users)."""
import os
import pickle
import struct

from checks import hist
from lib.common import *  # noqa: F401,F403

RULE = "case = a history of creating modules / calling table functions (several of them differing in one argument), mutating or converting some of them, and using others; every untouched object must give the result a fresh process gives; non-trivial: a mutation followed by a use, or two configurations of one kind"
BUDGET = {"quick": {"shards": 8, "examples": 110}, "thorough": {"shards": 8, "examples": 3000}}
ASSUMPTIONS = ["pristine results come from a forked process per configuration in which nothing else ran", "private caches keyed by tensor identity are out of scope"]

_pristine = {}
_zygote = None


def _compute(key):
    try:
        with torch.no_grad():
            m, f = hist.build(key)
            out = [t.clone() for t in f(m)]
        return pickle.dumps(("ok", [(t.numpy(force=True) if not t.is_complex() else torch.view_as_real(t).numpy(force=True), t.is_complex()) for t in out]))
    except Exception as e:  # noqa: BLE001
        return pickle.dumps(("err", f"{type(e).__name__}: {e}"))


def _write(fd, b):
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b) :]


def _read(fd):
    def n(k):
        o = b""
        while len(o) < k:
            c = os.read(fd, k - len(o))
            if not c:
                raise EOFError
            o += c
        return o

    return n(struct.unpack("<q", n(8))[0])


def start(tier):
    """A process forked before anything is computed; it forks once more for every configuration asked for."""
    global _zygote
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork() == 0:
        os.close(b)
        os.close(c)
        while True:
            try:
                key = pickle.loads(_read(a))
            except EOFError:
                os._exit(0)
            pid = os.fork()
            if pid == 0:
                _write(d, _compute(key))
                os._exit(0)
            _, st_ = os.waitpid(pid, 0)
            if st_ != 0:
                _write(d, pickle.dumps(("err", f"process ended with status {st_}")))
    os.close(a)
    os.close(d)
    _zygote = (b, c)


def stop():
    for f in _zygote:
        os.close(f)


def pristine(key):
    """Result of this configuration in a process where nothing else was computed."""
    if key not in _pristine:
        _write(_zygote[0], pickle.dumps(key))
        k, v = pickle.loads(_read(_zygote[1]))
        if k == "ok":
            v = [torch.view_as_complex(torch.from_numpy(a.copy())) if cplx else torch.from_numpy(a.copy()) for a, cplx in v]
            if not all(bool(torch.isfinite(t).all()) for t in v):
                k, v = "err", "not finite"
        if len(_pristine) > 400:
            _pristine.clear()
        _pristine[key] = (k, v)
    k, v = _pristine[key]
    if k == "err":
        raise Discard(f"{key}: not a valid configuration: {v}")
    return v


@st.composite
def keys_(draw):
    """A few configurations: bases, and variations of them in one or two arguments."""
    out = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(hist.KINDS))
        dims = [len(v) for v in hist.FAM[kind].values()]
        base = [draw(st.integers(0, n - 1)) for n in dims]
        out.append([kind, base])
        for _ in range(draw(st.integers(0, 3))):
            var = list(base)
            for _ in range(draw(st.integers(1, 2))):
                j = draw(st.integers(0, len(dims) - 1))
                var[j] = draw(st.integers(0, dims[j] - 1))
            out.append([kind, var])
    return out


def strategy(tier):
    h = st.integers(0, 7)

    def ops(keys):
        key = st.sampled_from(keys)
        op = st.one_of(
            st.tuples(st.just("make"), key),
            st.tuples(st.just("make"), key),
            st.tuples(st.just("make"), key),
            st.tuples(st.just("sweep"), st.tuples(key, st.integers(0, 99)).map(list)),
            st.tuples(st.just("use"), h),
            st.tuples(st.just("mutate"), h),
            st.tuples(st.just("mutate_result"), h),
            st.tuples(st.just("convert"), h),
            st.tuples(st.just("train"), h),
            st.tuples(st.just("flood"), st.integers(0, 3)),
        ).map(list)
        return st.lists(op, min_size=3, max_size=14 if tier == "quick" else 40)

    return keys_().flatmap(ops).map(lambda o: {"ops": o})


def nontrivial(c):
    seen = False
    made = [(o[1][0], tuple(o[1][1])) for o in c["ops"] if o[0] == "make"]
    if len(set(made)) > len({k for k, _ in made}):
        return True
    if any(o[0] == "sweep" for o in c["ops"]):
        return True
    for o in c["ops"]:
        if o[0] in ("mutate", "mutate_result", "convert", "train"):
            seen = True
        elif seen and o[0] in ("use", "make"):
            return True
    return False


def compare(key, out, what):
    want = pristine(key)
    key = (key[0], hist.values(key))
    expect(len(out) == len(want), f"{what} {key}: {len(out)} results")
    for a, b in zip(out, want):
        expect(a.dtype == b.dtype, f"{what} {key}: dtype {a.dtype}, fresh process gives {b.dtype}")
        if not a.is_floating_point() and not a.is_complex():
            equal(a, b, f"{what} {key}")
        else:
            close(a, b, f"{what} {key} (against a fresh process)", 1e-12 if b.dtype in (torch.float64, torch.complex128) else 1e-5, scale=max(scale_of(b), 1e-30))


def check(c):
    live = []  # [key, module, f, dirty]
    ok = []
    for op, arg in c["ops"]:
        if op == "make":
            # invalid combinations of arguments are left out of the history
            arg = (arg[0], tuple(arg[1]))
            try:
                pristine(arg)
            except Discard:
                continue
        elif op == "sweep":
            # every value of one argument
            (kind, base), j = arg
            j %= len(base)
            for i in range(len(list(hist.FAM[kind].values())[j])):
                k = (kind, tuple(base[:j]) + (i,) + tuple(base[j + 1 :]))
                try:
                    pristine(k)
                except Discard:
                    continue
                ok.append(("visit", k))
            continue
        ok.append((op, arg))

    def use(h, what):
        with sut(f"{what} {h[0][0]} {hist.values(h[0])}"), torch.no_grad():
            out = h[2](h[1])
        if not h[3]:
            compare(h[0], out, what)
        return out

    for op, arg in ok:
        if op == "make":
            event("make " + arg[0])
            with sut(f"make {arg}"):
                m, f = hist.build(arg)
            live.append([arg, m, f, False])
            live = live[-8:]
            use(live[-1], "new")
        elif op == "visit":
            event("visit")
            with sut(f"make {arg}"):
                m, f = hist.build(arg)
            use([arg, m, f, False], "new")
        elif op == "flood":
            # push other entries through the caches
            event("flood")
            for i in range(24):
                with sut("flood"), torch.no_grad():
                    k = ("rule" if i % 2 else "lat", (i + arg, i // 4, i // 2, i // 8))
                    hist.build(k)[1](None)
                    hist.build(("basis", (i + arg, 0, 0)))[1](None)
        elif live:
            h = live[arg % len(live)]
            if h[3]:
                continue
            if op == "use":
                use(h, "use")
            elif op == "mutate_result":
                out = use(h, "use")
                with torch.no_grad():
                    for t in out:
                        if t.is_floating_point() or t.is_complex():
                            t.mul_(3).add_(1)
                        else:
                            t.zero_()
                event("mutate_result")
            elif h[1] is not None:
                event(op)
                if op == "mutate":
                    with torch.no_grad():
                        for t in list(h[1].buffers()) + list(h[1].parameters()):
                            if t.is_floating_point() or t.is_complex():
                                t.mul_(-2).add_(0.5)
                        for n, t in list(vars(h[1]).items()):
                            if isinstance(t, torch.Tensor) and (t.is_floating_point() or t.is_complex()):
                                if t.layout == torch.strided:
                                    t.mul_(-2).add_(0.5)
                                else:
                                    t._values().mul_(-2)
                    h[3] = True
                elif op == "convert":
                    with sut("convert"):
                        h[1].to(torch.float32)
                    h[3] = True
                elif op == "train" and any(True for _ in h[1].parameters()) and not h[3]:
                    with sut("training step"):
                        opt = torch.optim.SGD(h[1].parameters(), lr=0.1)
                        loss = sum((t.real if t.is_complex() else t).square().sum() for t in h[2](h[1]))
                        loss.backward()
                        opt.step()
                    h[3] = True
    # at the end everything untouched still behaves, and so do new objects of every configuration used
    for h in live:
        if not h[3]:
            use(h, "finally")
    for k in sorted({h[0] for h in live}):
        with sut(f"new {k}"):
            m, f = hist.build(k)
        use([k, m, f, False], "finally new")
