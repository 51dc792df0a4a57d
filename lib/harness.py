"""Generated-case engine shared by all checks: Hypothesis generation and shrinking over JSON cases, sharded over processes."""
import contextlib
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The code under test broke the property on this case."""


class Discard(Exception):
    """The case lies outside the property's domain (counted, never a verdict)."""


_events = {}


def event(name):
    _events[name] = _events.get(name, 0) + 1


@contextlib.contextmanager
def sut(what):
    """Runs code under test: an exception it raises on a valid input is a violation."""
    try:
        yield
    except (Violation, Discard, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc().strip().splitlines()
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:300]} [{' | '.join(t.strip() for t in tb[-6:-1])[:400]}]") from None


_known = None


def known(key):
    """Whether KNOWN_FINDINGS.txt lists an open finding with this key."""
    global _known
    if _known is None:
        p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        _known = [l for l in open(p) if l.startswith("open: ")] if os.path.isfile(p) else []
    return any(f"[{key}]" in l for l in _known)


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def must_raise(what, fn, kinds=(ValueError, RuntimeError, TypeError, AssertionError, NotImplementedError, IndexError, KeyError)):
    """fn must fail cleanly."""
    try:
        r = fn()
    except kinds:
        return
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: expected a clean rejection, got {type(e).__name__}: {str(e)[:200]}") from None
    shape = getattr(r, "shape", None)
    raise Violation(f"{what}: invalid input was accepted (result shape {tuple(shape) if shape is not None else type(r).__name__})")


def checked(mod, case):
    """mod.check, where an exception escaping from the code under test (outside an explicit sut block) is a violation too."""
    try:
        mod.check(case)
    except (Violation, Discard, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa: BLE001
        frames = traceback.extract_tb(e.__traceback__)
        if any("/repo/torch_harmonics/" in f.filename for f in frames):
            raise Violation(f"raised {type(e).__name__}: {str(e)[:300]} at {frames[-1].filename}:{frames[-1].lineno}") from None
        raise


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class _Stop(Exception):
    pass


def run_shard(prop, tier, seed, shard, nshards, out_path, cur_path):
    """Body of one forked worker: generate, check, shrink; writes its report to out_path."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis import given

    mod = importlib.import_module(f"checks.{prop.lower()}")
    budget = mod.BUDGET[tier]
    cap_s = budget.get("cap_s", 70 if tier == "quick" else 700)
    nex = budget["examples"]
    rep = {
        "evaluations": 0,
        "nontrivial": [],
        "discarded": 0,
        "samples": [],
        "violation": None,
        "error": None,
        "capped": False,
    }
    t0 = time.time()
    state = {"fail": None, "fail_t": None, "seen": set(), "sizes": None}
    shrink_s = 25 if tier == "quick" else 60

    def note_current(case):
        with open(cur_path, "w") as f:
            json.dump(case, f)

    def execute(case):
        now = time.time()
        if state["fail"] is None and now - t0 > cap_s:
            rep["capped"] = True
            return
        if state["fail_t"] is not None and now - state["fail_t"] > shrink_s:
            # out of shrink time: stop exploring, but keep raising on the recorded minimum so that it replays
            if case_key(case) != case_key(state["fail"][0]):
                return
            raise Violation(state["fail"][1])
        note_current(case)
        try:
            checked(mod, case)
        except Discard:
            if state["fail"] is None:
                rep["discarded"] += 1
            return
        except Violation as v:
            size = len(json.dumps(case))
            if state["fail"] is None:
                state["fail_t"] = time.time()
            if state["fail"] is None or size <= state["sizes"]:
                state["fail"] = (case, str(v))
                state["sizes"] = size
            rep["evaluations"] += 1
            raise
        if state["fail"] is None:
            rep["evaluations"] += 1
            if mod.nontrivial(case):
                k = case_key(case)
                if k not in state["seen"]:
                    state["seen"].add(k)
                    if len(state["seen"]) in (2, 20, 50):  # the first cases are the smallest ones
                        rep["samples"].append(case)

    def finish():
        rep["nontrivial"] = sorted(state["seen"])
        rep["events"] = dict(_events)
        rep["wall_s"] = time.time() - t0
        if state["fail"] is not None:
            rep["violation"] = {"case": state["fail"][0], "message": state["fail"][1]}
        tmp = out_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(rep, f)
        os.replace(tmp, out_path)

    try:
        if hasattr(mod, "start"):
            mod.start(tier)
        examples = list(getattr(mod, "EXAMPLES", []))
        for i, ex in enumerate(examples):
            if i % nshards == shard:
                execute(ex)
        strat = mod.strategy(tier)

        @settings(
            max_examples=nex,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )
        @hypothesis.seed(seed * 7919 + shard)
        @given(strat)
        def prop_test(case):
            execute(case)

        prop_test()
    except Violation:
        pass
    except Exception as e:  # noqa: BLE001
        name = type(e).__name__
        if state["fail"] is not None and ("Flaky" in name or "Group" in name):
            pass
        else:
            rep["error"] = traceback.format_exc()[-3000:]
    except BaseException as e:  # noqa: BLE001  (ExceptionGroup raised by Hypothesis in odd cases)
        if state["fail"] is None:
            rep["error"] = traceback.format_exc()[-3000:]
            finish()
            raise
    finally:
        with contextlib.suppress(Exception):
            if hasattr(mod, "stop"):
                mod.stop()
    finish()


def run_case_forked(prop, case, timeout=300):
    """Runs one case in a fresh forked process. Returns (kind, message): ok / violation / crash / error / timeout."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            mod = importlib.import_module(f"checks.{prop.lower()}")
            if hasattr(mod, "start"):
                mod.start("quick")
            try:
                checked(mod, case)
                msg = ["ok", ""]
            except Violation as v:
                msg = ["violation", str(v)]
            except Discard as d:
                msg = ["ok", f"discarded {d}"]
            except Exception:  # noqa: BLE001
                msg = ["error", traceback.format_exc()[-2000:]]
            if hasattr(mod, "stop"):
                with contextlib.suppress(Exception):
                    mod.stop()
            os.write(w, json.dumps(msg)[:60000].encode())
        except BaseException:  # noqa: BLE001
            code = 3
        os._exit(code)
    os.close(w)
    t0 = time.time()
    data = b""
    import select

    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "timeout", ""
        rl, _, _ = select.select([r], [], [], min(left, 1.0))
        if rl:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s in (signal.SIGKILL, signal.SIGTERM):
            return "error", f"killed by signal {s}"
        return "crash", f"process died with signal {signal.Signals(s).name}"
    if not data:
        return "error", "no report"
    k, m = json.loads(data)
    return k, m
