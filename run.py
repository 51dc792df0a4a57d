#!/opt/venv/bin/python
"""run.py PROP TIER | run.py --setup | run.py --replay FILE"""
import json
import os
import shutil
import signal
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
HANG_S = 200  # a single case takes well under a second; longer than this means it does not terminate


def reexec(scratch):
    """One clean environment for every run; sources come from /repo only."""
    env = dict(os.environ)
    env.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH="",
        CUDA_VISIBLE_DEVICES="",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TORCHDYNAMO_DISABLE="1",
        TORCHINDUCTOR_CACHE_DIR=os.path.join(scratch, "inductor"),
        TRITON_CACHE_DIR=os.path.join(scratch, "triton"),
        TMPDIR=scratch,
        VERIF_SCRATCH=scratch,
        GLOO_SOCKET_IFNAME="lo",
    )
    return env


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    from lib import build

    if args[0] == "--setup":
        build.ensure_built()
        print("setup: ok")
        return 0
    if "VERIF_SCRATCH" not in os.environ:
        build.ensure_built()
        scratch = tempfile.mkdtemp(prefix="verif_")
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.execve(PY, [PY, os.path.abspath(__file__)] + args, reexec(scratch))
        try:
            _, st = os.waitpid(pid, 0)
        finally:
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            shutil.rmtree(scratch, ignore_errors=True)
        return os.waitstatus_to_exitcode(st) if os.WIFEXITED(st) else 3
    return child(args)


def child(args):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.path.insert(0, "/repo")
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.WARNING)
    from lib import preimport  # noqa: F401

    if args[0] == "--replay":
        return replay(args[1])
    if args[0] == "--case":
        from lib import harness

        case = json.loads(args[2])
        k, m = harness.run_case_forked(args[1], case)
        print(k, m)
        return 0 if k == "ok" else 1
    prop, tier = args[0], (args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick"))
    return run(prop, tier)


def replay(path):
    from lib import harness

    d = json.load(open(path))
    k, m = harness.run_case_forked(d["property"], d["case"])
    print(f"{k}: {m}")
    if k in ("violation", "crash"):
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0 if k == "ok" else 2


def run(prop, tier):
    import importlib

    from lib import harness

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"checks.{prop.lower()}")
    budget = mod.BUDGET[tier]
    nsh = budget["shards"]
    scratch = os.environ["VERIF_SCRATCH"]
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    pids = {}
    for i in range(nsh):
        out = os.path.join(scratch, f"out{i}.json")
        cur = os.path.join(scratch, f"cur{i}.json")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                harness.run_shard(prop, tier, seed, i, nsh, out, cur)
            except BaseException:  # noqa: BLE001
                import traceback

                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        pids[pid] = i
    status, hung = {}, {}
    limit = budget.get("hang_s", HANG_S)
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid in pids:
            status[pids.pop(pid)] = st
            continue
        if pid == 0:
            time.sleep(0.05)
            now = time.time()
            for p, i in list(pids.items()):
                cur = os.path.join(scratch, f"cur{i}.json")
                if os.path.isfile(cur) and now - os.path.getmtime(cur) > limit and i not in hung:
                    hung[i] = json.load(open(cur))
                    os.kill(p, signal.SIGKILL)

    reports, violations, errors, crashes = [], [], [], 0
    for i in range(nsh):
        out = os.path.join(scratch, f"out{i}.json")
        cur = os.path.join(scratch, f"cur{i}.json")
        if os.path.isfile(out):
            r = json.load(open(out))
            reports.append(r)
            if r["violation"]:
                violations.append((r["violation"]["case"], r["violation"]["message"]))
            if r["error"]:
                errors.append(r["error"])
            continue
        st = status.get(i, 0)
        if i in hung:
            k, m = harness.run_case_forked(prop, hung[i], timeout=limit)
            if k == "timeout":
                violations.append((hung[i], f"the code under test did not return within {limit} s"))
            elif k in ("crash", "violation"):
                violations.append((hung[i], m))
            else:
                errors.append(f"worker {i} did not return within {limit} s, not reproduced alone ({k} {m})")
            continue
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) not in (signal.SIGKILL, signal.SIGTERM) and os.path.isfile(cur):
            case = json.load(open(cur))
            k, m = harness.run_case_forked(prop, case)
            if k in ("crash", "violation"):
                violations.append((case, m))
            elif os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                # memory corrupted by an earlier case may only show later: the crash is a violation all the same
                violations.append((case, f"the process running the code under test died with {signal.Signals(os.WTERMSIG(st)).name} on this case after earlier ones (alone: {k} {m})"))
            else:
                errors.append(f"worker {i} died with signal {os.WTERMSIG(st)} on {case}, not reproduced alone ({k} {m})")
        else:
            errors.append(f"worker {i} gave no report, status {st}")

    evals = sum(r["evaluations"] for r in reports)
    distinct = set()
    samples, events = [], {}
    for r in reports:
        distinct.update(r["nontrivial"])
        samples += r["samples"]
        for k, v in r.get("events", {}).items():
            events[k] = events.get(k, 0) + v
    violations.sort(key=lambda v: len(json.dumps(v[0])))
    replay_path = None
    if violations:
        case, msg = violations[0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        replay_path = os.path.join(rd, f"{prop}-{harness.case_key(case)}.json")
        with open(replay_path, "w") as f:
            json.dump({"property": prop, "message": msg, "case": case}, f, indent=1)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:: max(1, len(samples) // 6)][:6],
            "classes": dict(sorted(events.items())),
            "discarded": sum(r["discarded"] for r in reports),
            "shards": nsh,
            "capped_shards": sum(1 for r in reports if r["capped"]),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": len(violations),
        "violation_details": [{"replay": replay_path, "message": m, "case": c} for c, m in violations[:3]],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in known_open(prop):
        # only what this run saw: a listed finding that no longer occurs is not announced
        if any(k.startswith("known finding ") and f"[{k[14:]}]" in line for k in events):
            print("KNOWN-FINDING: " + line)
    print(f"{prop} {tier}: {evals} cases, {len(distinct)} distinct non-trivial, {ev['coverage']['discarded']} discarded, {ev['wall_s']} s")
    if violations:
        print(violations[0][1])
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1
    if errors:
        for e in errors[:1]:
            print("harness error:", e)
        return 2
    if len(distinct) < 1:
        print("harness error: no non-trivial case ran")
        return 2
    return 0


def known_open(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.isfile(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("open: ") and f"property={prop} " in line:
                out.append(line[len("open: "):])
    return out


if __name__ == "__main__":
    sys.exit(main())
