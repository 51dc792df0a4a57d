"""C36: the example datasets: downloads are complete or rejected whatever interrupts them, extraction stays in its folder, stored samples and statistics are those of the data."""
import contextlib
import hashlib
import io
import os
import shutil
import tarfile
import tempfile

import numpy as np
from hypothesis import strategies as st

from lib import standins as S
from lib.common import seeds
from lib.harness import Violation, event, expect, known, sut

RULE = "case = a download history (server behaviour and interruptions per attempt), an archive with ordinary and hostile members, or a small image set with labels and depths; non-trivial: at least one interruption, one hostile member, or two images"
BUDGET = {"quick": {"shards": 8, "examples": 500}, "thorough": {"shards": 8, "examples": 8000}}
ASSUMPTIONS = [
    "requests, tqdm, h5py and PIL are not installed: stand-ins (lib/standins.py) serve bytes, arrays and images in memory; image resizing is not exercised",
    "hostile archive members can only reach into the scratch directory the case creates",
    "the standard deviation may be normalised by the number of images or by one less",
]


def start(tier):
    S.install()


def strategy(tier):
    attempt = st.fixed_dictionaries({"range": st.booleans(), "cut": st.integers(0, 12000), "refuse": st.integers(0, 9).map(lambda i: i == 0), "status": st.sampled_from([None] * 8 + [404, 503])})
    member = st.fixed_dictionaries(
        {
            "type": st.sampled_from(["file", "file", "file", "dir", "sym", "link"]),
            "up": st.integers(0, 3),
            "name": st.sampled_from(["a", "b", "sub/c", "sub", "s", "s/d"]),
            "abs": st.integers(0, 7).map(lambda i: i == 0),
            "to": st.tuples(st.integers(0, 3), st.sampled_from(["a", "victim", "sub", ""])),
        }
    )
    return st.one_of(
        st.fixed_dictionaries(
            {
                "what": st.just("download"),
                "sizes": st.lists(st.integers(0, 9000), min_size=1, max_size=3),
                "attempts": st.lists(attempt, max_size=5),
                "sums": st.sampled_from(["right", "right", "right", "wrong", "none", "unknown"]),
                "seed": seeds(),
            }
        ),
        st.fixed_dictionaries(
            {
                "what": st.just("mola"),
                "size": st.tuples(st.integers(1, 9), st.integers(1, 12)),
                "to": st.one_of(st.none(), st.tuples(st.integers(1, 12), st.integers(1, 16))),
                "attempts": st.lists(st.tuples(st.sampled_from(["reset", "short", "interrupt", "refused"]), st.integers(0, 200)), max_size=3),
                "after": st.integers(1, 3),
                "default": st.booleans(),
                "seed": seeds(),
            }
        ),
        st.fixed_dictionaries({"what": st.just("tar"), "members": st.lists(member, min_size=1, max_size=5), "seed": seeds()}),
        st.fixed_dictionaries(
            {
                "what": st.sampled_from(["convert", "convert", "stats"]),
                "n": st.integers(1, 4),
                "nlat": st.integers(2, 7),
                "nlon": st.integers(2, 8),
                "alpha": st.booleans(),
                "keep_alpha": st.booleans(),
                "classes": st.integers(1, 4),
                "areas": st.integers(1, 3),
                "polar": st.sampled_from([0.0, 0.0, 0.2, 0.4, 0.5]),
                "log": st.booleans(),
                "normalize": st.booleans(),
                "order": seeds(),
                "seed": seeds(),
            }
        ),
    )


def nontrivial(c):
    if c["what"] in ("download", "mola"):
        return len(c["attempts"]) > 0
    if c["what"] == "tar":
        return any(m["up"] or m["abs"] or m["type"] in ("sym", "link") for m in c["members"])
    return c["n"] > 1


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c36_")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(c):
    event(c["what"])
    with scratch() as d:
        {"download": download, "tar": tar, "convert": convert, "stats": stats, "mola": mola}[c["what"]](c, d)


def _archive(entries):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w") as t:
        for name, kind, data, link in entries:
            i = tarfile.TarInfo(name)
            i.type = {"file": tarfile.REGTYPE, "dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "link": tarfile.LNKTYPE}[kind]
            i.mode = 0o755 if kind == "dir" else 0o644
            i.linkname = link or ""
            i.size = len(data) if kind == "file" else 0
            t.addfile(i, io.BytesIO(data) if kind == "file" else None)
    return b.getvalue()


def _tree(root, skip=()):
    r = {}
    for dp, dn, fn in os.walk(root, followlinks=False):
        for n in dn + fn:
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, root)
            if any(rel == s or rel.startswith(s + os.sep) for s in skip):
                continue
            if os.path.islink(p):
                r[rel] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                r[rel] = ("dir",)
            else:
                with open(p, "rb") as f:
                    r[rel] = ("file", f.read(), os.stat(p).st_nlink)
    return r


def _downloader(d, sums):
    from torch_harmonics.examples import Stanford2D3DSDownloader as T

    return T(base_url="http://server/base", local_dir=d, checksums=sums)


def download(c, d):
    rng = np.random.default_rng(c["seed"])
    files = {f"area/pano/f{i}": rng.integers(0, 256, n, dtype=np.uint8).tobytes() for i, n in enumerate(c["sizes"])}
    data = _archive([("area", "dir", b"", None)] + [(n, "file", b, None) for n, b in files.items()])
    good = hashlib.sha256(data).hexdigest()
    sums = {"right": {"area.tar": good}, "wrong": {"area.tar": hashlib.sha256(b"x" + data).hexdigest()}, "none": None, "unknown": {"other.tar": good}}[c["sums"]]
    S.SERVER = S.Server()
    S.SERVER.files = {"area.tar": data}
    S.SERVER.json = ["wall_1"]
    loc = os.path.join(d, "data")
    pairs = [("area.tar", "area")]

    def complete():
        return {k: v[1] for k, v in _tree(loc).items() if v[0] == "file" and k.startswith("area" + os.sep)} == files

    stuck = False
    for a in list(c["attempts"]) + [None]:
        part = os.path.join(loc, "area.part")
        stuck = stuck or (os.path.exists(part) and os.path.getsize(part) >= len(data))
        S.SERVER.plans = [a] if a else []
        try:
            folders, labels = _downloader(loc, sums).download_dataset(pairs)  # a new process each time
        except Exception as e:  # noqa: BLE001
            expect(not os.path.isdir(os.path.join(loc, "area")) or complete(), f"a failed attempt ({type(e).__name__}) left a partial folder that later runs take for the dataset")
            if c["sums"] == "wrong" and isinstance(e, RuntimeError):
                return event("rejected")
            if a is None:
                if stuck and known("resume-complete"):
                    return event("known finding resume-complete")
                raise Violation(f"an undisturbed attempt after {len(c['attempts'])} interrupted ones fails: {type(e).__name__}: {e}")
            continue
        expect(c["sums"] != "wrong", "an archive with the wrong checksum was accepted")
        expect(folders == ["area"] and labels == ["wall_1"], f"returned {folders} {labels}")
        expect(complete(), "the extracted files differ from the archive")
        expect(not os.path.exists(os.path.join(loc, "area.tar")), "the archive was left behind")
        return event("complete")


def _bilinear(a, n, m):
    """half-pixel centres, edges continued"""

    def axis(src, dst):
        x = np.clip((np.arange(dst) + 0.5) * src / dst - 0.5, 0, src - 1)
        i = np.minimum(x.astype(int), max(0, src - 2))
        w = np.zeros((dst, src))
        w[np.arange(dst), i] += 1 - (x - i)
        if src > 1:
            w[np.arange(dst), i + 1] += x - i
        return w

    return axis(a.shape[0], n) @ a @ axis(a.shape[1], m).T


def mola(c, d):
    import http.client
    import urllib.error
    import urllib.request

    from torch_harmonics.utils import load_mola_elevation

    img = np.random.default_rng(c["seed"]).integers(0, 256, c["size"], dtype=np.uint8)
    b = io.BytesIO()
    np.save(b, img)
    data = b.getvalue()
    ref = img / 255.0 if c["to"] is None else _bilinear(img / 255.0, *c["to"])
    kw = {} if c["default"] else {"cache_dir": os.path.join(d, "cache")}
    os.makedirs(os.path.join(d, "cache"))
    if c["to"] is not None:
        kw.update(nlat=c["to"][0], nlon=c["to"][1])
    state = {"n": 0, "plan": None}

    def urlopen(*a, **k):
        state["n"] += 1
        if state["plan"] is None:
            return S.UrlResponse(data, None, None)
        how, cut = state["plan"]
        if how == "refused":
            raise urllib.error.URLError("refused")
        err = {"reset": ConnectionResetError("reset"), "short": http.client.IncompleteRead(data[:cut], len(data) - cut), "interrupt": KeyboardInterrupt()}[how]
        return S.UrlResponse(data, min(cut, len(data) - 1), err)

    def call(what):
        with sut(what):
            y = load_mola_elevation(**kw)
        expect(tuple(y.shape) == ref.shape, f"{what}: shape {tuple(y.shape)}, expected {ref.shape}")
        expect(float(np.abs(y.numpy() - ref).max()) <= 1e-5, f"{what}: not the elevation of the image")

    keep, tmp = urllib.request.urlopen, tempfile.tempdir
    urllib.request.urlopen = urlopen
    tempfile.tempdir = os.path.join(d, "cache")
    try:
        for a in c["attempts"]:
            state["plan"] = a
            try:
                load_mola_elevation(**kw)
            except (OSError, http.client.HTTPException, KeyboardInterrupt):
                event("interrupted")
                continue
            except Exception as e:  # noqa: BLE001
                raise Violation(f"an interrupted download ends in {type(e).__name__}: {e}")
            raise Violation("an interrupted download returned data")
        state["plan"], state["n"] = None, 0
        for i in range(c["after"]):
            call("an undisturbed call after %d interrupted downloads" % len(c["attempts"]) if i == 0 else "a later call")
        expect(state["n"] == 1, f"{c['after']} calls downloaded the image {state['n']} times")
        expect(sorted(os.listdir(d)) == ["cache"], f"files outside the cache folder: {sorted(os.listdir(d))}")
    finally:
        urllib.request.urlopen, tempfile.tempdir = keep, tmp


def tar(c, d):
    loc = os.path.join(d, "x", "y", "z", "data")  # three levels up are still in the scratch directory
    os.makedirs(loc)
    for p in (d, os.path.join(d, "x"), os.path.join(d, "x", "y"), os.path.join(d, "x", "y", "z")):
        with open(os.path.join(p, "victim"), "w") as f:
            f.write("untouched")
    entries = [("area", "dir", b"", None)]
    for i, m in enumerate(c["members"]):
        name = (os.path.join(d, "abs") + "/" if m["abs"] else "area/" + "../" * (m["up"] + (1 if m["up"] else 0))) + m["name"]
        link = "../" * m["to"][0] + m["to"][1] or "."
        if m["type"] == "link":
            link = "area/" + link
        entries.append((name, m["type"], b"data%d" % i, link))
    data = _archive(entries)
    S.SERVER = S.Server()
    S.SERVER.files = {"area.tar": data}
    S.SERVER.json = []
    before = _tree(d, skip=[os.path.join("x", "y", "z", "data")])
    try:
        _downloader(loc, None).download_dataset([("area.tar", "area")])
        event("extracted")
    except Exception:  # noqa: BLE001
        event("refused")
    after = _tree(d, skip=[os.path.join("x", "y", "z", "data")])
    expect(before == after, f"extraction changed {sorted(set(before.items()) ^ set(after.items()))[:3]} outside its folder")
    root = os.path.realpath(loc)
    for rel, v in _tree(loc).items():
        if v[0] == "link":
            t = os.path.realpath(os.path.join(loc, rel))
            expect(t == root or t.startswith(root + os.sep), f"extraction left a link {rel} -> {v[1]} that leads outside")


def _quad(nlat, nlon):
    from lib import oracles

    w = oracles.nodes(nlat, "equiangular")[1].numpy()
    return np.tile((w / w.sum() / nlon)[:, None], (1, nlon))


def _close(got, want, what, tol=2e-5):
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    expect(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    s = max(float(np.abs(want).max(initial=0.0)), 1e-3)
    expect(bool(np.all(np.abs(got - want) <= tol * s)), f"{what}: {got.reshape(-1)[:4]}, expected {want.reshape(-1)[:4]}")


def _images(c):
    rng = np.random.default_rng(c["seed"])
    H, W = c["nlat"], c["nlon"]
    names = [f"{['wall', 'door', 'clutter', 'beam'][k]}_{j}" for k in range(c["classes"]) for j in range(2)]
    r = []
    for i in range(c["n"]):
        lvl = rng.integers(40, 256)  # images of different brightness
        rgb = rng.integers(0, lvl, (H, W, 4 if c["alpha"] else 3), dtype=np.uint8)
        lab = rng.integers(0, len(names), (H, W))
        sem = np.stack([lab // 65536, lab // 256 % 256, lab % 256], -1).astype(np.uint8)
        dep = rng.integers(0, int(rng.integers(2, 65536)), (H, W)).astype(np.int32)
        r.append((f"area_{1 + i % c['areas']}", f"camera_{i}_room", rgb, sem, lab, dep))
    return names, r


def convert(c, d):
    from torch_harmonics.examples import StanfordDepthDataset, StanfordSegmentationDataset

    names, imgs = _images(c)
    classes = sorted({n.split("_")[0] for n in names})
    by = {}
    for area, stem, rgb, sem, lab, dep in imgs:
        for sub, suffix, a in (("rgb", "rgb", rgb), ("semantic", "semantic", sem), ("depth", "depth", dep)):
            p = os.path.join(d, area, "pano", sub)
            os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, f"{stem}_{suffix}.png"), "wb") as f:
                np.save(f, a)
        by[os.path.join(d, area, "pano", "rgb", f"{stem}_rgb.png")] = (rgb, lab, dep)
    # an image without labels is left out
    with open(os.path.join(d, imgs[0][0], "pano", "rgb", "camera_x_room_rgb.png"), "wb") as f:
        np.save(f, imgs[0][2])
    keep = c["keep_alpha"]
    with sut("convert_dataset"):
        p = _downloader(d, None).convert_dataset(sorted({i[0] for i in imgs}), names, downsampling_factor=1, remove_alpha_channel=not keep)
        seg, dpt = StanfordSegmentationDataset(p, exclude_polar_fraction=c["polar"]), StanfordDepthDataset(p, log_depth=c["log"], exclude_polar_fraction=c["polar"])
    expect(len(seg) == c["n"] == len(dpt), f"{len(seg)} samples, expected {c['n']}")
    expect(seg.class_labels == classes, f"classes {seg.class_labels}")
    H, W = c["nlat"], c["nlon"]
    expect(tuple(seg.input_shape) == (3, H, W) and tuple(seg.target_shape) == (H, W) and tuple(dpt.target_shape) == (H, W), "declared shapes")
    hcut = int(c["polar"] * H)
    all_rgb, all_sem, all_dep = [], [], []
    used = set()
    for i in range(c["n"]):
        path = seg.get_img_filepath(i)
        path = path.decode() if isinstance(path, bytes) else path
        expect(path in by and path not in used, f"sample {i} names {path}")
        used.add(path)
        rgb, lab, dep = by[path]
        x = rgb.astype(np.float64)
        if c["alpha"] and not keep:
            a = x[..., 3:] / 255
            x = np.round(x[..., :3] * a + 255 * (1 - a))
        sem = np.array([classes.index(names[k].split("_")[0]) for k in lab.reshape(-1)]).reshape(H, W)
        full = np.moveaxis(x / 255.0, -1, 0)
        all_rgb.append(full)
        all_sem.append(sem)
        all_dep.append(dep.astype(np.float64))
        with sut("segmentation sample"):
            a, t = seg[i]
        _close(a, full[:3], f"image {i}")
        want = sem.copy()
        if hcut:
            want[:hcut] = -100
            want[H - hcut :] = -100
        expect(np.array_equal(t, want), f"labels of sample {i}")
        with sut("depth sample"):
            a, t = dpt[i]
        _close(a, full[:3], f"image {i} of the depth dataset")
        z = dep / 65536.0
        z = z * (z != z.max())
        if hcut:
            z[:hcut] = 0
            z[H - hcut :] = 0
        _close(t, np.log(1 + z) if c["log"] else z, f"depth of sample {i}")
    with sut("reset"):
        seg.reset()
        again = seg[c["n"] - 1]
    _close(again[0], all_rgb[-1][:3], "image after reset")
    q = _quad(H, W)
    X, Z = np.stack(all_rgb), np.stack(all_dep)
    _close(seg.min, X.min((0, 2, 3)), "min_rgb")
    _close(dpt.min_out, Z.min(), "min_depth")
    _close(seg.mean, (X * q).sum((2, 3)).mean(0), "mean_rgb")
    _close(dpt.mean_out, (Z * q).sum((1, 2)).mean(), "mean_depth")
    _close(dpt.mean_in, seg.mean, "mean of the depth dataset's input")
    hist = np.array([np.mean([(q * (s == k)).sum() for s in all_sem]) for k in range(len(classes))])
    _close(seg.class_histogram, hist / hist.sum(), "class histogram")
    _or_known(
        lambda: (_close(seg.max, X.max((0, 2, 3)), "max_rgb"), _close(dpt.max_out, Z.max(), "max_depth")),
        lambda: (_close(seg.max, X.max((2, 3)).min(0), "max_rgb"), _close(dpt.max_out, Z.max((1, 2)).min(), "max_depth")),
        c["n"] > 1,
        "convert-max",
    )
    n = c["n"]
    mx, mz = (X * q).sum((2, 3)), (Z * q).sum((1, 2))
    within, between = ((X - mx[:, :, None, None]) ** 2 * q).sum((2, 3)), ((mx - mx.mean(0)) ** 2).sum(0)
    vz = (((Z - mz[:, None, None]) ** 2 * q).sum((1, 2)) + (mz - mz.mean()) ** 2).sum()

    def std():
        for got, v, what in ((seg.std, within.sum(0) + between, "std_rgb"), (dpt.std_out, vz, "std_depth")):
            try:
                _close(got, np.sqrt(v / n), what, 1e-3)
            except Violation:
                if n == 1:
                    raise
                _close(got, np.sqrt(v / (n - 1)), what, 1e-3)

    def std_defect():  # the squared deviations of all channels together; one image divides by zero
        if n == 1:
            expect(np.shape(seg.std) == () and not np.isfinite(seg.std) and not np.isfinite(dpt.std_out), f"std {seg.std} {dpt.std_out} of one image")
            return
        _close(seg.std, np.sqrt((within.sum() + between) / (n - 1)), "std_rgb", 1e-3)
        _close(dpt.std_out, np.sqrt(vz / (n - 1)), "std_depth", 1e-3)

    _or_known(std, std_defect, True, "convert-std")


def _or_known(right, defect, applies, key):
    """The right value, or exactly the listed finding's."""
    try:
        right()
    except Violation:
        if not (applies and known(key)):
            raise
        defect()
        event(f"known finding {key}")


def stats(c, d):
    from torch_harmonics.examples import StanfordDatasetSubset, compute_stats_s2

    rng = np.random.default_rng(c["seed"])
    H, W, n = c["nlat"], c["nlon"], c["n"]
    data = []
    for _ in range(n):
        x = rng.normal(rng.normal() * 3, 1.0 + rng.random(), (3, H, W))
        t = np.abs(rng.normal(2, 1, (1, H, W)))
        hole = rng.random((1, H, W)) < 0.3
        hole[0, H // 2, 0] = False
        data.append((x.astype(np.float32), np.where(hole, 0.0, t).astype(np.float32)))
    order = np.random.default_rng(c["order"]).permutation(n).tolist()
    sub = [data[i] for i in order]
    with sut("StanfordDatasetSubset"):
        try:
            sub = StanfordDatasetSubset(data, order)
        except NotImplementedError as e:
            if "__getitems__" not in str(e) or not known("subset"):
                raise
            event("known finding subset")
    expect(len(sub) == n, f"a subset of {n} samples has length {len(sub)}")
    for i in range(n):
        expect(np.array_equal(sub[i][0], data[order[i]][0]) and np.array_equal(sub[i][1], data[order[i]][1]), f"sample {i} of the subset is not sample {order[i]}")
    with sut("compute_stats_s2"):
        r = compute_stats_s2(sub, normalize_target=c["normalize"])
    q = _quad(H, W)
    X = np.stack([a for a, _ in data]).astype(np.float64)
    mean = (X * q).sum((2, 3)).mean(0)
    sd = np.sqrt(((X - mean[:, None, None]) ** 2 * q).sum((2, 3)).mean(0))
    expect(len(r) == (4 if c["normalize"] else 2), f"{len(r)} results")
    _close(r[0], mean, "mean", 1e-4)
    _close(r[1], sd, "standard deviation", 1e-4)
    if c["normalize"]:
        T = np.stack([b for _, b in data]).astype(np.float64)
        M = (T != 0) * q
        area = M.sum((2, 3), keepdims=True)
        if bool((area <= 1e-6).any()):
            return event("no area")
        mt = (M * T / area).sum((2, 3)).mean(0)
        st_ = np.sqrt((M / area * (T - mt[:, None, None]) ** 2).sum((2, 3)).mean(0))
        _close(r[2], mt, "target mean", 1e-4)
        _close(r[3], st_, "target standard deviation", 1e-4)
