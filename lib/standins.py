"""Minimal stand-ins for requests, tqdm, h5py and PIL (not installed here): enough for the dataset code, with faults injected on demand."""
import os
import sys
import types

import numpy as np


# ---- requests ---------------------------------------------------------------------------------------------
class Server:
    """Serves byte strings; every download follows the next plan: dict(range=bool, cut=None|int, end='raise'|'kill')."""

    def __init__(self):
        self.files, self.json, self.plans, self.log = {}, None, [], []

    def get(self, url, headers=None, stream=False, timeout=None, **_):
        name = url.split("/")[-1]
        if name.endswith(".json"):
            return Response(200, b"", js=self.json)
        self.log.append(name)
        plan = self.plans.pop(0) if self.plans else {"range": True, "cut": None}
        if plan.get("refuse"):
            raise ConnectionError("refused")
        if plan.get("status"):
            return Response(plan["status"], b"<html>")
        data, code = self.files[name], 200
        rng = (headers or {}).get("Range")
        if rng and plan["range"]:
            lo = int(rng.split("=")[1].split("-")[0])
            if lo >= len(data):
                return Response(416, b"")
            data, code = data[lo:], 206
        return Response(code, data, plan.get("cut"))


class HTTPError(Exception):
    pass


class Response:
    def __init__(self, code, data, cut=None, js=None):
        self.status_code, self.data, self.cut, self.js = code, data, cut, js
        self.headers = {"content-length": str(len(data))}

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(str(self.status_code))

    def iter_content(self, chunk_size=1):
        n = len(self.data) if self.cut is None else min(self.cut, len(self.data))
        for i in range(0, n, chunk_size):
            yield self.data[i : min(n, i + chunk_size)]
        if self.cut is not None:
            raise ConnectionError("connection reset")

    @property
    def content(self):
        return b"".join(self.iter_content(1024))

    def json(self):
        return self.js


class Tqdm:
    def __init__(self, it=None, **_):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def update(self, n=1):
        pass


# ---- h5py -------------------------------------------------------------------------------------------------
STORE = {}


class Dset:
    def __init__(self, a):
        self.a = a

    shape = property(lambda s: s.a.shape)

    def __getitem__(self, k):
        r = self.a[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, k, v):
        self.a[k] = v

    def __len__(self):
        return len(self.a)


class File:
    def __init__(self, path, mode="r"):
        path = os.path.abspath(path)
        if mode == "w":
            STORE[path] = {}
            open(path, "wb").close()
        self.d = STORE[path]
        self.open = True

    def create_dataset(self, name, shape=None, dtype=None, data=None):
        if data is not None:
            if isinstance(data, list) and data and isinstance(data[0], str):
                a = np.array([s.encode() for s in data], dtype=object)
            else:
                a = np.array(data)
        else:
            a = np.empty(shape, dtype=object) if dtype == "utf8" else np.zeros(shape, dtype=dtype)
        self.d[name] = Dset(a)
        return self.d[name]

    def __getitem__(self, k):
        if not self.open:
            raise ValueError("file is closed")
        return self.d[k]

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()
        return False


# ---- PIL --------------------------------------------------------------------------------------------------
class Img:
    """An image as a numpy array in a .png file that really holds an .npy."""

    def __init__(self, a):
        self.a = a

    @property
    def size(self):
        return (self.a.shape[1], self.a.shape[0])

    def __array__(self, dtype=None, copy=None):
        return self.a.astype(dtype) if dtype is not None else self.a.copy()

    def convert(self, mode):
        a = self.a
        if mode == "RGBA":
            if a.shape[-1] == 3:
                a = np.concatenate([a, np.full(a.shape[:2] + (1,), 255, a.dtype)], -1)
            return Img(a)
        if mode == "L":
            return Img(a if a.ndim == 2 else np.round(a[..., :3] @ np.array([0.299, 0.587, 0.114])).astype(a.dtype))
        raise NotImplementedError(mode)


def _open(path):
    with open(path, "rb") as f:
        return Img(np.load(f))


def _new(mode, size, color):
    c = tuple(color) + (255,) * (4 - len(color))
    return Img(np.tile(np.array(c, np.uint8), (size[1], size[0], 1)))


def _alpha_composite(bg, fg):
    a = fg.a[..., 3:].astype(np.float64) / 255.0
    rgb = np.round(fg.a[..., :3] * a + bg.a[..., :3] * (1 - a)).astype(np.uint8)
    return Img(np.concatenate([rgb, np.full(rgb.shape[:2] + (1,), 255, np.uint8)], -1))


class UrlResponse:
    """What urlopen returns: fails once more than ``cut`` bytes are asked for."""

    def __init__(self, data, cut, error):
        self.data, self.pos, self.cut, self.error, self.headers, self.status = data, 0, cut, error, {"Content-Length": str(len(data))}, 200

    def read(self, amt=None):
        end = len(self.data) if amt is None or amt < 0 else min(len(self.data), self.pos + amt)
        if self.cut is not None and end > self.cut:
            raise self.error
        r, self.pos = self.data[self.pos : end], end
        return r

    def info(self):
        return self.headers

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


SERVER = Server()


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m

    mod("requests", get=lambda *a, **k: SERVER.get(*a, **k), HTTPError=HTTPError)
    mod("tqdm", tqdm=Tqdm)
    mod("h5py", File=File, string_dtype=lambda encoding="utf-8": "utf8")
    im = mod("PIL.Image", open=_open, new=_new, alpha_composite=_alpha_composite, BILINEAR=2, NEAREST=0)
    mod("PIL", Image=im)
