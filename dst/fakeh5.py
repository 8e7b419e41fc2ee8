"""A stand-in for h5py (which is not installed here): groups and datasets kept
in memory and written through an ordinary Python file when the file is closed.
Strings come back as bytes, arrays as numpy arrays, as h5py does."""
from __future__ import annotations

import contextlib
import pickle
import sys
import types

import numpy as np

MAGIC = b"\x89FAKEHDF\r\n"


class Dataset:
    def __init__(self, value):
        self.value = value

    def __getitem__(self, key):
        return self.value


class Group:
    def __init__(self):
        self._d = {}

    def create_dataset(self, name, data=None, **kw):
        if name in self._d:
            raise ValueError("Unable to create dataset (name already exists)")
        if isinstance(data, str):
            v = data.encode()
        elif isinstance(data, (list, tuple)) and data and all(isinstance(x, str) for x in data):
            v = np.array([x.encode() for x in data], dtype=object)
        else:
            v = np.asarray(data)
            if v.dtype == object or v.dtype.kind in "US":
                raise TypeError("Object dtype has no native HDF5 equivalent")
            v = v[()] if v.ndim == 0 else v
        self._d[name] = Dataset(v)
        return self._d[name]

    def create_group(self, name):
        if name in self._d:
            raise ValueError("Unable to create group (name already exists)")
        self._d[name] = Group()
        return self._d[name]

    def keys(self):
        return sorted(self._d)  # HDF5 lists links by name

    def items(self):
        return [(k, self._d[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._d)

    def __contains__(self, k):
        return k in self._d

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self.create_dataset(k, data=v)

    def _plain(self):
        return {k: v._plain() if isinstance(v, Group) else v.value for k, v in self._d.items()}

    def _fill(self, d):
        for k, v in d.items():
            if isinstance(v, dict):
                g = Group()
                g._fill(v)
                self._d[k] = g
            else:
                self._d[k] = Dataset(v)


class File(Group):
    def __init__(self, name, mode="r", **kw):
        super().__init__()
        self.filename, self.mode = str(name), mode
        self._f = None
        if mode in ("r", "r+", "a"):
            try:
                with open(self.filename, "rb") as f:
                    blob = f.read()
            except FileNotFoundError:
                if mode != "a":
                    raise
                blob = None
            if blob is not None:
                if not blob.startswith(MAGIC):
                    raise OSError("Unable to open file (file signature not found)")
                try:
                    self._fill(pickle.loads(blob[len(MAGIC):]))
                except Exception as e:
                    raise OSError("Unable to open file (truncated file)") from e
        if mode != "r":
            self._f = open(self.filename, "wb" if mode in ("w", "a", "x", "w-") else "r+b")

    def flush(self):
        if self._f is not None:
            self._f.seek(0)
            self._f.truncate()
            blob = MAGIC + pickle.dumps(self._plain())
            half = len(blob) // 2
            self._f.write(blob[:half])
            self._f.flush()
            self._f.write(blob[half:])
            self._f.flush()

    def close(self):
        if self._f is not None:
            try:
                self.flush()
            finally:
                f, self._f = self._f, None
                f.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False


@contextlib.contextmanager
def installed():
    old = sys.modules.get("h5py")
    mod = types.ModuleType("h5py")
    mod.File, mod.Group, mod.Dataset = File, Group, Dataset
    sys.modules["h5py"] = mod
    try:
        yield mod
    finally:
        if old is None:
            sys.modules.pop("h5py", None)
        else:
            sys.modules["h5py"] = old
