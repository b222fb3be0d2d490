"""C25: the bridges to other Python libraries. The libraries are not installed
here: stand-ins do what the libraries document for the calls that are made."""
import itertools, sys, types
import numpy as np
import mlio
import pymc
from data import *
from values import NUMERIC

D, I, T = mlio.DataReaderParams, mlio.InMemoryStore, mlio.DataType


class coo_matrix:
    """scipy.sparse.coo_matrix((data, (row, col)), shape, copy=...)"""
    def __init__(self, arg, shape=None, dtype=None, copy=False):
        data, (row, col) = arg
        index = lambda a: np.array(a, copy=copy, dtype=np.int32 if max(shape, default=0) < 2 ** 31 else np.int64)
        self.shape = tuple(int(x) for x in shape)
        if len(self.shape) != 2: raise ValueError("invalid shape")
        self.data, self.row, self.col = np.array(data, copy=copy, dtype=dtype), index(row), index(col)
        if not self.data.shape == self.row.shape == self.col.shape or self.data.ndim != 1: raise ValueError("row, column, and data array must all be the same length")
        for a, n in ((self.row, self.shape[0]), (self.col, self.shape[1])):
            if len(a) and (a.max() >= n or a.min() < 0): raise ValueError("index exceeds matrix dimension")

    def tocsr(self, copy=False): return csr_matrix(self)


class csr_matrix:
    """Duplicates are summed; zeros are stored but not listed by nonzero()."""
    def __init__(self, m):
        sums = {}
        for r, k, x in zip(m.row.tolist(), m.col.tolist(), m.data): sums[r, k] = sums.get((r, k), m.data.dtype.type(0)) + x
        at = sorted(sums)
        self.shape, self.data = m.shape, np.array([sums[x] for x in at], dtype=m.data.dtype)
        self.row, self.col = (np.array([x[d] for x in at], dtype=np.int32) for d in range(2))

    def nonzero(self): return self.row[self.data != 0], self.col[self.data != 0]
    def tocoo(self, copy=True): return coo_matrix((self.data, (self.row, self.col)), self.shape, copy=copy)


class SparseTensor:
    def __init__(self, indices, values, dense_shape):
        self.indices, self.values, self.dense_shape = np.asarray(indices).astype(np.int64), np.asarray(values), tuple(dense_shape)
        if self.indices.ndim != 2 or self.indices.shape != (len(self.values), len(self.dense_shape)): raise ValueError(f"indices {self.indices.shape} of {len(self.values)} values")


class DataFrame:
    def __init__(self, data):
        self.columns = list(data)
        self.values = [np.array(x) for x in data.values()]
        if any(x.ndim != 1 for x in self.values): raise ValueError("Per-column arrays must each be 1-dimensional")
        if len({len(x) for x in self.values}) > 1: raise ValueError("All arrays must be of the same length")


class Capsule:
    def __init__(self, c): self.c = c
    def __dlpack__(self, stream=None): return self.c
    def __dlpack_device__(self): return (1, 0)


def stand_in(name, **attributes):
    """Makes a module of some name, for the time it is imported."""
    parts = name.split(".")
    for k in range(1, len(parts) + 1):
        m = sys.modules.setdefault(".".join(parts[:k]), types.ModuleType(".".join(parts[:k])))
        if k > 1: setattr(sys.modules[".".join(parts[:k - 1])], parts[k - 1], m)
    for k, v in attributes.items(): setattr(m, k, v)


stand_in("scipy.sparse", coo_matrix=coo_matrix)
stand_in("pandas", DataFrame=DataFrame)
stand_in("torch.utils.dlpack", from_dlpack=lambda c: np.from_dlpack(Capsule(c)))
stand_in("tensorflow", SparseTensor=SparseTensor, convert_to_tensor=np.array, data=types.SimpleNamespace(
    Dataset=types.SimpleNamespace(from_generator=lambda g, kinds: (list(g()), kinds))))
stand_in("mxnet.ndarray", from_dlpack=lambda c: np.from_dlpack(Capsule(c)))
from mlio.integ import scipy as bridge
from mlio.integ.pandas import to_pandas
from mlio.integ.torch import as_torch
from mlio.integ.mxnet import as_mxnet
from mlio.integ.tensorflow import to_tf, make_tf_dataset
from mlio.integ.numpy import as_numpy, to_numpy
import mlio.integ.torch, mlio.integ.mxnet
from mlio.integ.dlpack import as_dlpack
from worlds import dl_version

# The default is the version of DLPack that the library is meant to be built
# with; here it is built with another one.
mlio.integ.torch.as_dlpack = mlio.integ.mxnet.as_dlpack = lambda t: as_dlpack(t, dl_version())

MATRICES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (0, 2), (2, 0)]


def sparse(c, i, most):
    """Sparse matrices to tensors and back: all sequences of cells."""
    shape, dtype = MATRICES[i % len(MATRICES)], list(NUMERIC)[i // len(MATRICES)]
    cells = list(itertools.product(range(shape[0]), range(shape[1])))
    for n in range(most + 1):
        for at in itertools.product(cells, repeat=n):
            what = f"{dtype}{shape} {at}"
            m = coo_matrix((np.array(range(n), dtype=dtype), ([x[0] for x in at], [x[1] for x in at])), shape)
            want = (m.data.tolist(), m.row.tolist(), m.col.tolist())
            t = bridge.to_tensor(m)
            del m
            c.transition()
            pymc.check(t.data_type == NUMERIC[dtype] and tuple(t.shape) == shape, "wrong type of a tensor", lambda: f"{what}: {t}")
            got = (np.array(t.data).tolist(), np.array(t.indices(0)).tolist(), np.array(t.indices(1)).tolist())
            pymc.check(got == want, "wrong elements", lambda: f"{what}: {got}")
            b = bridge.to_coo_matrix(t)
            f = to_tf(t)
            del t
            dense, other = np.zeros(shape, dtype), np.zeros(shape, dtype)
            for x, r, k in zip(*want): dense[r, k] += np.dtype(dtype).type(x)
            for (r, k), x in zip(f.indices.tolist(), f.values): other[r, k] += x
            pymc.check(f.dense_shape == shape and f.values.dtype == dtype and len({tuple(x) for x in f.indices.tolist()}) == len(f.values) and (dense == other).all(),
                       "wrong elements of a sparse tensor", lambda: f"{what}: {f.indices.tolist()} {f.values} {f.dense_shape}")
            pymc.check(f.indices.tolist() == sorted(f.indices.tolist()), "unordered elements of a sparse tensor", what)
            got = (b.data.tolist(), b.row.tolist(), b.col.tolist())
            pymc.check(got == want and b.shape == shape and b.data.dtype == dtype, "wrong elements of a matrix", lambda: f"{what}: {got} {b.shape} {b.data.dtype}")
            c.outcome((i, at))
    c.trace()
    c.nontrivial()
    c.state(i)


def vectors(c, i):
    """Sparse tensors of one dimension, and what is no matrix."""
    dtype = list(NUMERIC)[i]
    for size in range(4):
        for n in range(3):
            for at in itertools.product(range(size), repeat=n):
                t = mlio.CooTensor([size], np.array(range(5, 5 + n), dtype=dtype), [np.array(at, dtype=np.uint64)])
                b = bridge.to_coo_matrix(t)
                c.transition()
                got = (b.data.tolist(), b.row.tolist(), b.col.tolist())
                pymc.check(got == (list(range(5, 5 + n)), [0] * n, list(at)) and b.shape == (1, size), "wrong elements of a matrix", lambda: f"vector of {size} {at}: {got} {b.shape}")
    cube = mlio.CooTensor([2, 2, 2], np.array([1], dtype=dtype), [np.array([1], dtype=np.uint64)] * 3)
    for x in (cube, mlio.DenseTensor([2], np.array([1, 2], dtype=dtype)), None, 5):
        try: bridge.to_coo_matrix(x)
        except ValueError: continue
        pymc.check(False, "what is no matrix is accepted", repr(x))
    for x in (cube, np.zeros((2, 2)), None):
        try: bridge.to_tensor(x)
        except ValueError: continue
        pymc.check(False, "what is no matrix is accepted", repr(x))
    c.trace()
    c.nontrivial()
    c.state(i)


def frames(c, i):
    """Examples to data frames."""
    batch, last = i % 4 + 1, [mlio.LastExampleHandling.NONE, mlio.LastExampleHandling.DROP, mlio.LastExampleHandling.PAD][i // 4 % 3]
    for rows in range(6):
        for cols in (1, 2, 3):
            head = ",".join("cab"[k] for k in range(cols))
            cell = lambda r, k: [str(r), f"{r}.5", f"t{r}"][k]
            text = head + "\n" + "".join(",".join(cell(r, k) for k in range(cols)) + "\n" for r in range(rows))
            c.transition()
            r = mlio.CsvReader(D([I(text.encode())], batch, last_example_handling=last), mlio.CsvParams())
            at = 0
            for e in r:
                f = to_pandas(e)
                n = min(batch, rows - at)
                size = n if last == mlio.LastExampleHandling.NONE else batch
                pymc.check(f.columns == list("cab"[:cols]), "wrong columns", str(f.columns))
                for k in range(cols):
                    want = [[x, x + .5, f"t{x}"][k] for x in range(at, at + n)] + [[0, 0., ""][k]] * (size - n)
                    pymc.check(f.values[k].tolist() == want, "wrong column", lambda: f"{text!r} batch {batch} at {at}: {f.values[k].tolist()} instead of {want}")
                at += n
            pymc.check(at == (rows if last != mlio.LastExampleHandling.DROP else rows // batch * batch), "rows missing", f"{text!r} {at}")
            # Some of the features of each example.
            for names in ("c", "bc") if cols == 3 else ():
                r.reset()
                got, kinds = make_tf_dataset(r, list(names), list(range(len(names))))
                pymc.check(kinds == {x: k for k, x in enumerate(names)}, "wrong types", str(kinds))
                r.reset()
                want = [{x: as_numpy(e[x]).tolist() for x in names} for e in r]
                pymc.check([{x: to_tf(y).tolist() for x, y in z.items()} for z in got] == want, "wrong features", lambda: f"{text!r}: {got} instead of {want}")
    c.trace()
    c.nontrivial()
    c.outcome(i)
    c.state(i)


def dlpacks(c, i):
    dtype = list(NUMERIC)[i]
    for shape in [(1,), (3,), (2, 3), (3, 2), (1, 4), (2, 1, 3)]:
        n = int(np.prod(shape))
        for p in itertools.permutations(range(len(shape))):
            a = np.arange(1, n + 1).astype(dtype).reshape(shape).transpose(p)
            t = mlio.DenseTensor(list(a.shape), np.arange(1, n + 1).astype(dtype), [s // a.itemsize for s in a.strides])
            for f in (as_torch, as_mxnet, as_numpy, to_numpy):
                c.transition()
                x = f(t)
                pymc.check(x.tolist() == a.tolist() and x.dtype == a.dtype, "wrong elements", lambda: f"{f.__name__} {dtype}{shape}{p}: {x.tolist()} instead of {a.tolist()}")
    s = mlio.CooTensor([2, 2], np.array([1], dtype=dtype), [np.array([1], dtype=np.uint64)] * 2)
    for f in (as_numpy, to_numpy):
        try: f(s)
        except ValueError: continue
        pymc.check(False, "a sparse tensor is accepted", f.__name__)
    for f in (as_torch, as_mxnet):
        try: f(s)
        except (ValueError, RuntimeError, mlio.NotSupportedError): continue
        pymc.check(False, "a sparse tensor is accepted", f.__name__)
    c.trace()
    c.nontrivial()
    c.outcome(i)
    c.state(i)


def suites(tier, S):
    n = len(MATRICES) * len(NUMERIC)
    most = 4 if tier == "thorough" else 3
    return [S("C25/matrices", "sparse matrices to tensors and back, all sequences of cells", n, lambda c, i: sparse(c, i, most), lambda i: f"{list(NUMERIC)[i // len(MATRICES)]}{MATRICES[i % len(MATRICES)]}"),
            S("C25/vectors", "sparse vectors to matrices, and what is no matrix", len(NUMERIC), vectors, lambda i: list(NUMERIC)[i]),
            S("C25/frames", "examples to data frames", 12, frames),
            S("C25/dlpack", "dense tensors of all types and orders to other libraries", len(NUMERIC), dlpacks, lambda i: list(NUMERIC)[i])]
