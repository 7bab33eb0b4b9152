"""C10: vector, matrix, tensor and barycentric arithmetic is correct."""

from copy import deepcopy
from fractions import Fraction
from itertools import product
from math import sqrt

import numpy as np

from vt.core import THOROUGH, raises, require

LEVEL = "exploration"
RULE = (
    "a case is one operation on one combination of operands: all entries from a small alphabet for small shapes, basis"
    " tensors and tensors with independent entries for all shapes up to 3x3x3 (bilinear operations are decided by"
    " these), all index values around the bounds, all combinations of shapes; distinct cases differ in operation or"
    " operands; operands are compared with copies after every operation"
)
ASSUMPTIONS = ["shapes up to 4 per axis", "entries are integers, fractions, floats or pyomo expressions"]


def T():
    import tvemoves_rufbad.tensors as t

    return t


class Op:
    """Applies operations and checks that operands do not change."""

    def __init__(self, ch):
        self.ch = ch

    def __call__(self, name, f, operands, want, exact=True):
        before = deepcopy([o.data for o in operands])
        got = f(*operands)
        w = f"{name} of {', '.join(map(repr, before))}"
        for o, b in zip(operands, before):
            require(o.data == b, f"{w} changes an operand to {o.data!r}")
            require(o.shape == shape(b), f"{w} changes the shape of an operand to {o.shape}")
        g = getattr(got, "data", got)
        if isinstance(got, np.ndarray):
            g = got.tolist()
        if exact:
            require(g == want, f"{w}: {g!r} instead of {want!r}")
        else:
            require(near(g, want), f"{w}: {g!r} instead of {want!r}")
        self.ch.case((name, repr(before)))
        return got


def near(got, want):
    """Equal up to rounding, entry by entry."""
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(map(near, got, want))
    return not isinstance(got, (list, tuple)) and abs(got - want) <= 1e-12 * max(1, abs(want))


def shape(data):
    s = []
    while isinstance(data, list):
        s.append(len(data))
        data = data[0] if data else None
    return tuple(s)


def vec(cfg, ch):
    t = T()
    op = Op(ch)
    V, M = t.Vector, t.Matrix
    if cfg["mode"] == "all":
        vs = [list(x) for x in product((-1, 0, 2), repeat=cfg["n"])]
    else:
        n = cfg["n"]
        vs = [[int(i == k) for i in range(n)] for k in range(n)]
        vs += [[2 + 3 * i * i for i in range(n)], [Fraction(1, i + 2) for i in range(n)], [-7 + i for i in range(n)]]
        vs += [[0.5 * i - 1.25 for i in range(n)], [0] * n]
    scalars = [0, 1, -2, Fraction(1, 3), 0.5]
    for a in vs:
        v = V(list(a))
        n = len(a)
        require(v.shape == (n,) and v.size == n and len(v) == n, f"shape of {v}")
        require(list(v) == a and [x for x in v] == a and list(v) == a, f"iteration of {v}")
        op("neg", lambda v: -v, [v], [-x for x in a])
        for s in scalars:
            op(f"scaling by {s} from the right", lambda v: v * s, [v], [x * s for x in a])
            op(f"scaling by {s} from the left", lambda v: s * v, [v], [s * x for x in a])
            if s:
                op(f"division by {s}", lambda v: v / s, [v], [x / s for x in a], exact=False)
        op("normsqr", lambda v: v.normsqr(), [v], sum(x * x for x in a))
        op("norm", lambda v: v.norm(), [v], sqrt(sum(x * x for x in a)), exact=False)
        op("map", lambda v: v.map(lambda x: 3 * x + 1), [v], [3 * x + 1 for x in a])
        arr = op("numpy", lambda v: v.numpy(), [v], a)
        require(arr.shape == (n,), f"numpy array of {a} has shape {arr.shape}")
        arr[:] = 99
        require(v.data == a, f"the numpy array of {a} is shared with the vector")
        require(np.array_equal(v.numpy().astype(object), np.array(a, dtype=object)), f"a second numpy array of {a} is not the vector any more")
        op("transpose", lambda v: v.transpose(), [v], [a])
        for i in range(-3, n + 3):
            if 0 <= i < n:
                require(v[i] == a[i], f"{v}[{i}]")
            else:
                raises(IndexError, lambda: v[i], f"{v}[{i}]")
            ch.evals()
        for i, j, k in product(range(-1, n + 2), range(-1, n + 2), (None, 1, 2)):
            got = v[i:j:k]
            require(isinstance(got, V) and got.data == a[i:j:k], f"{v}[{i}:{j}:{k}]: {got!r}")
        require(v[:].data == a and v[1:].data == a[1:] and v[:-1].data == a[:-1], f"slices of {v}")
        for r, c in product(range(0, n + 2), repeat=2):
            if r * c == n and r > 0:
                got = op(f"reshape to {r} x {c}", lambda v: v.reshape(r, c), [v], [a[i * c:(i + 1) * c] for i in range(r)])
                require(isinstance(got, M) and got.shape == (r, c), f"reshape of {v} has shape {got.shape}")
                op("flatten", lambda m: m.flatten(), [got], a)
            elif r * c != n:
                raises(ValueError, lambda: v.reshape(r, c), f"reshape of {v} to {r} x {c}")
        for b in vs:
            w = V(list(b))
            op("sum", lambda v, w: v + w, [v, w], [x + y for x, y in zip(a, b)])
            op("difference", lambda v, w: v - w, [v, w], [x - y for x, y in zip(a, b)])
            op("dot", lambda v, w: v.dot(w), [v, w], sum(x * y for x, y in zip(a, b)))
            op("stack", lambda v, w: v.stack(w), [v, w], [a, b])
            op("extend", lambda v, w: v.extend(w), [v, w], a + b)
            op("equality", lambda v, w: v == w, [v, w], a == b)
            op("inequality", lambda v, w: v != w, [v, w], a != b)
        for k in range(n):  # the next number is another one
            w = V([float(np.nextafter(float(x), np.inf)) if i == k else x for i, x in enumerate(a)])
            require(not (v == w) and v != w and not (w == v), f"{v} equals {w}, although entry {k} differs")
        op("sum with itself", lambda v, w: v + w, [v, v], [2 * x for x in a])
        op("difference with itself", lambda v, w: v - w, [v, v], [0] * n)
        for x in (a, tuple(a), None, 0, M([a])):
            require(not (v == x) and v != x, f"{v} equals {x!r}")
    for m in range(0, 6):
        w = V(list(range(m)))
        v = V(vs[0])
        if m != len(vs[0]):
            for name, f in (("sum", lambda: v + w), ("difference", lambda: v - w), ("dot", lambda: v.dot(w)),
                            ("stack", lambda: v.stack(w)), ("sum", lambda: w + v), ("difference", lambda: w - v),
                            ("dot", lambda: w.dot(v)), ("stack", lambda: w.stack(v))):
                raises(ValueError, f, f"{name} of vectors of sizes {len(vs[0])} and {m}")
                ch.evals()
            require(not (v == w), f"{v} equals {w}")
            op("extend", lambda v, w: v.extend(w), [v, w], vs[0] + list(range(m)))


def det(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    return sum((-1) ** j * a[0][j] * det([row[:j] + row[j + 1:] for row in a[1:]]) for j in range(n))


def mats(r, c, mode):
    if mode == "all":
        return [[list(x[i * c:(i + 1) * c]) for i in range(r)] for x in product((-1, 0, 2), repeat=r * c)]
    out = [[[int((i, j) == (p, q)) for j in range(c)] for i in range(r)] for p in range(r) for q in range(c)]
    out.append([[2 + 3 * i * i + 7 * j + i * j * j for j in range(c)] for i in range(r)])
    out.append([[Fraction((-1) ** (i + j), 2 + i + 2 * j) for j in range(c)] for i in range(r)])
    out.append([[0.5 * i - 1.25 * j + 0.75 for j in range(c)] for i in range(r)])
    return out


def mat(cfg, ch):
    t = T()
    op = Op(ch)
    V, M = t.Vector, t.Matrix
    r, c = cfg["shape"]
    ms = mats(r, c, cfg["mode"])
    if cfg.get("part") is not None:
        mine = ms[cfg["part"]::cfg["of"]]
    else:
        mine = ms
    scalars = [0, 1, -2, Fraction(1, 3), 0.5]
    for a in mine:
        m = M(deepcopy(a))
        require(m.shape == (r, c), f"shape of {m}: {m.shape}")
        op("neg", lambda m: -m, [m], [[-x for x in row] for row in a])
        for s in scalars:
            op(f"scaling by {s} from the right", lambda m: m * s, [m], [[x * s for x in row] for row in a])
            op(f"scaling by {s} from the left", lambda m: s * m, [m], [[s * x for x in row] for row in a])
            if s:
                op(f"division by {s}", lambda m: m / s, [m], [[x / s for x in row] for row in a], exact=False)
        tr = op("transpose", lambda m: m.transpose(), [m], [[a[i][j] for i in range(r)] for j in range(c)])
        require(tr.shape == (c, r), f"shape of the transpose of {m}: {tr.shape}")
        op("normsqr", lambda m: m.normsqr(), [m], sum(x * x for row in a for x in row))
        op("norm", lambda m: m.norm(), [m], sqrt(sum(x * x for row in a for x in row)), exact=False)
        op("flatten", lambda m: m.flatten(), [m], [x for row in a for x in row])
        op("map", lambda m: m.map(lambda x: 3 * x + 1), [m], [[3 * x + 1 for x in row] for row in a])
        arr = op("numpy", lambda m: m.numpy(), [m], a)
        require(arr.shape == (r, c), f"numpy array of {a} has shape {arr.shape}")
        arr[:] = 99
        require(m.data == a, f"the numpy array of {a} is shared with the matrix")
        require(np.array_equal(m.numpy().astype(object), np.array(a, dtype=object)), f"a second numpy array of {a} is not the matrix any more")
        try:  # of a matrix that is not square: the sum of its diagonal, or not defined
            op("trace", lambda m: m.trace(), [m], sum(a[i][i] for i in range(min(r, c))))
        except ValueError:
            require(r != c, f"trace of {m}: ValueError")
        if r == c:
            op("det", lambda m: m.det(), [m], det(a), exact=all(not isinstance(x, float) for row in a for x in row))
        else:
            raises(ValueError, m.det, f"determinant of {m}")
        for i, j in product(range(-3, r + 3), range(-3, c + 3)):
            if 0 <= i < r and 0 <= j < c:
                require(m[i, j] == a[i][j], f"{m}[{i}, {j}]")
            else:
                raises(IndexError, lambda: m[i, j], f"entry {i}, {j} of {m}")
            ch.evals()
        if (r, c) == (2, 2):
            d = det(a)
            if d != 0:
                b = [[Fraction(x) for x in row] for row in a]
                d = det(b)
                op("inverse", t.inverse_2x2, [M(deepcopy(b))],
                   [[b[1][1] / d, -b[0][1] / d], [-b[1][0] / d, b[0][0] / d]])
        else:
            raises(ValueError, lambda: t.inverse_2x2(m), f"2x2 inverse of {m}")
        for x in (a, None, 0, V(a[0])):
            require(not (m == x) and m != x, f"{m} equals {x!r}")
        for b in ms if len(ms) <= 81 else ms[::37]:
            k = M(deepcopy(b))
            op("sum", lambda x, y: x + y, [m, k], [[x + y for x, y in zip(p, q)] for p, q in zip(a, b)])
            op("difference", lambda x, y: x - y, [m, k], [[x - y for x, y in zip(p, q)] for p, q in zip(a, b)])
            op("scalar product", lambda x, y: x.scalar_product(y), [m, k],
               sum(x * y for p, q in zip(a, b) for x, y in zip(p, q)))
            op("stack", lambda x, y: x.stack(y), [m, k], [a, b])
            op("equality", lambda x, y: x == y, [m, k], a == b)
            op("inequality", lambda x, y: x != y, [m, k], a != b)
        for i in range(len(a)):
            for j in range(len(a[0])):  # the next number is another one
                k = M([[float(np.nextafter(float(x), np.inf)) if (i, j) == (u, v) else x for v, x in enumerate(row)] for u, row in enumerate(a)])
                require(not (m == k) and m != k and not (k == m), f"{m} equals {k}, although entry {i}, {j} differs")
        op("product with itself", lambda x, y: x + y, [m, m], [[2 * x for x in row] for row in a])
        for v in ([list(x) for x in product((-1, 0, 2), repeat=c)] if cfg["mode"] == "all" else
                  [[int(i == k) for i in range(c)] for k in range(c)] + [[5 + 2 * i for i in range(c)]]):
            op("product with a vector", lambda m, v: m.dot(v), [m, V(list(v))],
               [sum(x * y for x, y in zip(row, v)) for row in a])
        for n in range(0, 5):
            if n != c:
                raises(ValueError, lambda: m.dot(V([1] * n)), f"product of {m} and a vector of size {n}")
    shapes = [(p, q) for p in range(1, 4) for q in range(1, 4)]
    for p, q in shapes:
        for a in mine if cfg["mode"] != "all" else mine[:: max(1, len(mine) // 40)]:
            m = M(deepcopy(a))
            for b in mats(p, q, "basis"):
                k = M(deepcopy(b))
                if c == p:
                    got = op("matrix product", lambda x, y: x @ y, [m, k],
                             [[sum(a[i][l] * b[l][j] for l in range(c)) for j in range(q)] for i in range(r)])
                    require(got.shape == (r, q), f"shape of a matrix product: {got.shape}")
                else:
                    raises(ValueError, lambda: m @ k, f"product of matrices of shapes {(r, c)} and {(p, q)}")
                if (p, q) != (r, c):
                    for name, f in (("sum", lambda: m + k), ("difference", lambda: m - k), ("stack", lambda: m.stack(k)),
                                    ("scalar product", lambda: m.scalar_product(k))):
                        raises(ValueError, f, f"{name} of matrices of shapes {(r, c)} and {(p, q)}")
                        ch.evals()
                    require(not (m == k), f"{m} equals {k}")


def determinants(cfg, ch):
    """A determinant is linear in every row, hence decided by the matrices with one entry per row."""
    t = T()
    n, first = cfg["n"], cfg["first"]
    primes = [2, 3, 5, 7, 11, 13]
    for rest in product(range(n), repeat=n - 1):
        columns = (first,) + rest
        a = [[primes[i] if j == k else 0 for j in range(n)] for i, k in enumerate(columns)]
        want = 0
        if len(set(columns)) == n:
            want = (-1) ** sum(columns[i] > columns[j] for i in range(n) for j in range(i + 1, n))
            for p in primes[:n]:
                want *= p
        got = t.Matrix(a).det()
        require(got == want, f"determinant of {a}: {got} instead of {want}")
        ch.case(("det", columns))


def tens(cfg, ch):
    t = T()
    op = Op(ch)
    X = t.Tensor3D
    p, q, r = cfg["shape"]

    def build(f):
        return [[[f(i, j, k) for k in range(r)] for j in range(q)] for i in range(p)]

    xs = [build(lambda i, j, k: int((i, j, k) == e)) for e in product(range(p), range(q), range(r))]
    xs += [build(lambda i, j, k: 2 + 3 * i + 5 * j * j - 7 * k), build(lambda i, j, k: Fraction(1 + i, 2 + j + 3 * k)),
           build(lambda i, j, k: 0.5 * i - 0.25 * j + k)]

    def each(f, *args):
        return [[[f(*z) for z in zip(*rows)] for rows in zip(*ms)] for ms in zip(*args)]

    def flat(a):
        return [x for m in a for row in m for x in row]

    for a in xs:
        x = X(deepcopy(a))
        require(x.shape == (p, q, r), f"shape of {x}: {x.shape}")
        op("neg", lambda x: -x, [x], each(lambda u: -u, a))
        op("normsqr", lambda x: x.normsqr(), [x], sum(u * u for u in flat(a)))
        op("norm", lambda x: x.norm(), [x], sqrt(sum(u * u for u in flat(a))), exact=False)
        op("map", lambda x: x.map(lambda u: 3 * u + 1), [x], each(lambda u: 3 * u + 1, a))
        arr = op("numpy", lambda x: x.numpy(), [x], a)
        require(arr.shape == (p, q, r), f"numpy array of {a} has shape {arr.shape}")
        arr[:] = 99
        require(x.data == a, f"the numpy array of {a} is shared with the tensor")
        require(np.array_equal(x.numpy().astype(object), np.array(a, dtype=object)), f"a second numpy array of {a} is not the tensor any more")
        for i, j, k in product(range(-2, p + 2), range(-2, q + 2), range(-2, r + 2)):
            if 0 <= i < p and 0 <= j < q and 0 <= k < r:
                require(x[i, j, k] == a[i][j][k], f"entry {i}, {j}, {k} of {x}")
            else:
                raises(IndexError, lambda: x[i, j, k], f"entry {i}, {j}, {k} of {x}")
            ch.evals()
        for b in xs:
            y = X(deepcopy(b))
            op("sum", lambda x, y: x + y, [x, y], each(lambda u, v: u + v, a, b))
            op("difference", lambda x, y: x - y, [x, y], each(lambda u, v: u - v, a, b))
            op("equality", lambda x, y: x == y, [x, y], a == b)
            op("inequality", lambda x, y: x != y, [x, y], a != b)
        for at in product(range(p), range(q), range(r)):
            y = X([[[float(np.nextafter(float(v), np.inf)) if (i, j, k) == at else v for k, v in enumerate(row)] for j, row in enumerate(m)] for i, m in enumerate(a)])
            require(not (x == y) and x != y and not (y == x), f"{x} equals {y}, although entry {at} differs")
        for y in (a, None, t.Matrix(a[0])):
            require(not (x == y) and x != y, f"{x} equals {y!r}")
    x = X(xs[-1])
    for s in product((1, 2, 3), repeat=3):
        if s != (p, q, r):
            y = X([[[1] * s[2] for _ in range(s[1])] for _ in range(s[0])])
            raises(ValueError, lambda: x + y, f"sum of tensors of shapes {(p, q, r)} and {s}")
            raises(ValueError, lambda: x - y, f"difference of tensors of shapes {(p, q, r)} and {s}")
            require(not (x == y), f"{x} equals {y}")
            ch.evals(2)


def ragged(cfg, ch):
    """All lists of row lengths: accepted exactly if they agree."""
    t = T()
    for n in range(1, 5):
        for lengths in product(range(1, 4), repeat=n):
            data = [[1] * k for k in lengths]
            if len(set(lengths)) == 1:
                require(t.Matrix(data).shape == (n, lengths[0]), f"shape of {data}")
            else:
                raises(ValueError, lambda: t.Matrix(data), f"matrix with rows of lengths {lengths}")
            ch.case(("matrix", lengths))
    for n in range(1, 4):
        for rows in product(product((1, 2), repeat=2), repeat=n):
            data = [[[1] * k for k in m] for m in rows]
            ok = len({k for m in rows for k in m}) == 1
            if ok:
                require(t.Tensor3D(data).shape == (n, 2, rows[0][0]), f"shape of {data}")
            else:
                raises(ValueError, lambda: t.Tensor3D(data), f"tensor with rows of lengths {rows}")
            ch.case(("tensor", rows))
        for counts in product((1, 2, 3), repeat=n):
            data = [[[1, 2]] * k for k in counts]
            if len(set(counts)) == 1:
                require(t.Tensor3D(data).shape == (n, counts[0], 2), f"shape of {data}")
            else:
                raises(ValueError, lambda: t.Tensor3D(data), f"tensor with {counts} rows")
            ch.case(("tensor rows", counts))


def bary(cfg, ch):
    B = T().BarycentricCoordinates
    xs = [Fraction(k, 8) for k in range(-4, 13)] + [0.1, 0.7, 1 / 3, -1e-12, 1 + 1e-12, -1e-3, 0, 1]
    for a, b in product(xs, xs):
        def fresh():
            return B(a, b)

        c = fresh()
        want = [a, b, 1 - a - b]
        got = [c.l1, c.l2, c.l3]
        require(all(abs(x - y) <= 1e-15 for x, y in zip(got, want)), f"barycentric coordinates of {a}, {b}: {got}")
        require(list(c) == got and [c[i] for i in range(3)] == got and len(c) == 3 and c.size == 3, f"access to {c}")
        for i in (-3, -2, -1, 3, 4, 5):
            raises(IndexError, lambda: c[i], f"entry {i} of barycentric coordinates")
        for lo, up in ((0.0, 1.0), (0.25, 0.75), (-0.5, 0.5), (None, None)):
            d = fresh()
            if lo is None:
                d.assert_bounds()
                lo, up = 0.0, 1.0
            else:
                d.assert_bounds(lo, up)
            new = [d.l1, d.l2, d.l3]
            for x, y in zip(got, new):
                w = lo if x < lo else up if x > up else x
                require(y == w, f"bounding {got} by {lo} and {up} gives {new}")
            require(list(d) == new and [d[i] for i in range(3)] == new, f"access to bounded coordinates {new}")
            ch.case((str(a), str(b), lo, up))
        require([c.l1, c.l2, c.l3] == got, "bounding changed other coordinates")


def symbolic(cfg, ch):
    """The same operations on pyomo expressions: evaluated afterwards, they are the operations on values."""
    import pyomo.environ as pyo

    t = T()
    m = pyo.ConcreteModel()
    m.x = pyo.Var(range(8), initialize=0)
    m.p = pyo.Param(range(8), initialize=0, mutable=True)
    for entries in (m.x, m.p):
        F = t.Matrix([[entries[0], entries[1]], [entries[2], entries[3]]])
        G = t.Matrix([[entries[4], entries[5]], [entries[6], entries[7]]])
        v = t.Vector([entries[0], entries[1]])
        results = {
            "sum": (F + G).data, "difference": (F - G).data, "product": (F @ G).data, "det": F.det(), "norm": G.norm(),
            "normsqr": F.normsqr(), "scalar product": F.scalar_product(G), "vector": F.dot(v).data, "trace": F.trace(),
            "inverse": t.inverse_2x2(F).data, "scaled": (2 * F).data, "divided": (F / 4).data, "neg": (-F).data,
            "stack": F.stack(G).norm(), "dot": v.dot(v), "transpose": (F.transpose() @ G).data,
        }
        for values in ((1, 2, 3, 5, 7, 11, 13, 17), (2, -1, 0.5, 3, 0, 1, 0, -2), (1, 0, 0, 1, 1, 0.5, 0, 1)):
            for i, x in enumerate(values):
                entries[i] = x
            A, B = np.array(values[:4], float).reshape(2, 2), np.array(values[4:], float).reshape(2, 2)
            u = np.array(values[:2], float)
            want = {
                "sum": A + B, "difference": A - B, "product": A @ B, "det": np.linalg.det(A), "norm": np.linalg.norm(B),
                "normsqr": (A * A).sum(), "scalar product": (A * B).sum(), "vector": A @ u, "trace": np.trace(A),
                "inverse": np.linalg.inv(A), "scaled": 2 * A, "divided": A / 4, "neg": -A,
                "stack": sqrt((A * A).sum() + (B * B).sum()), "dot": u @ u, "transpose": A.T @ B,
            }
            for name, expr in results.items():
                got = np.array(evaluate(expr, pyo))
                require(np.allclose(got, want[name], rtol=1e-10, atol=1e-10), f"{name} of expressions at {values}: {got}")
                ch.case((name, values, entries.name))


def evaluate(e, pyo):
    return [evaluate(x, pyo) for x in e] if isinstance(e, list) else pyo.value(e)


def parts():
    vectors = [dict(n=n, mode="all") for n in (1, 2, 3)] + [dict(n=n, mode="basis") for n in (1, 2, 3, 4, 6)]
    matrices = [dict(shape=(2, 2), mode="all"), dict(shape=(1, 2), mode="all"), dict(shape=(2, 1), mode="all"),
                dict(shape=(1, 1), mode="all"), dict(shape=(1, 3), mode="all"), dict(shape=(3, 1), mode="all")]
    matrices += [dict(shape=(r, c), mode="basis") for r in range(1, 5) for c in range(1, 5)]
    if THOROUGH:
        matrices += [dict(shape=(2, 3), mode="all", part=k, of=16) for k in range(16)]
        matrices += [dict(shape=(3, 2), mode="all", part=k, of=16) for k in range(16)]
        matrices += [dict(shape=(3, 3), mode="all", part=k, of=197) for k in range(0, 197)]
    tensors = [dict(shape=s) for s in product((1, 2, 3), repeat=3)]
    return [("vectors", vec, vectors), ("matrices", mat, matrices), ("tensors", tens, tensors),
            ("determinants", determinants, [dict(n=n, first=k) for n in range(1, 6 if not THOROUGH else 7) for k in range(n)]),
            ("ragged", ragged, [dict()]), ("barycentric", bary, [dict()]), ("symbolic", symbolic, [dict()])]
