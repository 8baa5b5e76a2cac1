"""Fixed-size Eigen values in the value-graph engine: a matrix is the list of its coefficient terms.

Every expression is evaluated coefficient by coefficient in exact arithmetic over the coefficients of the inputs.
mat(R, C, e0, e1, …) is column-major whatever the storage order; a view is a location V(base, r, c, indices)."""
import re
from fractions import Fraction
from . import vg
from .facts import Broken
from .terms import *
from .vg import Engine, E, bare, isref

FREE = {"operator*", "operator+", "operator-", "operator/"}


class Unmodelled(Broken):
    pass


# ---------------------------------------------------------------- types
_tp = {}


def parse(t):
    """'A<b, C<d>>' -> (name, [args])"""
    t = t.strip()
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return t, []
    args, depth, cur = [], 0, ""
    for ch in t[i + 1:-1]:
        if ch == "," and depth == 0:
            args.append(cur.strip())
            cur = ""
            continue
        depth += ch == "<"
        depth -= ch == ">"
        cur += ch
    args.append(cur.strip())
    return t[:i].strip(), args


def strip(t):
    t = bare(t or "").strip()
    while t.startswith("const "):
        t = t[6:]
    return t.rstrip("&* ")


def shape(t):
    """(rows, cols) of an Eigen type, None per unknown dimension; None if it is not a matrix"""
    t = strip(t)
    if t in _tp:
        return _tp[t]
    r = _shape(t)
    _tp[t] = r
    return r


def _d(x):
    try:
        v = int(x)
    except ValueError:
        return None
    return v if v >= 0 else None


def _shape(t):
    name, a = parse(t)
    if not name.startswith("Eigen::"):
        return None
    name = name[7:].split("::")[-1] if not name.startswith("Eigen::internal") else name.split("::")[-1]
    if name in ("Matrix", "Array"):
        return _d(a[1]), _d(a[2])
    if name == "Block":
        return _d(a[1]), _d(a[2])
    if name == "VectorBlock":
        s = shape(a[0])
        return (1, _d(a[1])) if s and s[0] == 1 and s[1] != 1 else (_d(a[1]), 1)
    if name == "Transpose":
        s = shape(a[0])
        return (s[1], s[0]) if s else None
    if name == "Product":
        x, y = shape(a[0]), shape(a[1])
        return (x[0], y[1]) if x and y else None
    if name == "CwiseBinaryOp":
        x, y = shape(a[1]), shape(a[2])
        return tuple(p if p is not None else q for p, q in zip(x, y)) if x and y else x or y
    if name in ("CwiseUnaryOp", "CwiseNullaryOp", "CwiseUnaryView"):
        return shape(a[1])
    if name in ("MatrixBase", "DenseBase", "ArrayBase", "DenseCoeffsBase", "PlainObjectBase", "ArrayWrapper", "MatrixWrapper",
                "NoAlias", "Ref", "Map", "Inverse", "EigenBase", "CommaInitializer", "MapBase", "dense_product_base", "Diagonal",
                "TriangularView", "TriangularBase", "TriangularViewImpl", "DiagonalBase", "DiagonalWrapper", "TranspositionsBase", "Transpositions"):
        if name == "Transpositions":
            return _d(a[0]), _d(a[0])
        if name == "DiagonalWrapper":
            s = shape(a[0])
            return ((max(s), max(s)) if None not in s else (None, None)) if s else None
        if name == "Diagonal":
            s = shape(a[0])
            return ((min(s), 1) if None not in s else (None, 1)) if s else None
        return shape(a[0])
    return None


FACTORS = re.compile(r"Eigen::(JacobiSVD|BDCSVD|SVDBase|SelfAdjointEigenSolver)<")
LDLT = re.compile(r"Eigen::LDLT<")


def isarray(t):
    t = strip(t)
    name, a = parse(t)
    n = name.split("::")[-1]
    if n in ("Array", "ArrayBase", "ArrayWrapper"):
        return True
    if n in ("CwiseBinaryOp",):
        return isarray(a[1]) or isarray(a[2])
    if n in ("CwiseUnaryOp", "CwiseNullaryOp"):
        return isarray(a[1])
    if n in ("Block", "VectorBlock", "DenseBase", "DenseCoeffsBase", "PlainObjectBase"):
        return isarray(a[0])
    return False


# ---------------------------------------------------------------- values
def mat(R, C, es):
    es = tuple(es)
    assert len(es) == R * C
    return lift(lambda *x: mk("mat", R, C, *x), *es)


def dims(m):
    return m.args[0], m.args[1]


def entries(m):
    return m.args[2:]


def matelem(v, i):
    if i.op == "num":
        k = int(i.args[0])
        if 0 <= k < v.args[0] * v.args[1]:
            return v.args[2 + k]
    return mk("elem", v, i)


_upd0 = vg.upd


def upd(v, i, x):
    if v.op == "mat" and i.op == "num" and 0 <= i.args[0] < v.args[0] * v.args[1]:
        a = list(v.args)
        a[2 + int(i.args[0])] = x
        return mk("mat", *a)
    return _upd0(v, i, x)


vg.MATELEM = matelem
vg.upd = upd
REBUILD["mat"] = lambda R, C, *es: mat(R, C, es)


def tomat(v, sh):
    """the coefficients of an opaque value"""
    if v.op == "ite":
        return lift(lambda x: tomat(x, sh), v)
    if v.op == "mat":
        return v
    if sh is None or None in sh:
        raise Unmodelled("matrix of unknown size: " + show(v, 3))
    return mat(sh[0], sh[1], [vg.elem(v, num(k)) for k in range(sh[0] * sh[1])])


def ew(f, *ms):
    """coefficient-wise"""
    def g(*xs):
        d = dims(xs[0])
        if any(dims(x) != d for x in xs):
            raise Unmodelled("sizes differ")
        return mat(d[0], d[1], [f(*es) for es in zip(*[entries(x) for x in xs])])
    return lift(g, *ms)


def total(ts):
    r = {}
    for t in ts:
        r = p_add(r, as_poly(t))
    return norm(r)


def mmul(a, b):
    def g(x, y):
        (n, k), (k2, m) = dims(x), dims(y)
        if k != k2:
            raise Unmodelled("product of sizes that do not fit")
        ex, ey = entries(x), entries(y)
        return mat(n, m, [total(mul(ex[i + l * n], ey[l + j * k]) for l in range(k)) for j in range(m) for i in range(n)])
    return lift(g, a, b)


def scale(s, m):
    return lift(lambda c, x: mat(*dims(x), [mul(c, e) for e in entries(x)]), s, m)


def transpose(m):
    def g(x):
        R, C = dims(x)
        e = entries(x)
        return mat(C, R, [e[i + j * R] for i in range(R) for j in range(C)])
    return lift(g, m)


def dot(a, b):
    return lift(lambda x, y: total(mul(p, q) for p, q in zip(entries(x), entries(y))), a, b)


def minor(rows, i, j):
    return [[x for b, x in enumerate(r) if b != j] for a, r in enumerate(rows) if a != i]


def det(rows):
    if len(rows) == 1:
        return rows[0][0]
    r = ZERO
    for j, x in enumerate(rows[0]):
        if x is ZERO:
            continue
        t = mul(x, det(minor(rows, 0, j)))
        r = add(r, t) if j % 2 == 0 else sub(r, t)
    return r


def rows_of(m):
    R, C = dims(m)
    e = entries(m)
    return [[e[i + j * R] for j in range(C)] for i in range(R)]


def inverse(m):
    def g(x):
        R, C = dims(x)
        rows = rows_of(x)
        if R != C:
            raise Unmodelled("inverse of a non-square matrix")
        if R <= 4:
            d = inv(det(rows))
            return mat(R, R, [mul(d, (lambda c: c if (i + j) % 2 == 0 else neg(c))(det(minor(rows, j, i)) if R > 1 else ONE))
                              for j in range(R) for i in range(R)])
        # Gauss–Jordan; pivots are chosen among coefficients that are not identically zero
        a = [list(r) + [ONE if i == j else ZERO for j in range(R)] for i, r in enumerate(rows)]
        for c in range(R):
            p = next((i for i in range(c, R) if a[i][c].op == "num" and a[i][c] is not ZERO), None)
            if p is None:
                p = next((i for i in range(c, R) if a[i][c] is not ZERO), None)
            if p is None:
                raise Unmodelled("singular")
            a[c], a[p] = a[p], a[c]
            d = inv(a[c][c])
            a[c] = [mul(d, y) for y in a[c]]
            for i in range(R):
                if i != c and a[i][c] is not ZERO:
                    k = a[i][c]
                    a[i] = [sub(y, mul(k, z)) for y, z in zip(a[i], a[c])]
        return mat(R, R, [a[i][R + j] for j in range(R) for i in range(R)])
    return lift(g, m)


def cross(a, b):
    def g(x, y):
        p, q = entries(x), entries(y)
        R, C = dims(x)
        return mat(R, C, [sub(mul(p[(i + 1) % 3], q[(i + 2) % 3]), mul(p[(i + 2) % 3], q[(i + 1) % 3])) for i in range(3)])
    return lift(g, a, b)


# ---------------------------------------------------------------- functions of one real
def trig(name, x):
    """sin, cos with the sign of the angle normalised and cos^2 -> 1 - sin^2"""
    p = as_poly(x)
    if not p:
        return ONE if name == "cos" else ZERO
    s = x.args[0][-1][1] if x.op == "poly" else x.args[0] if x.op == "num" else 1
    if s < 0:
        r = trig(name, neg(x))
        return r if name == "cos" else neg(r)
    # sin(atan2(y, x)) and its like
    if x.op == "fn1" and x.args[0] == "atan2":
        y, z = x.args[1], x.args[2]
        h = inv(sqrt(add(mul(y, y), mul(z, z))))
        return mul(z if name == "cos" else y, h)
    if x.op == "fn1" and x.args[0] in ("acos", "asin"):
        if (name == "cos") == (x.args[0] == "acos"):
            return x.args[1]
        return sqrt(sub(ONE, mul(x.args[1], x.args[1])))
    c, s = mk("fn1", "cos", x), mk("fn1", "sin", x)
    if c not in RULES:
        RULES[c] = (2, {(): Fraction(1), ((s, 2),): Fraction(-1)})
    return c if name == "cos" else s


def isqrt(n):
    from math import isqrt as q
    r = q(n)
    return r if r * r == n else None


MARKS = {}       # input atom -> "pos" | "angle" (-pi,pi) | "acute" (-pi/2,pi/2) | "turn" (0,pi)


def marked(kinds):
    return [a for a, k in MARKS.items() if k in kinds]


def positive_atom(a):
    if MARKS.get(a) in ("pos", "turn"):
        return True
    if a.op == "poly":
        return positive(a)
    if a.op == "fn1" and a.args[0] in ("cos", "sin"):
        p = as_poly(a.args[1])
        if len(p) != 1:
            return False
        (m, c), = p.items()
        if len(m) != 1 or m[0][1] != 1:
            return False
        k = MARKS.get(m[0][0])
        if a.args[0] == "sin":
            return k == "turn" and 0 < c <= 1
        return k == "acute" and abs(c) <= 1 or k in ("turn", "angle") and abs(c) <= Fraction(1, 2)
    return False


def positive(t):
    """a sum of products of positive atoms and squares, not identically zero"""
    p = as_poly(t)
    return bool(p) and all(c > 0 and all(e % 2 == 0 or positive_atom(a) for a, e in m) for m, c in p.items()) \
        and any(all(positive_atom(a) for a, e in m) for m in p)


def arc(name, vs):
    """the angle a marked input stands for, recognised inside its inverse function"""
    if not MARKS:
        return None
    from .algebra import is_zero
    if name == "acos":
        for a in marked(("turn",)):
            for k in (1, 2):
                th = mul(num(Fraction(1, k)), a)
                if is_zero(sub(vs[0], trig("cos", th))):
                    return th
    elif name == "asin":
        for a in marked(("acute",)):
            for s in (ONE, neg(ONE)):
                if is_zero(sub(vs[0], mul(s, trig("sin", a)))):
                    return mul(s, a)
    elif name == "atan2":
        y, x = vs
        for a in marked(("angle", "acute", "turn")):
            for s in (ONE, neg(ONE)):
                th = mul(s, a)
                sn, cs = trig("sin", th), trig("cos", th)
                if is_zero(sub(mul(y, cs), mul(x, sn))) and positive(add(mul(y, sn), mul(x, cs))):
                    return th
    return None


def sqrt(x):
    def f(x):
        p = as_poly(x)
        if MARKS and len(p) == 1 and x.op != "num":
            (m, c), = p.items()
            k = sqrt(num(c))
            if c > 0 and k.op == "num" and all(e % 2 == 0 and positive_atom(a) for a, e in m):
                return norm({tuple((a, e // 2) for a, e in m): k.args[0]})
        if x.op == "num" and x.args[0] >= 0:
            a, b = isqrt(x.args[0].numerator), isqrt(x.args[0].denominator)
            if a is not None and b is not None:
                return num(Fraction(a, b))
        if any(e < 0 for m in as_poly(x) for _, e in m):
            from .algebra import is_zero
            if is_zero(sub(x, ONE)):
                return ONE
        s = mk("fn1", "sqrt", x)
        if s not in RULES:
            RULES[s] = (2, as_poly(x))
        return s
    return lift(f, x)


class EigenEngine(Engine):
    opaque_types = ()
    recurse = True

    # -------------------------------------------------------- views
    def view(self, loc, sh, R, C, idx):
        """the location of a part of a matrix"""
        if loc.op == "ite":
            return lift(lambda l: self.view(l, sh, R, C, idx), loc)
        if loc.op == "V":
            b, _, _, ix = loc.args
            return mk("V", b, R, C, tuple(ix[k] for k in idx))
        return mk("V", loc, R, C, tuple(idx))

    def vload(self, st, loc):
        b, R, C, idx = loc.args
        v = self.load(st, b)
        return lift(lambda x: mat(R, C, [vg.elem(x, num(k)) for k in idx]), v)

    def vstore(self, st, loc, val):
        b, R, C, idx = loc.args
        v = self.load(st, b)
        sh = self.vshape(v, max(idx) + 1)

        def g(x, y):
            x = tomat(x, sh)
            es = list(entries(x))
            for k, e in zip(idx, entries(y)):
                es[k] = e
            return mk("mat", *dims(x), *es)
        self.store(st, b, lift(g, v, val))

    def vshape(self, v, least):
        for l in leafset(v):
            if l.op == "mat":
                return dims(l)
        return self.shapes.get(v)

    def opaque2(self, f, q, n, this, vals, outs, st, fr):
        v, ref = Engine.opaque2(self, f, q, n, this, vals, outs, st, fr)
        sh = shape(f.rt) if not ref and f.rt else None
        if sh is not None and None not in sh and f.mine:
            v = tomat(v, sh)
        return v, ref

    # -------------------------------------------------------- evaluation
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.shapes = {}
        self.nundef = 0
        self.factored = []

    def mval(self, n, st, fr):
        """matrix value of an expression"""
        return tomat(self.rv(n, st, fr), shape(n.t))

    def mloc(self, n, st, fr, t=None):
        """location of a matrix; what it holds is spelled out as coefficients"""
        l = self.recv_loc(n, st, fr) if t is None else self.lv(n, st, fr)
        sh = shape(t if t is not None else n.o.t)
        return self.spell(l, sh, st)

    def spell(self, l, sh, st):
        def one(x):
            if x.op == "V":
                return
            v = self.load(st, x)
            if any(y.op != "mat" for y in leafset(v)):
                self.store(st, x, tomat(v, sh))
        for x in leafset(l):
            one(x)
        return l

    def lsize(self, l, st):
        """(rows, cols) of a spelled location"""
        l = leafset(l)[0]
        if l.op == "V":
            return l.args[1], l.args[2]
        return dims(leafset(self.load(st, l))[0])

    def undef(self, sh):
        self.nundef += 1
        return mat(sh[0], sh[1], [mk("undef", "m%d" % self.nundef, k) for k in range(sh[0] * sh[1])])

    def callx(self, n, st, fr):
        f = n.f
        if f is not None and f.q and not f.mine and (f.q.startswith("Eigen::") or f.q.startswith("Eigen::internal")):
            r = self.eigen(n, st, fr)
            if r is not None:
                return r
        if f is not None and f.q and f.q.startswith("std::numeric_limits<") and f.q.endswith("::epsilon"):
            return num(Fraction(1, 2 ** (23 if bare(n.t) == "float" else 52))), False
        return Engine.callx(self, n, st, fr)

    def model_ctor(self, n, st, fr):
        t = strip(n.t)
        if t.startswith("Eigen::") and not (n.f is not None and n.f.mine):
            name = parse(t)[0].split("::")[-1]
            sh = shape(t)
            a = [x for x in (n.a or []) if x.k != "defarg"]
            if sh is not None and None not in sh and name in ("Matrix", "Array"):
                if not a:
                    return self.undef(sh)
                if len(a) == 1:
                    s1 = shape(a[0].t)
                    if s1 is not None:
                        v = self.mval(a[0], st, fr)
                        if any(dims(x) != sh for x in leafset(v)):
                            if sorted(dims(leafset(v)[0])) == sorted(sh) and 1 in sh:
                                return lift(lambda x: mat(sh[0], sh[1], entries(x)), v)
                            raise Unmodelled("sizes differ in a copy")
                        return v
                    v = self.rv(a[0], st, fr)
                    if "*" in (a[0].t or "") or "[" in (a[0].t or ""):
                        if "[" in (a[0].t or ""):
                            l = self.lv(a[0], st, fr)
                            return mat(*sh, [self.load(st, E(l, num(k))) for k in range(sh[0] * sh[1])])
                        return mat(*sh, [self.load(st, lift(lambda p: self.ptr_index(p, num(k)), v)) for k in range(sh[0] * sh[1])])
                    if sh == (1, 1):
                        return mat(1, 1, [v])
                    if shape_dynamic_arg(a[0]):
                        return self.undef(sh)
                    return None
                if len(a) == sh[0] * sh[1]:
                    return mat(*sh, [self.rv(x, st, fr) for x in a])
                if len(a) == 2:
                    for x in a:
                        self.rv(x, st, fr)
                    return self.undef(sh)
                raise Unmodelled("constructor of " + t)
            if name == "AngleAxis" and len(a) == 1 and shape(a[0].t) == (3, 3):
                return lift(lambda m: mk("angleaxis", m), self.mval(a[0], st, fr))
            if name in ("JacobiSVD", "BDCSVD", "SelfAdjointEigenSolver") and a and shape(a[0].t) is not None:
                return lift(lambda m: mk("factors", "eig" if name.startswith("Self") else "svd", m), self.mval(a[0], st, fr))
            if name == "LDLT" and len(a) == 1 and shape(a[0].t) is not None:
                def f(m):
                    if dims(m)[0] != dims(m)[1]:
                        raise Unmodelled("factorisation of a matrix that is not square")
                    return mk("ldlt", m)
                return lift(f, self.mval(a[0], st, fr))
            if sh is not None and None in sh and name in ("Matrix", "Array") and a and all(shape(x.t) is None and "*" not in (x.t or "") for x in a) and len(a) <= 2:
                ks = [self.rv(x, st, fr) for x in a]
                if any(k.op != "num" for k in ks):
                    raise Unmodelled("matrix of unknown size")
                ks = tuple(int(k.args[0]) for k in ks)
                if len(ks) == 1:
                    ks = (1, ks[0]) if sh[0] == 1 else (ks[0], 1)
                return self.undef(ks)
            if sh is not None and len(a) == 1:
                return self.rv(a[0], st, fr)
            if sh is not None and not a and None in sh:
                return mk("new", t)
        return Engine.model_ctor(self, n, st, fr)

    # -------------------------------------------------------- library
    def eigen(self, n, st, fr):
        f = n.f
        name = f.name
        a = [x for x in (n.a or []) if x.k != "defarg"]
        if "Eigen::internal::" in f.q and n.o is None:
            return None
        if n.o is not None and name in ("angle", "axis") and f.q.startswith("Eigen::AngleAxis<") and not a:
            return lift(lambda v: self.angleaxis(v, name), self.load(st, self.recv_loc(n, st, fr))), False
        if n.o is not None and name in ("operator=", "fromRotationMatrix") and f.q.startswith("Eigen::AngleAxis<") and len(a) == 1 and shape(a[0].t) == (3, 3):
            l = self.recv_loc(n, st, fr)
            self.store(st, l, lift(lambda m: mk("angleaxis", m), self.mval(a[0], st, fr)))
            return l, True
        if n.o is not None and FACTORS.match(f.q):
            return self.factors(name, n, st, fr)
        if n.o is not None and name in ("rowwise", "colwise"):
            return lift(lambda m: mk("wise", name, m), self.load(st, self.mloc(n, st, fr))), False
        if n.o is not None and f.q.startswith("Eigen::VectorwiseOp<"):
            def wise(w):
                if w.op != "wise":
                    raise Unmodelled("VectorwiseOp::" + name)
                m = w.args[1]
                R, C = dims(m)
                rows = w.args[0] == "rowwise"
                if name in ("operator+", "operator-") and len(a) == 1:
                    g = add if name[8:] == "+" else sub

                    def each(v):
                        if len(entries(v)) != (C if rows else R):
                            raise Unmodelled("VectorwiseOp::" + name)
                        return mat(R, C, [g(entries(m)[i + j * R], entries(v)[j if rows else i]) for j in range(C) for i in range(R)])
                    return lift(each, self.mval(a[0], st, fr))
                if name not in ("sum", "mean") or a:
                    raise Unmodelled("VectorwiseOp::" + name)
                es = [total(entries(m)[i + j * R] for j in range(C)) for i in range(R)] if rows else [total(entries(m)[i + j * R] for i in range(R)) for j in range(C)]
                if name == "mean":
                    es = [mul(num(Fraction(1, C if rows else R)), x) for x in es]
                return mat(R, 1, es) if rows else mat(1, C, es)
            return lift(wise, self.load(st, self.recv_loc(n, st, fr))), False
        if n.o is not None and LDLT.match(f.q):
            return self.ldlt(name, n, st, fr)
        if n.o is None:
            if name in FREE:
                if len(a) == 2:
                    return self.binary(name[8:], a[0], a[1], st, fr, n), False
            if name in ("Identity", "Zero", "Ones", "Constant", "UnitX", "UnitY", "UnitZ", "UnitW", "Random", "Unit"):
                return self.nullary(name, n, a, st, fr), False
            return None
        ot = strip(n.o.t)
        kt = parse(ot)[0]
        cls = strip(f.cls.ty or f.cls.q) if f.cls is not None else ot
        if n.ar:
            o = bare(n.o.t)
            ot = strip(o)
        sh = shape(ot)
        if sh is None:
            sh = shape(cls)
        if sh is None:
            return None
        # comma initialisers
        if kt.endswith("CommaInitializer"):
            return self.comma(name, n, a, st, fr)
        if name in ("resize", "setZero", "setOnes", "setIdentity", "conservativeResize") and (name == "resize" or a and "Base" not in kt and "Block" not in kt):
            ks = [self.rv(x, st, fr) for x in a]
            if any(k.op != "num" for k in ks) or name == "conservativeResize":
                raise Unmodelled("resize to an unknown size")
            ks = tuple(int(k.args[0]) for k in ks)
            if len(ks) == 1:
                ks = (1, ks[0]) if sh[0] == 1 else (ks[0], 1)
            if any(x is not None and x != k for x, k in zip(sh, ks)):
                raise Unmodelled("resize of a matrix of fixed size")
            l = self.recv_loc(n, st, fr)
            v = self.load(st, l)
            if any(x.op != "mat" or dims(x) != ks for x in leafset(v)):
                self.store(st, l, self.undef(ks))
            if name == "resize":
                return VOID, False
            R, C = ks
            self.store(st, l, mat(R, C, [ZERO if name == "setZero" else ONE if name == "setOnes" or i == j else ZERO for j in range(C) for i in range(R)]))
            return l, True
        if None in sh and not self.known(n, st, fr):
            raise Unmodelled("%s on a matrix of dynamic size" % name)
        if name == "operator<<" and len(a) == 1:
            l = self.mloc(n, st, fr)
            self.uid += 1
            cl = mk("in", "comma%d" % self.uid)
            v = mk("comma", l, 0, 0, 0)
            return self.comma_put(v, a[0], st, fr), False
        if name in ("operator()", "operator[]", "coeff", "coeffRef", "x", "y", "z", "w"):
            l = self.mloc(n, st, fr)
            R, C = self.lsize(l, st)
            ix = [self.rv(x, st, fr) for x in a]
            if name in "xyzw":
                ix = [num("xyzw".index(name))]

            def at(loc, *ks):
                if any(k.op != "num" for k in ks):
                    raise Unmodelled("coefficient with an unknown index")
                k = int(ks[0].args[0]) if len(ks) == 1 else int(ks[0].args[0]) + int(ks[1].args[0]) * R
                if len(ks) == 2 and not (0 <= ks[0].args[0] < R and 0 <= ks[1].args[0] < C) or not 0 <= k < R * C:
                    raise Unmodelled("coefficient outside its matrix")
                if loc.op == "V":
                    return E(loc.args[0], num(loc.args[3][k]))
                return E(loc, num(k))
            return lift(at, l, *ix), True
        if name in ("rows", "cols", "size"):
            l = self.mloc(n, st, fr)
            R, C = self.lsize(l, st)
            return num({"rows": R, "cols": C, "size": R * C}[name]), False
        if name in ("array", "matrix", "noalias", "derived", "const_cast_derived", "lazyAssign", "real", "conjugate"):
            return self.mloc(n, st, fr), True
        if name in ("eval", "cast", "finished", "nestedExpression", "toDenseMatrix"):
            return self.load(st, self.mloc(n, st, fr)), False
        if name in ("head", "tail", "segment", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "block", "col",
                    "row", "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols", "diagonal"):
            return self.part(name, n, a, st, fr), True
        if name in ("transpose", "adjoint"):
            return transpose(self.load(st, self.mloc(n, st, fr))), False
        if name in ("setZero", "setIdentity", "setOnes", "setConstant", "fill", "setRandom"):
            l = self.mloc(n, st, fr)
            R, C = self.lsize(l, st)
            if name == "setRandom":
                self.uid += 1
                v = mat(R, C, [mk("rand", self.uid, k) for k in range(R * C)])
            else:
                c = self.rv(a[0], st, fr) if a else None
                v = mat(R, C, [ZERO if name == "setZero" else ONE if name == "setOnes" else c if c is not None else (ONE if i == j else ZERO)
                               for j in range(C) for i in range(R)])
            self.store(st, l, v)
            return l, True
        if name == "operator=":
            if shape(a[0].t) is None:
                v = self.rv(a[0], st, fr)
                l = self.mloc(n, st, fr)
                R, C = self.lsize(l, st)
                self.store(st, l, mat(R, C, [v] * (R * C)))
                return l, True
            v = self.mval(a[0], st, fr)
            l = self.mloc(n, st, fr)
            d = self.lsize(l, st)
            if any(dims(x) != d for x in leafset(v)):
                raise Unmodelled("sizes differ in an assignment")
            self.store(st, l, v)
            return l, True
        if name in ("operator+=", "operator-=", "operator*=", "operator/="):
            l = self.mloc(n, st, fr)
            b = self.mval(a[0], st, fr) if shape(a[0].t) is not None else self.rv(a[0], st, fr)
            v = self.combine(name[8:-1], self.load(st, l), b, isarray(ot) or isarray(cls))
            self.store(st, l, v)
            return l, True
        if name in ("operator*", "operator+", "operator-", "operator/", "cwiseProduct", "cwiseQuotient") and len(a) == 1:
            x = self.load(st, self.mloc(n, st, fr))
            b = self.mval(a[0], st, fr) if shape(a[0].t) is not None else self.rv(a[0], st, fr)
            op = {"cwiseProduct": "*", "cwiseQuotient": "/"}.get(name, name[8:])
            return self.combine(op, x, b, isarray(ot) or isarray(cls) or name.startswith("cwise")), False
        if name == "operator-" and not a:
            return ew(neg, self.load(st, self.mloc(n, st, fr))), False
        if name in ("cross", "dot", "cross3"):
            x = self.load(st, self.mloc(n, st, fr))
            y = self.mval(a[0], st, fr)
            return (dot if name == "dot" else cross)(x, y), False
        if name in ("norm", "squaredNorm", "stableNorm", "normalize", "normalized", "determinant", "trace", "inverse", "sum", "value", "prod") or f.conv:
            l = self.mloc(n, st, fr)
            x = self.load(st, l)
            if f.conv or name == "value":
                return vg.elem(x, ZERO), False
            if name == "squaredNorm":
                return dot(x, x), False
            if name in ("norm", "stableNorm"):
                return self.math("sqrt", [dot(x, x)]), False
            if name in ("normalize", "normalized"):
                # nothing happens to a zero vector
                z = dot(x, x)
                v = ite(lt(ZERO, z), scale(inv(self.math("sqrt", [z])), x), x)
                if name == "normalized":
                    return v, False
                self.store(st, l, v)
                return VOID, False
            if name == "determinant":
                return lift(lambda m: det(rows_of(m)), x), False
            if name == "inverse":
                return inverse(x), False
            if name == "trace":
                return lift(lambda m: total(entries(m)[i + i * dims(m)[0]] for i in range(min(dims(m)))), x), False
            if name == "sum":
                return lift(lambda m: total(entries(m)), x), False
        if name in ("operator==", "operator!="):
            x = self.load(st, self.mloc(n, st, fr))
            y = self.mval(a[0], st, fr)
            r = lift(lambda p, q: and_(*[eq(u, v) for u, v in zip(entries(p), entries(q))]), x, y)
            return (r if name == "operator==" else not_(r)), False
        if name in ("cwiseSqrt", "sqrt", "cwiseAbs", "abs", "cwiseAbs2", "abs2", "square", "cwiseInverse") and not a:
            g = {"sqrt": lambda x: self.math("sqrt", [x]), "abs": lambda x: self.math("fabs", [x]), "abs2": lambda x: mul(x, x), "square": lambda x: mul(x, x),
                 "inverse": inv}[name[5:].lower() if name.startswith("cwise") else name]
            return ew(g, self.load(st, self.mloc(n, st, fr))), False
        if name in ("cwiseMax", "cwiseMin", "max", "min") and len(a) == 1:
            x = self.load(st, self.mloc(n, st, fr))
            y = self.mval(a[0], st, fr) if shape(a[0].t) is not None else self.rv(a[0], st, fr)
            g = (lambda p, q: ite(lt(p, q), q, p)) if name.lower().endswith("max") else (lambda p, q: ite(lt(q, p), q, p))
            if any(l.op == "mat" for l in leafset(y)):
                return ew(g, x, y), False
            return lift(lambda m, c: mat(*dims(m), [g(e, c) for e in entries(m)]), x, y), False
        if name == "asDiagonal":
            return lift(lambda m: mat(len(entries(m)), len(entries(m)), [entries(m)[i] if i == j else ZERO for j in range(len(entries(m)))
                                                                         for i in range(len(entries(m)))]), self.load(st, self.mloc(n, st, fr))), False
        if name in ("allFinite", "hasNaN", "isZero", "isIdentity", "isApprox", "isUnitary"):
            x = self.load(st, self.mloc(n, st, fr))
            vs = [self.mval(y, st, fr) if shape(y.t) is not None else self.rv(y, st, fr) for y in a]
            return tobool(vg.mkl("call", "Eigen::" + name, x, *vs)), False
        if name in ("minCoeff", "maxCoeff") and len(a) <= 1 and (not a or "*" in a[0].t):
            # the first of the smallest or largest coefficients
            x = self.load(st, self.mloc(n, st, fr))

            def extreme(m):
                es = entries(m)
                best, at = es[0], ZERO
                for k, e in enumerate(es[1:], 1):
                    c = lt(best, e) if name[:3] == "max" else lt(e, best)
                    best, at = ite(c, e, best), ite(c, num(k), at)
                return best, at
            p = lift(lambda m: mk("best", *extreme(m)), x)
            if a:
                self.store(st, vg.deref(self.rv(a[0], st, fr)), lift(lambda b: b.args[1], p))
            return lift(lambda b: b.args[0], p), False
        if name in ("minCoeff", "maxCoeff", "lpNorm", "mean", "data"):
            x = self.load(st, self.mloc(n, st, fr))
            return vg.mkl("call", "Eigen::" + name, x), False
        raise Unmodelled("Eigen operation %s" % f.q.split("<")[0] + "::" + name)

    def factors(self, name, n, st, fr):
        """the factors of A = U S V' or of A v = v l: unknown coefficients"""
        if name == "compute":
            l = self.recv_loc(n, st, fr)
            a = [x for x in (n.a or []) if x.k != "defarg"]
            self.store(st, l, lift(lambda m: mk("factors", "eig" if "Eigen::SelfAdjoint" in n.f.q else "svd", m), self.mval(a[0], st, fr)))
            return l, True
        if name == "info":
            return ZERO, False
        v = self.load(st, self.recv_loc(n, st, fr))

        def part(t):
            if t.op != "factors":
                raise Unmodelled("a factorisation that is not known")
            A, N = t.args[1], dims(t.args[1])[0]
            if dims(A)[1] != N:
                raise Unmodelled("factorisation of a matrix that is not square")
            if A not in self.factored:
                self.factored.append(A)
            i = self.factored.index(A)
            if name in ("matrixU", "matrixV", "eigenvectors"):
                return mat(N, N, [mk("x", "%s%d" % (name, i), k) for k in range(N * N)])
            if name in ("singularValues", "eigenvalues"):
                return mat(N, 1, [mk("x", "%s%d" % (name, i), k) for k in range(N)])
            raise Unmodelled(name)
        return lift(part, v), False

    @staticmethod
    def angleaxis(v, name):
        """the axis n and angle x (between zero and pi) of a rotation, read off its antisymmetric part sin(x)*[n]"""
        if v.op != "angleaxis":
            raise Unmodelled("an axis and angle that are not known")
        m = entries(v.args[0])
        half = num(Fraction(1, 2))
        w = [mul(half, sub(m[5], m[7])), mul(half, sub(m[6], m[2])), mul(half, sub(m[1], m[3]))]
        sins = {a for t in w for k in as_poly(t) for a, _ in k if a.op == "fn1" and a.args[0] == "sin"}
        if all(x == num(int(i % 4 == 0)) for i, x in enumerate(m)):
            return ZERO if name == "angle" else mat(3, 1, [ONE, ZERO, ZERO])
        if len(sins) != 1:
            raise Unmodelled("the axis and angle of a matrix that is not known to be a rotation: " + ", ".join(show(t, 6)[:150] for t in w))
        s = sins.pop()
        return s.args[1] if name == "angle" else mat(3, 1, [div(t, s) for t in w])

    def ldlt(self, name, n, st, fr):
        """the factors of A = P' L D L' P: unknown coefficients that depend on A"""
        v = self.load(st, self.recv_loc(n, st, fr))

        def part(t):
            if t.op != "ldlt":
                raise Unmodelled("a factorisation that is not known")
            A, N = t.args[0], dims(t.args[0])[0]
            if name == "vectorD":
                return mat(N, 1, [mk("elem", mk("call", "LDLT::D", A), num(k)) for k in range(N)])
            if name == "transpositionsP":
                return mat(N, N, [mk("elem", mk("call", "LDLT::P", A), num(k)) for k in range(N * N)])
            L = [mk("elem", mk("call", "LDLT::L", A), num(k)) for k in range(N * N)]
            lower = mat(N, N, [ONE if i == j else L[i + j * N] if i > j else ZERO for j in range(N) for i in range(N)])
            if name == "matrixL":
                return lower
            if name == "matrixU":
                return transpose(lower)
            raise Unmodelled("LDLT::" + name)
        return lift(part, v), False

    def known(self, n, st, fr):
        """a dynamically typed receiver whose value has a known size"""
        s2 = st.copy()
        q, self.quiet = self.quiet, self.quiet + 1
        try:
            v = self.load(s2, self.recv_loc(n, s2, fr))
        finally:
            self.quiet = q
        return all(x.op == "mat" for x in leafset(v))

    def combine(self, op, x, y, array):
        xm = any(l.op == "mat" for l in leafset(x))
        ym = any(l.op == "mat" for l in leafset(y))
        if op in "+-":
            f = add if op == "+" else sub
            if xm and ym:
                return ew(f, x, y)
            if xm:
                return lift(lambda m, c: mat(*dims(m), [f(e, c) for e in entries(m)]), x, y)
            return lift(lambda c, m: mat(*dims(m), [f(c, e) for e in entries(m)]), x, y)
        if op == "*":
            if xm and ym:
                return ew(mul, x, y) if array else mmul(x, y)
            return scale(y, x) if xm else scale(x, y)
        if op == "/":
            if xm and ym:
                return ew(div, x, y)
            if ym:
                return lift(lambda c, m: mat(*dims(m), [div(c, e) for e in entries(m)]), x, y)
            return scale(inv(y), x)
        raise Unmodelled("operator" + op)

    def binary(self, op, a, b, st, fr, n):
        x = self.mval(a, st, fr) if shape(a.t) is not None else self.rv(a, st, fr)
        y = self.mval(b, st, fr) if shape(b.t) is not None else self.rv(b, st, fr)
        return self.combine(op, x, y, isarray(a.t) or isarray(b.t))

    def nullary(self, name, n, a, st, fr):
        R, C = shape(n.t)
        vs = [self.rv(x, st, fr) for x in a]
        if R is None or C is None:
            own = 1 if name in ("Constant", "Unit") else 0
            if any(v.op != "num" for v in vs[:len(vs) - own]):
                raise Unmodelled("matrix of unknown size")
            d = [int(v.args[0]) for v in vs[:len(vs) - own]]
            k = (R is None) + (C is None)
            if len(d) < k:
                raise Unmodelled("matrix of unknown size")
            if k == 2 or len(d) >= 2:
                R, C = d[0], d[1]
                vs = vs[2:]
            else:
                R, C = (d[0], C) if R is None else (R, d[0])
                vs = vs[1:]
        if name == "Identity":
            return mat(R, C, [ONE if i == j else ZERO for j in range(C) for i in range(R)])
        if name == "Random":
            self.uid += 1
            return mat(R, C, [mk("rand", self.uid, k) for k in range(R * C)])
        if name.startswith("Unit"):
            k = int(vs[-1].args[0]) if name == "Unit" else "XYZW".index(name[4:])
            return mat(R, C, [ONE if i == k else ZERO for i in range(R * C)])
        e = {"Zero": ZERO, "Ones": ONE}.get(name)
        if e is None:
            e = vs[-1]
        return mat(R, C, [e] * (R * C))

    def part(self, name, n, a, st, fr):
        l = self.mloc(n, st, fr)
        R, C = self.lsize(l, st)

        def at(*ks):
            if any(k.op != "num" for k in ks):
                raise Unmodelled("part of a matrix at an unknown place")
            return self.part_at(name, n, l, R, C, [int(k.args[0]) for k in ks])
        return lift(at, *[self.rv(x, st, fr) for x in a]) if a else at()

    def part_at(self, name, n, l, R, C, vs):
        r, c = shape(n.t) or (None, None)
        i = j = 0
        if name in ("head", "tail", "segment"):
            k = c if r == 1 and R == 1 and C != 1 else r
            if name == "segment":
                s = vs[0]
                if k is None:
                    k = vs[1]
            else:
                if k is None:
                    k = vs[0]
                s = 0 if name == "head" else R * C - k
            idx = range(s, s + k)
            rc = (1, k) if R == 1 and C != 1 else (k, 1)
            if s < 0 or s + k > R * C:
                raise Unmodelled("part outside its matrix")
            return self.view(l, None, rc[0], rc[1], tuple(idx))
        if name == "diagonal":
            k = min(R, C)
            return self.view(l, None, k, 1, tuple(x + x * R for x in range(k)))
        if name == "col":
            i, j, r, c = 0, vs[0], R, 1
        elif name == "row":
            i, j, r, c = vs[0], 0, 1, C
        elif name == "block":
            i, j = vs[0], vs[1]
            if r is None:
                r = vs[2]
            if c is None:
                c = vs[3]
        elif name.endswith("Corner"):
            if r is None:
                r = vs[0]
            if c is None:
                c = vs[1]
            i = R - r if name.startswith("bottom") else 0
            j = C - c if "Right" in name else 0
        elif name in ("topRows", "bottomRows", "middleRows"):
            if r is None:
                r = vs[-1]
            c = C
            i = 0 if name == "topRows" else R - r if name == "bottomRows" else vs[0]
        else:
            if c is None:
                c = vs[-1]
            r = R
            j = 0 if name == "leftCols" else C - c if name == "rightCols" else vs[0]
        if i < 0 or j < 0 or i + r > R or j + c > C:
            raise Unmodelled("part outside its matrix")
        return self.view(l, None, r, c, tuple(p + q * R for q in range(j, j + c) for p in range(i, i + r)))

    def comma_put(self, v, a, st, fr):
        l, i, j, h = v.args
        R, C = self.lsize(l, st)
        x = self.mval(a, st, fr) if shape(a.t) is not None else self.rv(a, st, fr)
        r, c = dims(leafset(x)[0]) if shape(a.t) is not None else (1, 1)
        if j == C:
            i, j, h = i + h, 0, r
        if i == 0 and j == 0 and h == 0:
            h = r
        if h != r or j + c > C or i + r > R:
            raise Unmodelled("comma initialiser that does not fit")
        if shape(a.t) is None:
            x = mat(1, 1, [x])
        self.store(st, self.view(l, None, r, c, tuple(p + q * R for q in range(j, j + c) for p in range(i, i + r))), x)
        return mk("comma", l, i, j + c, h)

    def comma(self, name, n, a, st, fr):
        v = self.load(st, self.recv_loc(n, st, fr))
        if v.op != "comma":
            raise Unmodelled("comma initialiser")
        if name == "operator,":
            return self.comma_put(v, a[0], st, fr), False
        if name == "finished":
            return v.args[0], True
        raise Unmodelled("comma initialiser " + name)

    # -------------------------------------------------------- scalar functions
    def math(self, name, vs):
        name = {"abs": "fabs"}.get(name, name)
        if name in ("sin", "cos") and len(vs) == 1:
            return lift(lambda x: trig(name, x), vs[0])
        if name == "tan" and len(vs) == 1:
            return lift(lambda x: div(trig("sin", x), trig("cos", x)), vs[0])
        if name == "sqrt" and len(vs) == 1:
            return sqrt(vs[0])
        if name in ("acos", "asin", "atan2") and MARKS:
            g = lambda *xs: arc(name, xs) or mk("fn1", name, *xs)
            return lift(g, *vs)
        if name == "pow" and len(vs) == 2 and vs[1].op == "num":
            k = vs[1].args[0]
            b = vs[0]
            if k.denominator == 2:
                b, k = sqrt(b), k * 2
            if k.denominator == 1 and abs(k) <= 12:
                r = ONE
                for _ in range(abs(int(k))):
                    r = mul(r, b)
                return inv(r) if k < 0 else r
            if b.op == "num" and b.args[0] > 0:
                return num(Fraction(float(b.args[0]) ** float(k)))
        return Engine.math(self, name, vs)


def shape_dynamic_arg(n):
    return False
