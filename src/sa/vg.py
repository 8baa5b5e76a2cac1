"""Value-graph analysis: computes, for a function, the gated values of its result and of every location it writes.

One pass over the resolved tree of the function and of the repository functions it calls; branches are merged by gates
(no path enumeration, no solver), calls that leave the repository become terms over the state of their receiver, loops
become recurrence terms (or are unfolded when their trip count is a constant of the program)."""
import re
from .facts import Broken, strip
from .terms import *
from . import terms as TM
from fractions import Fraction

INT_T = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long",
         "unsigned long", "long long", "unsigned long long", "wchar_t", "char16_t", "char32_t", "__int128", "unsigned __int128"}
INT_W = {"signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0),
         "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0)}
FLT_T = {"float", "double", "long double"}
NUM_T = INT_T - {"bool"} | FLT_T


def bare(t):
    t = (t or "").strip()
    while True:
        u = t
        if u.startswith("const "):
            u = u[6:]
        if u.startswith("volatile "):
            u = u[9:]
        u = u.rstrip("&").strip()
        if u.endswith(" const"):
            u = u[:-6]
        if u == t:
            return u
        t = u


def isref(t):
    return (t or "").endswith("&")


def constref(t):
    return isref(t) and (t.startswith("const ") or t.endswith("&&") or t.endswith("const &"))


NONNUM = {"enum", "strcmp", "strcmp1", "strfind1", "str", "null", "bool", "fn", "iter", "ptr", "lam"}


def isptr(t):
    t = bare(t)
    return t.endswith("*") or t.endswith("*const")


def shortq(q):
    n = None
    q = q or ""
    while q != n:
        n = q
        q = re.sub(r"<[^<>]*>", "", q)
    return q


SMART = re.compile(r"(boost|std)::(shared_ptr|unique_ptr|__shared_ptr_access|__shared_ptr|scoped_ptr|weak_ptr|intrusive_ptr|__unique_ptr)\b")
VECLIKE = re.compile(r"(std::(vector|deque|list|__cxx11::list|array|initializer_list|_Vector_base)|boost::(array|container::vector|circular_buffer))\b")
MAPLIKE = re.compile(r"(std::(map|set|multimap|multiset|unordered_map|unordered_set)|boost::(unordered_map|unordered_set))\b")
STRLIKE = re.compile(r"std::(__cxx11::)?basic_string\b")
OPTLIKE = re.compile(r"(boost|std)::optional\b|boost::optional_detail")
ITER = re.compile(r"(__normal_iterator|_Rb_tree_(const_)?iterator|_Node_(const_)?iterator|_Node_iterator_base|_Deque_iterator|_List_(const_)?iterator|iterator_facade|_Bit_iterator|move_iterator|reverse_iterator)")
CHRONO = re.compile(r"std::chrono::(duration|time_point)\b|boost::posix_time::(time_duration|ptime)\b|boost::date_time::(base_time|time_duration|subsecond_duration)\b")
LOCKS = re.compile(r"(boost|std)::(unique_lock|lock_guard|scoped_lock|mutex|recursive_mutex|timed_mutex|shared_mutex|shared_lock|condition|condition_variable)")


class St:
    __slots__ = ("mem", "pc")

    def __init__(self, mem=None, pc=TRUE):
        self.mem = mem if mem is not None else {}
        self.pc = pc

    def copy(self):
        return St(dict(self.mem), self.pc)

    def become(self, o):
        self.mem, self.pc = o.mem, o.pc

    @property
    def dead(self):
        return self.pc is FALSE


class Frame:
    def __init__(self, fn, parent, this=None, node=None):
        self.fn, self.parent, self.this, self.node = fn, parent, this, node
        self.env = {}
        self.rets = []
        self.scopes = []
        self.throws = []
        self.brk = []
        self.cont = []
        self.depth = 0 if parent is None else parent.depth + 1
        self.uid = 0
        self.capt = None
        self.intry = 0 if parent is None else parent.intry

    def where(self, node=None):
        return "%s:%s" % (self.fn.rel, (node.l if node is not None and node.l else self.fn.l))

    def chain(self):
        out, f = [], self
        while f is not None:
            out.append(f.fn.q)
            f = f.parent
        return out


class Event:
    __slots__ = ("pc", "kind", "fn", "recv", "args", "term", "node", "frame", "argnodes", "mem", "extra")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class Result:
    """of one analysed root: value, state, pc of normal return; throws [(pc, type, term, where)]"""


def var(d, uid):
    return mk("var", d, uid)


def constant(t):
    return t.op == "num" or t.op == "mat" and all(constant(e) for e in t.args[2:])


def F(base, name):
    return mk("F", base, name)


def E(base, idx):
    return mk("E", base, idx)


def obj(name):
    return mk("in", name)


THIS = obj("this")


def ptr(loc):
    if loc.op == "ite":
        return lift(ptr, loc)
    if loc.op == "D":
        return loc.args[0]
    return mk("ptr", loc)


def root_field(loc, base):
    """the member of `base` that loc lies in"""
    while loc.op in ("F", "E"):
        if loc.args[0] is base:
            return loc.args[1]
        loc = loc.args[0]
    return None


def root_of(loc):
    while loc.op in ("F", "E", "V", "PE"):
        loc = loc.args[0]
    return loc


def deref(p):
    if p.op == "ite":
        return lift(deref, p)
    if p.op == "ptr":
        return p.args[0]
    if p.op == "iter":
        c, i = p.args
        if i.op == "find":
            return mk("PE", c, i.args[1])
        return E(c, i)
    return mk("D", p)


def elem(v, i):
    if v.op == "ite" or i.op == "ite":
        try:
            return lift(elem, v, i)
        except TooBig:
            return mk("elem", v, i)
    if v.op == "store":
        w, j, x = v.args
        if j is i:
            return x
        if j.op in ("num", "str") and i.op in ("num", "str"):
            return elem(w, i)
        return mk("elem", v, i)
    if v.op == "rep":
        return v.args[1]
    if v.op == "list" and i.op == "num" and 0 <= i.args[0] < len(v.args):
        return v.args[int(i.args[0])]
    if v.op == "mat":
        return MATELEM(v, i)
    if v.op == "map":
        k = sub(i, size(v.args[0]))
        if size(v.args[0]) is ZERO or k.op == "it":
            return subst(v.args[3], {v.args[2]: k})
    if v.op == "push":
        n = size(v.args[0])
        if i is n:
            return v.args[1]
        d = sub(i, n)
        if d.op == "num" and d.args[0] < 0:
            return elem(v.args[0], i)
    if v.op == "cat":
        r = elemcat(v, i)
        if r is not None:
            return r
    if v.op == "substr" and v.args[1] is ZERO and len(v.args) == 3:
        return elem(v.args[0], i)
    if v.op == "substr" and len(v.args) == 2:
        return elem(v.args[0], add(i, v.args[1]))
    if v.op == "str" and i.op == "num":
        s = v.args[0]
        k = int(i.args[0])
        return num(ord(s[k])) if k < len(s) else ZERO
    return mk("elem", v, i)


def has(v, k, same):
    """whether a map or set holds the key"""
    if v.op == "ite" or k.op == "ite":
        return lift(lambda x, y: has(x, y, same), v, k)
    if v.op in ("store", "insert") and len(v.args) == 3:
        return or_(same(v.args[1], k), has(v.args[0], k, same))
    if v.op == "erase":
        return and_(not_(same(v.args[1], k)), has(v.args[0], k, same))
    if v.op == "new" and len(v.args) == 1:
        return FALSE
    return tobool(mk("has", v, k))


def lookup(v, k, same):
    """what a map holds under a key that it holds"""
    if v.op == "ite" or k.op == "ite":
        try:
            return lift(lambda x, y: lookup(x, y, same), v, k)
        except TooBig:
            return mk("elem", v, k)
    if v.op in ("store", "insert") and len(v.args) == 3:
        return ite(same(v.args[1], k), v.args[2], lookup(v.args[0], k, same))
    if v.op == "erase":
        return lookup(v.args[0], k, same)
    return elem(v, k)


def mapsize(v, same):
    if v.op == "ite":
        return lift(lambda x: mapsize(x, same), v)
    if v.op in ("store", "insert") and len(v.args) == 3:
        n = mapsize(v.args[0], same)
        return ite(has(v.args[0], v.args[1], same), n, add(n, ONE))
    if v.op == "erase":
        n = mapsize(v.args[0], same)
        return ite(has(v.args[0], v.args[1], same), sub(n, ONE), n)
    return size(v)


def mapped(init, n, it, f):
    return lift(lambda i, n: mk("map", i, n, it, f), init, n)


def elemcat(v, i):
    off = ZERO
    for k, p in enumerate(v.args):
        d = sub(i, off)
        n = size(p)
        if d.op == "num" and n.op == "num" and 0 <= d.args[0] < n.args[0]:
            return elem(p, d)
        if d is ZERO:
            # first character of what starts here
            rest = v.args[k + 1:]
            if not rest:
                return elem(p, ZERO)
            return ite(eq(n, ZERO), elem(_catn(rest), ZERO), elem(p, ZERO))
        if k == len(v.args) - 1 and add(d, ONE) is n:
            # last character
            pre = v.args[:k]
            if n.op == "num" and n.args[0] > 0 or not pre:
                return elem(p, sub(n, ONE))
            q = _catn(pre)
            return ite(eq(n, ZERO), elem(q, sub(size(q), ONE)), elem(p, sub(n, ONE)))
        off = add(off, n)
    return None


def substr(v, *a):
    if v.op == "ite" or any(x.op == "ite" for x in a):
        try:
            return lift(substr, v, *a)
        except TooBig:
            return mk("substr", v, *a)
    if len(a) == 2 and (a[1] is num(-1) or a[1] is num(2**64 - 1) or a[1] is sub(size(v), a[0])):
        a = a[:1]
    if len(a) == 1:
        if a[0] is ZERO:
            return v
        if v.op == "substr" and len(v.args) == 2:
            return substr(v.args[0], add(v.args[1], a[0]))
        if v.op == "str" and a[0].op == "num" and 0 <= a[0].args[0] <= len(v.args[0]):
            return string(v.args[0][int(a[0].args[0]):])
    if len(a) == 2 and a[1] is ZERO:
        return string("")
    if v.op == "cat":
        off = ZERO
        for k, p in enumerate(v.args):
            d = sub(a[0], off)
            if len(a) == 1 and p.op == "str" and d.op == "num" and 0 <= d.args[0] < len(p.args[0]):
                return _catn((string(p.args[0][int(d.args[0]):]),) + v.args[k + 1:])
            if len(a) == 1 and d is ZERO:
                return _catn(v.args[k:])
            off = add(off, size(p))
        if len(a) == 1 and a[0] is off:
            return string("")
        if len(a) == 2 and a[0] is ZERO:
            off = ZERO
            for k, p in enumerate(v.args):
                d = sub(a[1], off)
                if d is ZERO:
                    return _catn(v.args[:k])
                if p.op == "str" and d.op == "num" and 0 <= d.args[0] <= len(p.args[0]):
                    return _catn(v.args[:k] + (string(p.args[0][:int(d.args[0])]),))
                off = add(off, size(p))
    return mk("substr", v, *a)


def MATELEM(v, i):
    return mk("elem", v, i)


def upd(v, i, x):
    if v.op == "store" and v.args[1] is i:
        return mk("store", v.args[0], i, x)
    if v.op == "list" and i.op == "num" and 0 <= i.args[0] < len(v.args):
        a = list(v.args)
        a[int(i.args[0])] = x
        return mk("list", *a)
    return mk("store", v, i, x)


def proj(v, f):
    if v.op == "ite":
        return lift(proj, v, f)
    if v.op == "with":
        for n, x in v.args[1]:
            if n == f:
                return x
        return proj(v.args[0], f)
    if v.op == "init":
        return mk("init", F(v.args[0], f))
    return mk("fld", v, f)


def with_(v, ovs):
    if v.op == "ite":
        return lift(lambda x: with_(x, ovs), v)
    d = {}
    if v.op == "with":
        d = dict(v.args[1])
        v = v.args[0]
    d.update(ovs)
    d = {k: x for k, x in d.items() if proj(v, k) is not x}
    if not d:
        return v
    return mk("with", v, tuple(sorted(d.items())))


def size(v):
    if v.op == "ite":
        return lift(size, v)
    if v.op == "str":
        return num(len(v.args[0]))
    if v.op == "list":
        return num(len(v.args))
    if v.op == "new":
        if len(v.args) > 1 and re.match(r"std::vector\b", v.args[0]) and is_num(v.args[1]):
            return v.args[1]
        return ZERO if len(v.args) == 1 else mk("size", v)
    if v.op == "push":
        return add(size(v.args[0]), ONE)
    if v.op in ("store",):
        return size(v.args[0])
    if v.op == "map":
        return add(size(v.args[0]), v.args[1])
    if v.op == "cat":
        r = ZERO
        for x in v.args:
            r = add(r, size(x))
        return r
    if v.op == "chr":
        return ONE
    if v.op == "rep":
        return v.args[0]
    if v.op == "substr" and len(v.args) == 2:
        return sub(size(v.args[0]), v.args[1])
    return mk("size", v)


def isstr(t):
    return t.op in ("str", "cat", "substr", "chr")


def prefixof(q, p):
    """p begins with q"""
    def f(q, p):
        if q is p or q.op == "str" and q.args[0] == "":
            return TRUE
        if q.op == "str" and p.op == "str":
            return boolc(p.args[0].startswith(q.args[0]))
        if p.op == "cat" and p.args[0] is q:
            return TRUE
        if q.op == "str" and len(q.args[0]) == 1:
            # one character: not empty and equal first element
            return and_(not_(eq(size(p), ZERO)), eq(elem(p, ZERO), num(ord(q.args[0]))))
        return node(mk("prefixof", q, p), TRUE, FALSE)
    return lift(f, q, p)


def streq(x, y):
    """rewrites of string equality; None: no rewrite"""
    for a, b in ((x, y), (y, x)):
        if a.op == "substr" and len(a.args) == 3 and a.args[1] is ZERO and a.args[2] is size(b):
            return prefixof(b, a.args[0])
        if b.op == "str" and b.args[0] == "":
            return eq(size(a), ZERO)
        if b.op == "str" and len(b.args[0]) <= 8 and a.op not in ("str", "cat", "null", "ptr"):
            # a short literal: length and characters
            r = eq(size(a), num(len(b.args[0])))
            for k, c in enumerate(b.args[0]):
                r = and_(r, eq(elem(a, num(k)), num(ord(c))))
            return r
    if x.op == "cat" or y.op == "cat":
        xs = list(x.args) if x.op == "cat" else [x]
        ys = list(y.args) if y.op == "cat" else [y]
        n0 = len(xs) + len(ys)
        while xs and ys and xs[-1] is ys[-1]:
            xs.pop()
            ys.pop()
        while xs and ys and xs[0] is ys[0]:
            xs.pop(0)
            ys.pop(0)
        if len(xs) + len(ys) < n0:
            return eq(_catn(xs), _catn(ys))
    return None


TM.STREQ = streq


def cat(a, b):
    def f(x, y):
        xs = list(x.args) if x.op == "cat" else [x]
        ys = list(y.args) if y.op == "cat" else [y]
        out = []
        for p in xs + ys:
            if p.op == "str" and p.args[0] == "":
                continue
            if out and p.op == "str" and out[-1].op == "str":
                out[-1] = string(out[-1].args[0] + p.args[0])
            else:
                out.append(p)
        if not out:
            return string("")
        if len(out) == 1:
            return out[0]
        return mk("cat", *out)
    return lift(f, a, b)


TM.REBUILD.update({
    "elem": elem, "fld": proj, "size": size, "ptr": ptr, "D": lambda p: deref(p),
    "init": lambda l: mk("init", l), "cat": lambda *a: _catn(a), "prefixof": prefixof, "substr": substr,
})


def rep(n, c):
    """a string of n times the character c"""
    return lift(lambda n, c: string("") if n is ZERO else mk("rep", n, c), n, c)


def _catn(a):
    r = string("")
    for x in a:
        r = cat(r, x)
    return r


def mkl(op, *args):
    """mk lifted over gates in its term arguments"""
    if any(isinstance(a, T) and a.op == "ite" for a in args):
        try:
            return lift(lambda *xs: mk(op, *xs), *args)
        except TooBig:
            return mk(op, *args)
    return mk(op, *args)


def literals(pc, memo=None):
    """{atom: bool} forced by pc"""
    memo = {} if memo is None else memo

    def rec(t):
        if t is TRUE or t is FALSE or t.op != "ite":
            return {}
        r = memo.get(t)
        if r is not None:
            return r
        a, hi, lo = t.args
        if hi is FALSE:
            r = dict(rec(lo))
            r[a] = False
        elif lo is FALSE:
            r = dict(rec(hi))
            r[a] = True
        else:
            x, y = rec(hi), rec(lo)
            r = {k: v for k, v in x.items() if y.get(k) is v}
        memo[t] = r
        return r
    return rec(pc)


def nonneg(t):
    """a count or a sum of counts"""
    if t.op == "num":
        return t.args[0] >= 0
    if t.op in ("size", "it"):
        return True
    if t.op == "poly":
        return all(c >= 0 and all(nonneg(a) or e % 2 == 0 for a, e in m) for m, c in t.args[0])
    return False


def extent(t):
    """the number of rows or columns of a matrix"""
    if t.op == "init" and t.args[0].op == "F":
        return t.args[0].args[1] in ("rows", "cols")
    return t.op == "fld" and t.args[1] in ("rows", "cols")


def order(t, depth=None):
    """sub-terms in a fixed depth-first order; with a depth, without what loops of that depth bind"""
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            if depth is not None and x.op == "loop" and x.args[0] == depth:
                st.append(x.args[1])
            elif depth is not None and x.op == "map" and x.args[2].args[0] == depth:
                st.extend(reversed(x.args[:2]))
            else:
                st.extend(reversed(x.args))
        elif isinstance(x, tuple):
            st.extend(reversed(x))
    return out


class Engine:
    exitfacts = False       # whether what an exit was taken for is kept as a fact behind the loop
    def __init__(self, P, inline=None, dyn=None, maxdepth=40, models=(), nan=False, unroll=80, unfold=False):
        self.P = P
        self.inline_ok = inline or (lambda f: True)
        self.dyn = dyn or {}
        self.maxdepth = maxdepth
        self.models = list(models)
        self.makers = [m.made for m in models if hasattr(m, "made")]    # models of constructors: True if handled
        self.enders = [m.ended for m in models if hasattr(m, "ended")]
        self.faults = None      # for models of operations that may fail
        self.nan = nan
        self.integral = set()
        self.unroll = unroll
        self.unfold = unfold    # rounds under any condition, until none is left
        self.events = []
        self.uid = 0
        self.nobj = 0
        self.inlined = set()
        self.opaques = {}
        self.quiet = 0
        self.loops = []
        self.loopdepth = 0
        self.conds = []
        self.objtype = {}
        self.boolobj = set()

    # ------------------------------------------------------------ memory
    @staticmethod
    def under(k, loc):
        while k.op in ("F", "E", "PE", "V"):
            k = k.args[0]
            if k is loc:
                return True
        return False

    def load(self, st, loc):
        if loc.op == "ite":
            return lift(lambda l: self.load(st, l), loc)
        v = self.get(st, loc)
        kids = {}
        for k in st.mem:
            x = k
            while x.op == "F":
                b = x.args[0]
                if b is loc:
                    kids[x.args[1]] = x
                    break
                x = b
        if kids:
            v = with_(v, {n: self.load(st, x) for n, x in kids.items()})
        return v

    def otype(self, l):
        if l.op == "var" and l.args[0] != "tmp" and l not in self.objtype:
            d = l.args[0]
            t = getattr(d, "t", None)
            if t and d.k in ("Var", "Param", "Decomposition") and not isref(t) and not isptr(t) and "[" not in t:
                return bare(t)
        return self.objtype.get(l.args[0] if l.op == "in" else l)

    def newobj(self, t):
        """a fresh object; inside a loop, one per iteration"""
        self.nobj += 1
        nm = "new%d:%s" % (self.nobj, t)
        self.objtype[nm] = t
        return mk("in", nm, *[mk("it", k) for k in range(self.loopdepth)])

    def get(self, st, loc):
        v = st.mem.get(loc)
        if v is not None:
            return v
        o = loc.op
        if o in ("F", "E", "in"):
            r = root_of(loc)
            if r.op == "in" and len(r.args) > 1:
                its = [mk("it", k) for k in range(len(r.args) - 1)]
                if any(a is not b for a, b in zip(its, r.args[1:])):
                    g = mk("in", r.args[0], *its)
                    if any(root_of(k) is g for k in st.mem):
                        v = self.load(st, subst(loc, {r: g}))
                        return subst(v, dict(zip(its, r.args[1:])))
        if o == "ite":
            return lift(lambda l: self.get(st, l), loc)
        if o == "F":
            b = loc.args[0]
            x = b
            while x.op == "F" and x not in st.mem:
                x = x.args[0]
            if x in st.mem or x.op in ("E", "PE", "V"):
                return proj(self.get(st, b), loc.args[1])
            if x.op == "glob":
                return proj(self.get(st, b), loc.args[1])
            return self.first(loc)
        if o == "E":
            return elem(self.load(st, loc.args[0]), loc.args[1])
        if o == "PE":
            m = self.load(st, loc.args[0])
            return mk("with", mk("pairof", m, loc.args[1]), (("first", loc.args[1]), ("second", lookup(m, loc.args[1], self.keyeq(self.otype(loc.args[0]) or "map<string")))))
        if o == "V":
            return self.vload(st, loc)
        if o == "glob":
            d = loc.args[0]
            if d.init is not None and (d.constq or d.constexpr or (d.t or "").startswith("const ")):
                if d not in getattr(self, "_ginit", {}):
                    self._ginit = getattr(self, "_ginit", {})
                    self._ginit[d] = mk("init", loc)
                    fr = Frame(d, None)
                    s2 = St()
                    self.quiet += 1
                    try:
                        if isref(d.t):
                            self._ginit[d] = ptr(self.lv(d.init, s2, fr))
                        else:
                            self._ginit[d] = self.rv(d.init, s2, fr)
                    except TooBig:
                        pass
                    self.quiet -= 1
                return self._ginit[d]
            return mk("init", loc)
        if o == "var":
            return mk("undef", loc)
        return self.first(loc)

    def first(self, loc):
        """the value a location has on entry"""
        t = mk("init", loc)
        if loc.op == "F" and loc.args[1] in self.boolfields() or loc in self.boolobj:
            return node(t, TRUE, FALSE)
        return t

    def boolfields(self):
        r = getattr(self.P, "_boolfields", None)
        if r is None:
            r = self.P._boolfields = {d.q for d in self.P.alldecls if d.k == "Field" and bare(d.t) == "bool"}
        return r

    def vload(self, st, loc):
        raise Broken("no view model")

    def vstore(self, st, loc, val):
        raise Broken("no view model")

    def store(self, st, loc, val):
        if loc.op == "ite":
            for c, l in leaves(loc):
                self.store(st, l, ite(c, val, self.load(st, l)))
            return
        if loc.op == "E":
            b, i = loc.args
            self.store(st, b, lift(upd, self.load(st, b), i, val) if not self.toobig(val) else mk("store", self.load(st, b), i, val))
            return
        if loc.op == "PE":
            b, i = loc.args
            self.store(st, b, upd(self.load(st, b), i, proj(val, "second")))
            return
        if loc.op == "V":
            self.vstore(st, loc, val)
            return
        if loc.op == "F":
            x = loc
            while x.op == "F":
                x = x.args[0]
            if x.op == "PE":
                if loc.args[0] is x and loc.args[1] == "second":
                    self.store(st, x.args[0], upd(self.load(st, x.args[0]), x.args[1], val))
                    return
                b = loc.args[0]
                self.store(st, b, with_(self.load(st, b), {loc.args[1]: val}))
                return
            if x.op in ("E", "V"):
                b = loc.args[0]
                self.store(st, b, with_(self.load(st, b), {loc.args[1]: val}))
                return
        for k in [k for k in st.mem if self.under(k, loc)]:
            del st.mem[k]
        st.mem[loc] = val

    @staticmethod
    def toobig(v):
        return False

    def temp(self, val, st, rec=None):
        self.uid += 1
        l = mk("var", "tmp", self.uid)
        st.mem[l] = val
        return l

    # ------------------------------------------------------------ merging
    def merge(self, sts):
        sts = [s for s in sts if s is not None and not s.dead]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        pc = or_(*[s.pc for s in sts])
        keys = {}
        for s in sts:
            for k in s.mem:
                keys[k] = None
        lits = None
        mem = {}
        for k in keys:
            vals = []
            skip = False
            for s in sts:
                v = s.mem.get(k)
                if v is None:
                    r = root_of(k)
                    if r.op == "var" and not any(root_of(x) is r for x in s.mem):
                        skip = True
                        break
                    v = self.get(s, k)
                vals.append(v)
            if skip:
                continue
            r = vals[-1]
            if all(v is r for v in vals):
                mem[k] = r
                continue
            for s, v in zip(sts[:-1][::-1], vals[:-1][::-1]):
                r = self.gate(s.pc, v, r)
            if lits is None:
                lits = literals(pc)
            mem[k] = self.simp(r, lits)
        # a key present below a whole value stored in another state stays consistent: `get` projects
        return St(mem, pc)

    def gate(self, c, a, b):
        return ite(c, a, b)

    def simp(self, t, lits):
        if t.op != "ite" or not lits:
            return t
        memo = {}

        def rec(x):
            if x.op != "ite":
                return x
            r = memo.get(x)
            if r is not None:
                return r
            a = x.args[0]
            v = lits.get(a)
            if v is True:
                r = rec(x.args[1])
            elif v is False:
                r = rec(x.args[2])
            else:
                r = node(a, rec(x.args[1]), rec(x.args[2]))
            memo[x] = r
            return r
        return rec(t)

    def under_pc(self, c, st):
        """simplify condition c with what st.pc forces"""
        if c is TRUE or c is FALSE or st.pc is TRUE:
            return c
        lits = dict(literals(st.pc))
        if lits:
            # equalities with distinct constants exclude each other
            known = {}
            for a, v in lits.items():
                if v and a.op == "eq0":
                    b, k = self.split_const(a.args[0])
                    known[b] = k
                elif v and a.op == "eq" and (a.args[0].op == "str") != (a.args[1].op == "str"):
                    x, s = (a.args[1], a.args[0]) if a.args[0].op == "str" else a.args
                    known[x] = s
            if known:
                for a in atoms_of(c):
                    if a in lits:
                        continue
                    if a.op == "eq0":
                        b, k = self.split_const(a.args[0])
                        if b in known and known[b] != k:
                            lits[a] = False
                    elif a.op == "eq" and (a.args[0].op == "str") != (a.args[1].op == "str"):
                        x, s = (a.args[1], a.args[0]) if a.args[0].op == "str" else a.args
                        if x in known and known[x] is not s:
                            lits[a] = False
            c = self.simp(c, lits)
        if implies(st.pc, c):
            return TRUE
        if and_(st.pc, c) is FALSE:
            return FALSE
        return c

    @staticmethod
    def split_const(p):
        d = as_poly(p)
        k = d.pop((), Fraction(0))
        return norm(d), k

    def branch(self, c, st, fa, fb):
        """evaluate fa under c and fb under not c (callables on a state returning a value); merges states, returns value"""
        c = self.under_pc(tobool(c), st)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        s1, s2 = st.copy(), st
        s1.pc = and_(st.pc, c)
        s2 = St(dict(st.mem), and_(st.pc, not_(c)))
        v1 = fa(s1)
        v2 = fb(s2)
        m = self.merge([s1, s2])
        if m is None:
            st.pc = FALSE
            return v1
        if s1.dead:
            v = v2
        elif s2.dead:
            v = v1
        else:
            v = None
            if v1 is not None and v2 is not None:
                v = ite(c, v1, v2)
        st.become(m)
        return v

    # ------------------------------------------------------------ expressions
    def rv(self, n, st, fr):
        if n is None:
            return VOID
        m = getattr(self, "r_" + (n.k or "none"), None)
        if m is None:
            return mk("unk", n.k or "none", id(n))
        return m(n, st, fr)

    def lv(self, n, st, fr):
        m = getattr(self, "l_" + (n.k or "none"), None)
        if m is not None:
            r = m(n, st, fr)
            if r is not None:
                return r
        return self.temp(self.rv(n, st, fr), st)

    def r_defarg(self, n, st, fr):
        return self.rv(n.e, st, fr)

    r_definit = r_defarg

    def l_defarg(self, n, st, fr):
        return self.lv(n.e, st, fr)

    def r_int(self, n, st, fr):
        return num(int(n.v))

    def r_flt(self, n, st, fr):
        s = n.s or n.v
        try:
            return num(Fraction(re.sub(r"[fFlLuU']+$", "", s)))
        except (ValueError, ZeroDivisionError):
            try:
                return num(Fraction(n.v))
            except ValueError:
                return mk("fltc", n.v)

    def r_str(self, n, st, fr):
        return string(n.v if n.v is not None else "")

    def r_bool(self, n, st, fr):
        return boolc(n.v)

    def r_nullp(self, n, st, fr):
        return NULL

    def r_this(self, n, st, fr):
        return ptr(fr.this if fr.this is not None else THIS)

    def r_zero(self, n, st, fr):
        return self.zero(n.t)

    def zero(self, t):
        t = bare(t)
        if t == "bool":
            return FALSE
        if t in INT_T or t in FLT_T:
            return ZERO
        if isptr(t):
            return NULL
        return mk("new", t)

    def r_none(self, n, st, fr):
        return VOID

    def r_typeid(self, n, st, fr):
        return mk("typeid", id(n))

    def r_szof(self, n, st, fr):
        if n.v is not None:
            return num(int(n.v))
        return mk("sizeof", n.at or "")

    def r_ref(self, n, st, fr):
        if n.cvv is not None:
            return boolc(int(n.cvv)) if bare(n.t) == "bool" else num(int(n.cvv))
        d = n.d
        if d is None:
            return mk("unk", "ref", id(n))
        if d.k == "EnumConstant":
            return num(int(d.v))
        if d.isfunc:
            return mk("fn", d)
        return self.load(st, self.l_ref(n, st, fr))

    def l_ref(self, n, st, fr):
        d = n.d
        if d is None or d.k == "EnumConstant":
            return None
        if d.isfunc:
            return mk("fnloc", d)
        f = fr
        while f is not None:
            if d in f.env:
                return f.env[d]
            f = f.capt
        if d.global_ if False else d.a.get("global"):
            l = mk("glob", d)
            if isref(d.t):
                return deref(self.get(st, l))
            return l
        if d.param and fr.fn is not None:
            l = obj("param:%s" % d.name)
            return l
        l = var(d, fr.uid)
        return l

    def r_mem(self, n, st, fr):
        d = n.d
        if d is not None and d.isfunc:
            return mk("fn", d)
        if d is not None and d.k == "EnumConstant":
            return num(int(d.v))
        return self.load(st, self.l_mem(n, st, fr))

    def l_mem(self, n, st, fr):
        d = n.d
        if d.a.get("global") or d.k == "Var":
            self.rv(n.b, st, fr)
            return mk("glob", d)
        if n.ar:
            b = deref(self.rv(n.b, st, fr))
        else:
            b = self.lv(n.b, st, fr)
        name = d.name if (not d.mine) else (d.q or d.name)
        l = lift(lambda x: F(x, name), b)
        if isref(d.t):
            return deref(self.load(st, l))
        return l

    def r_idx(self, n, st, fr):
        return self.load(st, self.l_idx(n, st, fr))

    def l_idx(self, n, st, fr):
        # arrays: base is an lvalue of array type, or a pointer
        bt = n.b.t or ""
        i = self.rv(n.i, st, fr)
        if "[" in bt:
            return lift(E, self.lv(n.b, st, fr), i)
        p = self.rv(n.b, st, fr)
        return lift(lambda q, j: self.ptr_index(q, j), p, i)

    def ptr_index(self, p, i):
        if p.op == "padd":
            return self.ptr_index(p.args[0], add(p.args[1], i))
        if p.op == "ptr" and p.args[0].op == "E":
            b, j = p.args[0].args
            return E(b, add(i, j))
        if p.op == "ptr" and i is ZERO:
            return p.args[0]
        if p.op == "str":
            return E(mk("strobj", p), i)
        if i is ZERO:
            return deref(p)
        return E(mk("arr", p), i)

    def r_un(self, n, st, fr):
        op = n.op
        if op == "&":
            if n.e.k in ("ref", "mem") and n.e.d is not None and n.e.d.isfunc:
                return mk("fn", n.e.d)
            return ptr(self.lv(n.e, st, fr))
        if op in ("++", "--"):
            l = self.lv(n.e, st, fr)
            old = self.load(st, l)
            new = self.advance(old, ONE if op == "++" else num(-1))
            self.store(st, l, new)
            return old if n.post else new
        if op == "*":
            return self.load(st, self.l_un(n, st, fr))
        v = self.rv(n.e, st, fr)
        if op == "!":
            return not_(v)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        return mkl("un" + op, v)

    def advance(self, v, k):
        def f(x):
            if x.op == "iter":
                return mk("iter", x.args[0], add(x.args[1], k))
            if x.op in ("ptr", "padd", "D") or (x.op not in ("num", "poly") and x.op == "init" and False):
                return self.padd(x, k)
            return add(x, k)
        return lift(f, v)

    def padd(self, p, k):
        if k is ZERO:
            return p
        if p.op == "padd":
            s = add(p.args[1], k)
            return p.args[0] if s is ZERO else mk("padd", p.args[0], s)
        if p.op == "ptr" and p.args[0].op == "E":
            b, j = p.args[0].args
            return ptr(E(b, add(j, k)))
        return mk("padd", p, k)

    def l_un(self, n, st, fr):
        if n.op == "*":
            p = self.rv(n.e, st, fr)
            return lift(lambda x: self.ptr_index(x, ZERO) if x.op in ("padd", "str") else deref(x), p)
        if n.op in ("++", "--") and not n.post:
            self.r_un(n, st, fr)
            return self.lv(n.e, st, fr) if n.e.k in ("ref", "mem") else self.lv(n.e, st, fr)
        return None

    def isint(self, *ns):
        return all(bare(n.t) in INT_T or self.isenum(n.t) for n in ns)

    def isenum(self, t):
        t = bare(t)
        if t in FLT_T or t in INT_T:
            return False
        e = getattr(self.P, "_enumq", None)
        if e is None:
            e = self.P._enumq = {d.q for d in self.P.enums}
        return t in e

    def r_bin(self, n, st, fr):
        op = n.op
        if op == "&&":
            a = tobool(self.rv(n.x, st, fr))
            return self.branch(a, st, lambda s: tobool(self.rv(n.y, s, fr)), lambda s: FALSE)
        if op == "||":
            a = tobool(self.rv(n.x, st, fr))
            return self.branch(a, st, lambda s: TRUE, lambda s: tobool(self.rv(n.y, s, fr)))
        if op == ",":
            self.rv(n.x, st, fr)
            return self.rv(n.y, st, fr)
        if op in (".*", "->*"):
            return self.load(st, self.l_bin(n, st, fr))
        a = self.rv(n.x, st, fr)
        b = self.rv(n.y, st, fr)
        return self.arith(op, a, b, n)

    def l_bin(self, n, st, fr):
        if n.op == ",":
            self.rv(n.x, st, fr)
            return self.lv(n.y, st, fr)
        if n.op in (".*", "->*"):
            b = self.lv(n.x, st, fr) if n.op == ".*" else deref(self.rv(n.x, st, fr))
            m = self.rv(n.y, st, fr)
            return F(b, m)
        return None

    def arith(self, op, a, b, n):
        t = n.t
        it = self.isint(n.x, n.y)
        if op in ("+", "-") and (isptr(n.x.t) or isptr(n.y.t) or a.op == "iter"):
            if op == "+":
                if isptr(n.y.t) and not isptr(n.x.t):
                    a, b = b, a
                return lift(self.padd, a, b)
            if isptr(n.x.t) and isptr(n.y.t):
                return mkl("pdiff", a, b)
            return lift(self.padd, a, neg(b))
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if it:
                return lift(self.idiv, a, b)
            return div(a, b)
        if op == "%":
            return lift(self.irem, a, b)
        if op in ("==", "!="):
            if isptr(n.x.t) or isptr(n.y.t):
                r = lift(self.ptreq, a, b)
            elif bare(n.x.t) in NUM_T and bare(n.y.t) in NUM_T:
                r = lift(self.numeq, a, b)
                if self.nan and not it:
                    r = and_(lift(lambda x, y: not_(self.unordered(x, y)), a, b), r)
            else:
                r = eq(a, b)
            return r if op == "==" else not_(r)
        if op in ("<", ">", "<=", ">="):
            if it and bare(n.x.t).startswith("unsigned") and bare(n.y.t).startswith("unsigned"):
                # an unsigned value is above 0 when it is not 0
                plain = lambda x: all(l.op in ("mu", "arg") for l in leafset(x))
                if a is ZERO and op in ("<", ">=") and plain(b):
                    return not_(eq(b, ZERO)) if op == "<" else TRUE
                if b is ZERO and op in (">", "<=", "<", ">=") and plain(a):
                    return {">": not_(eq(a, ZERO)), "<=": eq(a, ZERO), "<": FALSE, ">=": TRUE}[op]
            return self.compare(op, a, b, it)
        if op in ("<<", ">>") and b.op == "num":
            k = num(2 ** int(b.args[0]))
            return mul(a, k) if op == "<<" else lift(self.idiv, a, k)
        if op in ("&", "|", "^"):
            def bits(a, b):
                if a.op == "num" and b.op == "num":
                    x, y = int(a.args[0]), int(b.args[0])
                    return num(x & y if op == "&" else x | y if op == "|" else x ^ y)
                if op != "&" and b is ZERO:
                    return a
                if op != "&" and a is ZERO:
                    return b
                if a.id > b.id:
                    a, b = b, a
                return mk("op" + op, a, b)
            if a.op == "ite" or b.op == "ite" or a in (TRUE, FALSE) or b in (TRUE, FALSE):
                bools = bare(n.x.t) == "bool" and bare(n.y.t) == "bool" or all(strip(x).t == "bool" for x in (n.x, n.y))
                if bools:
                    return and_(a, b) if op == "&" else or_(a, b) if op == "|" else ite(tobool(a), not_(b), tobool(b))
            return lift(bits, a, b)
        return mkl("op" + op, a, b)

    @staticmethod
    def numeq(a, b):
        """equality of numbers: always a condition on their difference"""
        if a is b:
            return TRUE
        if a in (TRUE, FALSE) or b in (TRUE, FALSE) or a.op in NONNUM or b.op in NONNUM:
            return TM._eq(a, b)
        for x, y in ((a, b), (b, a)):
            if y is ONE and x.op == "poly" and len(x.args[0]) == 1:
                m, c = x.args[0][0]
                if c == 1 and len(m) > 1 and all(extent(z) for z, e in m):
                    return and_(*[TM._eq(sub(z, ONE), ZERO) for z, e in m])
        return TM._eq(sub(a, b), ZERO)

    @staticmethod
    def ptreq(a, b):
        a, b = (NULL if x is ZERO else x for x in (a, b))
        if a is b:
            return TRUE
        if a.op == "null" or b.op == "null":
            x = b if a.op == "null" else a
            return not_(tobool(x))
        return TM._eq(a, b)

    def compare(self, op, a, b, it):
        if not it and self.nan:
            if op in (">", ">="):
                a, b = b, a
                op = "<" if op == ">" else "<="
            return lift(lambda x, y: and_(not_(self.unordered(x, y)), lt(x, y, False) if op == "<" else le(x, y, False)), a, b)
        if op == "<":
            return lt(a, b, it)
        if op == ">":
            return lt(b, a, it)
        if op == "<=":
            return le(a, b, it)
        return le(b, a, it)

    def unordered(self, *ts):
        """one of the floating point values is not a number"""
        out = []
        for t in ts:
            for m in as_poly(t):
                for a, _ in m:
                    if a.op == "fn1":
                        out.append(self.unordered(*a.args[1:]))
                    elif a not in self.integral:
                        out.append(tobool(mk("isnan", a)))
        return or_(*out) if out else FALSE

    @staticmethod
    def idiv(a, b):
        if a.op == "num" and b.op == "num" and b.args[0]:
            q = abs(a.args[0]) // abs(b.args[0])
            return num(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
        return mk("idiv", a, b)

    @staticmethod
    def irem(a, b):
        if a.op == "num" and b.op == "num" and b.args[0]:
            q = Engine.idiv(a, b).args[0]
            return num(a.args[0] - q * b.args[0])
        return mk("irem", a, b)

    def r_asg(self, n, st, fr):
        l = self.l_asg(n, st, fr)
        return self.load(st, l)

    def l_asg(self, n, st, fr):
        if n.op == "=":
            v = self.rv(n.y, st, fr)
            l = self.lv(n.x, st, fr)
            if bare(n.x.t) == "bool":
                v = tobool(v)
            self.store(st, l, v)
            return l
        l = self.lv(n.x, st, fr)
        a = self.load(st, l)
        b = self.rv(n.y, st, fr)
        op = n.op[:-1]

        class N2:
            pass
        n2 = N2()
        n2.t, n2.x, n2.y = n.t, n.x, n.y
        v = self.arith(op, a, b, n2)
        if bare(n.x.t) in INT_T and bare(n.y.t) in FLT_T:
            v = self.trunc(v)
        self.store(st, l, v)
        return l

    def r_cond(self, n, st, fr):
        c = tobool(self.rv(n.c, st, fr))
        return self.branch(c, st, lambda s: self.rv(n.x, s, fr), lambda s: self.rv(n.y, s, fr))

    def l_cond(self, n, st, fr):
        c = tobool(self.rv(n.c, st, fr))
        temps = {}

        def side(x):
            def go(s):
                l = self.lv(x, s, fr)
                # a temporary made on one side outlives the join
                for k, v in s.mem.items():
                    r = root_of(k)
                    if r.op == "var" and r.args[0] == "tmp":
                        temps[k] = v
                return l
            return go
        l = self.branch(c, st, side(n.x), side(n.y))
        for k, v in temps.items():
            st.mem.setdefault(k, v)
        return l

    def r_cast(self, n, st, fr):
        ck = n.ck or ""
        if ck == "Dynamic":
            v = self.rv(n.e, st, fr)
            return lift(lambda x: NULL if x is NULL else self.dyncast(x, bare(n.t)), v)
        v = self.rv(n.e, st, fr)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return lift(lambda x: tobool(x) if x is TRUE or x is FALSE or x.op in CONSTOPS else not_(eq(x, ZERO)), v)
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return tobool(v)
        if ck == "FloatingToIntegral":
            return self.trunc(v)
        if ck == "IntegralToFloating" and self.nan:
            for l in leafset(v):
                for m in as_poly(l):
                    self.integral.update(a for a, _ in m)
        if ck == "IntegralCast" or ck == "IntegralToFloating":
            if v is TRUE or v is FALSE or (v.op == "ite" and all(l is TRUE or l is FALSE for l in leafset(v))):
                return lift(lambda x: ONE if x is TRUE else ZERO if x is FALSE else x, v)
            return v
        if ck == "ToVoid":
            return VOID
        if ck == "NullToPointer":
            return NULL
        return v

    def trunc(self, v):
        def f(x):
            if x.op == "num":
                q = x.args[0]
                return num(int(q))
            if x.op == "size" or x.op in ("idiv", "trunc"):
                return x
            return mk("trunc", x)
        return lift(f, v)

    def dyncast(self, p, t):
        if p.op == "ptr" and self.otype(p.args[0]) is not None:
            ot = self.otype(p.args[0])
            rec = self.rec_of(ot)
            target = t.rstrip("*& ").replace("const ", "")
            if rec is not None:
                names = [ot] + [b.ty or b.q for b in self.P.bases_closure(rec)]
                return p if target in names else NULL
        return mk("dyn", p, t)

    def l_cast(self, n, st, fr):
        if n.ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "LValueBitCast", "Dynamic"):
            if isptr(n.t):
                return None
            return self.lv(n.e, st, fr)
        if n.ck in ("ConstructorConversion", "UserDefinedConversion"):
            return self.lv(n.e, st, fr)
        return None

    def r_ilist(self, n, st, fr):
        rec = self.rec_of(n.t)
        if rec is not None and rec.mine:
            d = {}
            for f, a in zip(rec.fields or (), n.a):
                d[f.q or f.name] = self.rv(a, st, fr)
            return with_(mk("new", bare(n.t)), d)
        if len(n.a) == 1 and "[" not in (n.t or "") and rec is None and not VECLIKE.match(bare(n.t)) and "initializer_list" not in n.t:
            return self.rv(n.a[0], st, fr)
        return mk("list", *[self.rv(a, st, fr) for a in n.a])

    def r_throw(self, n, st, fr):
        v = self.rv(n.e, st, fr) if n.e is not None else mk("rethrow")
        t = bare(n.e.t) if n.e is not None else "rethrow"
        if not st.dead:
            fr.throws.append((st.copy(), t, v, fr.where(n), fr))
        st.pc = FALSE
        return VOID

    def r_lam(self, n, st, fr):
        caps = []
        for c in n.cap:
            if c.this:
                continue
            if c.d is not None:
                l = self.l_ref(_Ref(c.d), st, fr)
                if not c.ref:
                    v = self.load(st, l)
                    l = self.temp(v, st)
                caps.append((c.d, l))
        return mk("lam", n.d, n, fr.this if fr.this is not None else THIS, tuple(caps))

    def r_new(self, n, st, fr):
        l = self.newobj(bare(n.at))
        if n.i is not None:
            self.construct(n.i, l, st, fr)
        elif n.arr:
            st.mem[l] = mk("newarr", bare(n.at), self.rv(n.n, st, fr) if n.n is not None else ZERO)
            return ptr(E(l, ZERO))
        return ptr(l)

    def r_del(self, n, st, fr):
        self.rv(n.e, st, fr)
        return VOID

    def r_stmtexpr(self, n, st, fr):
        self.stmt(n.b, st, fr)
        return VOID

    def r_pseudodtor(self, n, st, fr):
        return VOID

    def r_x(self, n, st, fr):
        if n.cvv is not None:
            return num(int(n.cvv))
        v = [self.rv(c, st, fr) for c in n.c or () if isinstance(c, dict)]
        if n.cls == "SourceLocExpr":
            return mk("srcloc")
        if n.cls == "ArrayInitLoopExpr" and v:
            return v[0]
        return mk("x", n.cls, *v)

    # ------------------------------------------------------------ construction
    def rec_of(self, t):
        t = bare(t)
        rs = getattr(self.P, "_rec_ty", None)
        if rs is None:
            rs = self.P._rec_ty = {}
            for r in self.P.records:
                if not r.dep:
                    rs.setdefault(r.ty or r.q, r)
                    rs.setdefault(r.q, r)
        return rs.get(t)

    def r_ctor(self, n, st, fr):
        v = self.model_ctor(n, st, fr)
        if v is not None:
            return v
        l = self.temp(mk("new", bare(n.t)), st)
        del st.mem[l]
        self.construct(n, l, st, fr)
        v = self.load(st, l)
        for k in [k for k in st.mem if root_of(k) is l]:
            del st.mem[k]
        if v.op == "undef":
            v = mk("new", bare(n.t))
        return v

    def l_ctor(self, n, st, fr):
        l = self.temp(VOID, st)
        del st.mem[l]
        self.objtype[l] = bare(n.t)
        self.construct(n, l, st, fr)
        return l

    def construct(self, n, l, st, fr):
        """initialise location l by expression n"""
        n = self.peel(n)
        if n.k == "ctor":
            for g in self.makers:
                if g(self, n, l, st, fr):
                    return
            v = self.model_ctor(n, st, fr)
            if v is not None:
                self.store(st, l, v)
                return
            f = n.f
            if f is not None and f.mine and (f.body is not None or f.inits) and not f.copyctor and not f.movector or (f is not None and f.mine and f.body is not None and not f.defaulted):
                self.run_ctor(f, l, n.a, st, fr, n)
                return
            if f is not None and (f.copyctor or f.movector) and n.a:
                self.store(st, l, self.rv(n.a[0], st, fr))
                return
            rec = self.rec_of(n.t)
            if rec is not None and rec.mine and not n.a:
                self.default_fields(rec, l, st, fr)
                return
            args = [self.rv(a, st, fr) for a in n.a]
            self.event("ctor", st, f, None, args, mk("new", bare(n.t), *args), n, fr)
            t = bare(n.t) if args else bare(n.t).replace("std::basic_ostringstream<", "std::basic_stringstream<")
            self.store(st, l, mkl("new", t, *args))
            return
        if n.k == "ilist":
            rec = self.rec_of(n.t)
            if rec is not None and rec.mine:
                for f, a in zip(rec.fields or (), n.a):
                    self.construct(a, F(l, f.q or f.name), st, fr)
                return
        v = self.rv(n, st, fr)
        if bare(n.t) == "bool":
            v = tobool(v)
        self.store(st, l, v)

    def default_fields(self, rec, l, st, fr):
        for b in rec.bases or ():
            if b is not None and b.mine:
                self.default_fields(b, l, st, fr)
        for f in rec.fields or ():
            fl = F(l, f.q or f.name)
            if f.init is not None:
                self.construct(f.init, fl, st, Frame(rec, fr, l))
            else:
                r = self.rec_of(f.t)
                if r is not None and r.mine:
                    self.default_fields(r, fl, st, fr)
                elif bare(f.t) in INT_T or bare(f.t) in FLT_T or isptr(f.t):
                    st.mem[fl] = mk("undef", fl)
                elif SMART.match(bare(f.t)):
                    st.mem[fl] = NULL
                elif STRLIKE.match(bare(f.t)):
                    st.mem[fl] = string("")
                else:
                    st.mem[fl] = mk("new", bare(f.t))

    @staticmethod
    def peel(n):
        while n.k in ("defarg", "definit") or (n.k == "cast" and n.ck in ("ConstructorConversion", "NoOp") and n.sk in ("impl", "func", "static", "c") and n.e is not None and n.e.k in ("ctor", "ilist")):
            n = n.e
        return n

    def run_ctor(self, f, l, argnodes, st, fr, node):
        nf = Frame(f, fr, l, node)
        self.uid += 1
        nf.uid = self.uid
        self.bind(f, argnodes, nf, st, fr)
        self.inlined.add(f.q)
        self.ctor_inits(f, l, nf, st)
        if f.body is not None:
            self.run_body(f, nf, st)
        self.leave(nf, st, fr)

    def ctor_inits(self, f, l, nf, st):
        rec = f.cls
        seen = set()
        for i in f.inits or ():
            if i.field is not None:
                fd = i.field
                seen.add(fd)
                fl = F(l, fd.q or fd.name)
                if isref(fd.t):
                    st.mem[fl] = ptr(self.lv(i.e, st, nf))
                else:
                    e = self.peel(i.e)
                    if e.k == "ctor" and not e.a and self.model_ctor(e, st, nf) is None and not (e.f is not None and e.f.mine):
                        self.store(st, fl, mk("new", bare(fd.t)))
                    else:
                        self.construct(i.e, fl, st, nf)
            elif i.deleg or i.base is not None:
                e = self.peel(i.e)
                if e.k == "ctor" and e.f is not None and e.f.mine:
                    if e.f.body is not None or e.f.inits:
                        if e.f.defaulted and (e.f.copyctor or e.f.movector):
                            src = self.lv(e.a[0], st, nf)
                            self.copy_fields(e.f.cls, src, l, st)
                        else:
                            self.run_ctor(e.f, l, e.a, st, nf, e)
                    elif (e.f.copyctor or e.f.movector) and e.a:
                        self.copy_fields(e.f.cls, self.lv(e.a[0], st, nf), l, st)
                    else:
                        r = e.f.cls
                        if r is not None:
                            self.default_fields(r, l, st, nf)
                elif e.k == "ictor":
                    bf = e.f
                    if bf is not None and (bf.body is not None or bf.inits):
                        nf2 = Frame(bf, nf, l, e)
                        self.uid += 1
                        nf2.uid = self.uid
                        for pb, pc in zip(bf.ps or (), f.ps or ()):
                            if isref(pb.t) or isref(pc.t):
                                nf2.env[pb] = nf.env[pc]
                            else:
                                lb = var(pb, nf2.uid)
                                self.store(st, lb, self.load(st, nf.env[pc]))
                                nf2.env[pb] = lb
                        self.inlined.add(bf.q)
                        self.ctor_inits(bf, l, nf2, st)
                        if bf.body is not None:
                            self.run_body(bf, nf2, st)
                        self.leave(nf2, st, nf)
                else:
                    # a base outside the repository
                    self.store(st, F(l, "base:" + bare(i.base or "")), self.rv(e, st, nf))
        if rec is not None and rec.fields is not None and not any(i.deleg for i in f.inits or ()):
            for fd in rec.fields:
                if fd not in seen:
                    fl = F(l, fd.q or fd.name)
                    if fd.init is not None:
                        self.construct(fd.init, fl, st, nf)
                    elif fl not in st.mem:
                        t = bare(fd.t)
                        r = self.rec_of(t)
                        if r is not None and r.mine:
                            self.default_fields(r, fl, st, nf)
                        elif SMART.match(t):
                            st.mem[fl] = NULL
                        elif STRLIKE.match(t):
                            st.mem[fl] = string("")
                        elif t in INT_T or t in FLT_T or isptr(t):
                            st.mem[fl] = mk("undef", fl)
                        else:
                            st.mem[fl] = mk("new", t)

    def copy_fields(self, rec, src, dst, st):
        if rec is None:
            return
        for b in rec.bases or ():
            if b is not None and b.fields is not None:
                self.copy_fields(b, src, dst, st)
        for f in rec.fields or ():
            n = f.q or f.name
            st.mem[F(dst, n)] = self.load(st, F(src, n))

    # ------------------------------------------------------------ calls
    def event(self, kind, st, fn, recv, args, term, node, fr, argnodes=None, extra=None):
        if not self.quiet:
            self.events.append(Event(pc=st.pc, kind=kind, fn=fn, recv=recv, args=args, term=term, node=node, frame=fr, argnodes=argnodes, extra=extra))

    def bind(self, f, argnodes, nf, st, fr):
        ps = f.ps or []
        for i, p in enumerate(ps):
            a = argnodes[i] if i < len(argnodes) else None
            if a is None:
                continue
            self.bind1(p, a, nf, st, fr)

    def bind1(self, p, a, nf, st, fr):
        l = var(p, nf.uid)
        if isinstance(a, T):
            if isref(p.t):
                nf.env[p] = a      # a location
            else:
                self.store(st, l, a)
                nf.env[p] = l
            return
        if isref(p.t):
            nf.env[p] = self.lv(a, st, fr)
        else:
            nf.env[p] = l
            if isptr(p.t) and "[" in (a.t or "") and a.k in ("ref", "mem", "idx"):
                self.store(st, l, lift(lambda x: ptr(E(x, ZERO)), self.lv(a, st, fr)))     # array decay
                return
            self.construct(a, l, st, fr)

    def r_call(self, n, st, fr):
        r, ref = self.callx(n, st, fr)
        return self.load(st, r) if ref else r

    def l_call(self, n, st, fr):
        r, ref = self.callx(n, st, fr)
        if ref:
            return r
        l = self.temp(r, st)
        if not isptr(n.t):
            self.objtype[l] = bare(n.t)
        return l

    def l_throw(self, n, st, fr):
        self.r_throw(n, st, fr)
        return mk("in", "never")

    def recv_loc(self, n, st, fr):
        if n.o is None:
            return None
        if n.ar or isptr(n.o.t):
            return deref(self.rv(n.o, st, fr))
        return self.lv(n.o, st, fr)

    def callx(self, n, st, fr):
        """(value, False) or (location, True)"""
        f = n.f
        if f is None:
            return self.indirect(n, st, fr)
        for m in self.models:
            r = m(self, n, st, fr)
            if r is not None:
                return r
        if f.defaulted and f.name == "operator=" and n.a and len(n.a) == 1:
            v = self.rv(n.a[0], st, fr)
            l = self.recv_loc(n, st, fr)
            self.store(st, l, v)
            return l, True
        r = self.model(n, st, fr)
        if r is not None:
            return r
        this = None
        if n.o is not None:
            this = self.recv_loc(n, st, fr)
            if this.op == "ite" and f.virtual and n.virt:
                # dispatch per alternative
                out = None
                for c, l in leaves(this):
                    pass
        g = self.resolve(f, n, this, fr)
        if g is not None:
            return self.inline(g, this, n.a, st, fr, n)
        return self.opaque(f, n, this, st, fr)

    recurse = False  # a free function that calls itself is followed once

    def resolve(self, f, n, this, fr):
        """the repository function to analyse in place, or None"""
        if f.virtual and n.virt:
            t = self.dyntype(this)
            if t is not None:
                g = self.override_in(f, t)
                if g is not None:
                    f = g
                elif f.pure:
                    return None
            elif f.pure or self.P.overriders.get(id(f)):
                return None
        if not f.mine or f.body is None or not self.inline_ok(f):
            return None
        if fr.depth >= self.maxdepth:
            return None
        x = fr
        k = 0
        while x is not None:
            if x.fn is f:
                k += 1
                if x.this is this and not (this is None and self.recurse):
                    # a recursion on the same object is left as a call
                    return None
            x = x.parent
        if k > 1:
            return None
        return f

    def dyntype(self, loc):
        if loc is None:
            return None
        t = self.dyn.get(loc)
        if t is not None:
            return t
        return self.otype(loc)

    def override_in(self, f, t):
        rec = self.rec_of(t)
        if rec is None:
            return None

        def ovs(m, acc):
            for o in m.ov or ():
                acc.add(id(o))
                ovs(o, acc)
            return acc
        cs = [rec] + self.P.bases_closure(rec)
        for c in cs:
            for m in c.methods or ():
                if m is f or id(f) in ovs(m, set()):
                    return m
        return None

    def inline(self, f, this, args, st, fr, node):
        nf = Frame(f, fr, this, node)
        self.uid += 1
        nf.uid = self.uid
        self.bind(f, args, nf, st, fr)
        self.inlined.add(f.q)
        v = self.run_body(f, nf, st)
        self.leave(nf, st, fr)
        ref = isref(f.rt)
        return v, ref

    def run_body(self, f, nf, st):
        nf.rets = []
        self.stmt(f.body, st, nf)
        outs = list(nf.rets)
        if not st.dead:
            outs.append((st.copy(), None))
        outs = [(s, v) for s, v in outs if not s.dead]
        if not outs:
            st.pc = FALSE
            return VOID
        m = self.merge([s for s, _ in outs])
        v = None
        vals = [(s.pc, x) for s, x in outs if x is not None]
        if vals:
            v = vals[-1][1]
            for c, x in vals[:-1][::-1]:
                v = self.gate(c, x, v)
            v = self.simp(v, literals(m.pc))
        st.become(m)
        return v if v is not None else VOID

    def leave(self, nf, st, fr):
        fr.throws.extend(nf.throws) if nf.throws is not fr.throws else None
        for k in [k for k in st.mem if root_of(k).op == "var" and root_of(k).args[1] == nf.uid and root_of(k).args[0] != "tmp"]:
            del st.mem[k]

    def fname(self, f):
        x = f
        while x.ov:
            x = x.ov[0]
        q = x.q or x.name or "?"
        return q + (f.targs or "" if f.targs and f.targs != "<>" else "")

    def opaque(self, f, n, this, st, fr, args=None):
        q = self.fname(f)
        vals, outs = [], []
        argn = n.a if args is None else []
        ps = f.ps or []
        for i, a in enumerate(argn):
            pt = ps[i].t if i < len(ps) else None
            if pt is not None and isref(pt) and not pt.startswith("const "):
                if pt.endswith("&&"):
                    vals.append(self.rv(a, st, fr))
                else:
                    l = self.lv(a, st, fr)
                    vals.append(self.load(st, l))
                    outs.append((i, l))
            else:
                v = self.rv(a, st, fr)
                vals.append(v)
                if pt is not None and isptr(pt) and not pt.startswith("const ") and v.op == "ptr":
                    outs.append((i, v.args[0]))
        if args is not None:
            vals = list(args)
        return self.opaque2(f, q, n, this, vals, outs, st, fr)

    def opaque2(self, f, q, n, this, vals, outs, st, fr):
        if q.startswith("std::operator<<") and len(vals) == 2 and len(f.ps) == 2 and bare(f.ps[1].t) == "char":
            vals = [vals[0], self.chr(vals[1])]     # a character prints like the text that consists of it
        if q.startswith("std::basic_ostream<") and q.endswith("::operator<<") and len(vals) == 1 and vals[0].op == "fn" and getattr(vals[0].args[0], "q", None) == "std::flush":
            q, vals = q[:-len("operator<<")] + "flush", []
        if q.startswith("std::basic_ostringstream<") and q.endswith("::str") and not vals:
            q = q.replace("ostringstream", "stringstream")
        self.opaques[q] = self.opaques.get(q, 0) + 1
        rv = None
        if this is not None:
            rv = self.load(st, this)
            vals2 = [rv] + vals
        else:
            vals2 = vals
        term = mkl("call", q, *vals2)
        if bare(f.rt) == "bool":
            term = tobool(term)
        if fr.intry and not f.nothrow:
            self.maythrow(term, q, vals2, st, fr, n)
        self.event("call", st, f, this, vals, term, n, fr, n.a if n is not None else None)
        if this is not None and f.cls is not None and not f.const and not f.static:
            self.store(st, this, mkl("mut", q, *vals2))
        for i, l in outs:
            self.store(st, l, mkl("out", i, mkl("call", q, *vals2)))
        if f.noret:
            st.pc = FALSE
        if isref(f.rt):
            # operators and setters returning *this or their stream
            if this is not None and f.op in ("=", "+=", "-=", "*=", "/=", "<<", ">>", "++", "--") and bare(f.rt) == bare(f.cls.ty or f.cls.q):
                return this, True
            if outs and bare(f.rt) == bare((f.ps[outs[0][0]].t)) and outs[0][0] == 0:
                return outs[0][1], True
            return lift(deref, mkl("call", q, *vals2)), True
        return term, False

    def maythrow(self, term, q, vals, st, fr, n):
        a = mkl("throws", q, *vals)
        a = tobool(a)
        s = st.copy()
        s.pc = and_(st.pc, a)
        if not s.dead:
            fr.throws.append((s, "?", mk("exc", q), fr.where(n), fr))
        st.pc = and_(st.pc, not_(a))

    def indirect(self, n, st, fr):
        fe = n.fe
        if fe is None:
            return mk("unk", "call", id(n)), False
        u = fe
        while u.k in ("cast", "defarg"):
            u = u.e
        if u.k == "bin" and u.op in (".*", "->*"):
            this = self.lv(u.x, st, fr) if u.op == ".*" else deref(self.rv(u.x, st, fr))
            m = self.rv(u.y, st, fr)
            if m.op == "fn":
                f = m.args[0]
                t = self.dyntype(this)
                g = f
                if f.virtual:
                    if t is not None:
                        g = self.override_in(f, t) or f
                    elif f.pure or self.P.overriders.get(id(f)):
                        g = None
                if g is not None and g.mine and g.body is not None and self.inline_ok(g):
                    return self.inline(g, this, n.a, st, fr, n)
                return self.opaque(f, n, this, st, fr)
            args = [self.rv(a, st, fr) for a in n.a]
            t = mkl("callmp", m, self.load(st, this), *args)
            self.event("indirect", st, None, this, args, t, n, fr, n.a)
            return t, isref(n.t)
        v = self.rv(fe, st, fr)
        return self.apply(v, n, st, fr)

    def apply(self, v, n, st, fr):
        """call the callable value v with the argument nodes of n"""
        if v.op == "ptr":
            v = self.load(st, v.args[0])
        if v.op == "fnloc":
            v = mk("fn", v.args[0])
        if v.op == "fn":
            f = v.args[0]
            if f.mine and f.body is not None and self.inline_ok(f):
                return self.inline(f, None, n.a, st, fr, n)
            return self.opaque(f, n, None, st, fr)
        if v.op == "lam":
            return self.call_lambda(v, n.a, st, fr, n)
        if v.op == "ite":
            outs = []
            for c, leaf in leaves(v):
                s = st.copy()
                s.pc = and_(st.pc, c)
                if s.dead:
                    continue
                r, ref = self.apply(leaf, n, s, fr)
                outs.append((s, r, ref))
            m = self.merge([s for s, _, _ in outs])
            if m is None:
                st.pc = FALSE
                return VOID, False
            r = outs[-1][1]
            for s, x, _ in outs[:-1]:
                r = ite(s.pc, x, r)
            st.become(m)
            return r, outs[0][2]
        args = [self.rv(a, st, fr) for a in n.a or ()]
        t = mkl("apply", v, *args)
        self.event("indirect", st, None, v, args, t, n, fr, n.a)
        if bare(n.t) == "bool":
            t = tobool(t)
        return t, False

    def call_lambda(self, v, args, st, fr, n):
        d, ln, this, caps = v.args
        if d.body is None:
            return mk("unk", "lam", id(n)), False
        nf = Frame(d, fr, this, n)
        self.uid += 1
        nf.uid = self.uid
        for cd, l in caps:
            nf.env[cd] = l
        self.bind(d, args, nf, st, fr)
        r = self.run_body(d, nf, st)
        self.leave(nf, st, fr)
        return r, isref(d.rt)

    # ------------------------------------------------------------ statements
    def stmt(self, s, st, fr):
        if s is None or st.dead:
            return
        k = s.k
        m = getattr(self, "s_" + (k or "none"), None)
        if m is not None:
            m(s, st, fr)
        else:
            self.rv(s, st, fr)

    def s_none(self, s, st, fr):
        pass

    s_null = s_none

    def s_block(self, s, st, fr):
        fr.scopes.append([])
        for c in s.c:
            if st.dead:
                break
            self.stmt(c, st, fr)
        self.unscope(fr.scopes.pop(), st, fr)

    def unscope(self, here, st, fr):
        """the objects of a scope that is left, the last one first, are handed to the models that know of their end"""
        for d, l in reversed(here):
            for g in self.enders:
                if not st.dead:
                    g(self, d, l, st, fr)

    def s_decl(self, s, st, fr):
        for v in s.v:
            d = v.d
            if d is None or d.k not in ("Var", "Decomposition", "VarTemplateSpecialization"):
                continue
            if d.staticlocal:
                self.s_static(v, d, st, fr)
                continue
            l = var(d, fr.uid)
            if isref(d.t):
                if v.i is not None:
                    fr.env[d] = self.lv(v.i, st, fr)
                continue
            fr.env[d] = l
            for k in [k for k in st.mem if k is l or self.under(k, l)]:
                del st.mem[k]
            if fr.scopes:
                fr.scopes[-1].append((d, l))
            if v.i is not None:
                self.construct(v.i, l, st, fr)
            elif bare(d.t or "") in NUM_T or bare(d.t or "") == "bool":
                st.mem[l] = mk("undef", l)

    def s_static(self, v, d, st, fr):
        """a static local that is const and initialised from constants is those constants"""
        if v.i is None or isref(d.t) or not re.match(r"(static )?const\b", d.t or ""):
            return
        t = st.copy()
        l = var(d, -1)
        q, self.quiet = self.quiet, self.quiet + 1
        try:
            fr.env[d] = l
            self.construct(v.i, l, t, fr)
            x = self.load(t, l)
        finally:
            self.quiet = q
            del fr.env[d]
        if t.pc is st.pc and constant(x):
            fr.env[d] = l
            self.store(st, l, x)

    def s_if(self, s, st, fr):
        if s.i is not None:
            self.stmt(s.i, st, fr)
        if s.cv is not None:
            self.stmt(s.cv, st, fr)
        c = tobool(self.rv(s.c, st, fr))
        if st.dead:
            return
        self.branch(c, st, lambda x: self.stmt(s.a, x, fr), lambda x: self.stmt(s.b, x, fr))

    def s_ret(self, s, st, fr):
        v = None
        if s.e is not None:
            if fr.fn is not None and isref(fr.fn.rt):
                v = self.lv(s.e, st, fr)
            else:
                e = s.e
                v = self.rv(e, st, fr)
                if fr.fn is not None and bare(fr.fn.rt) == "bool":
                    v = tobool(v)
        if self.enders:
            for here in reversed(fr.scopes):
                self.unscope(here, st, fr)
        if not st.dead:
            fr.rets.append((st.copy(), v))
        st.pc = FALSE

    def s_break(self, s, st, fr):
        fr.brk[-1].append(st.copy())
        st.pc = FALSE

    def s_continue(self, s, st, fr):
        fr.cont[-1].append(st.copy())
        st.pc = FALSE

    def s_goto(self, s, st, fr):
        raise Broken("goto is not supported at %s" % fr.where(s))

    def s_label(self, s, st, fr):
        self.stmt(s.s, st, fr)

    def s_try(self, s, st, fr):
        save, fr.throws = fr.throws, []
        fr.intry += 1
        self.stmt(s.b, st, fr)
        fr.intry -= 1
        caught, fr.throws = fr.throws, save
        outs = [st.copy()] if not st.dead else []
        for ts, t, v, where, tf in caught:
            done = False
            for h in s.h:
                if h.d is None or t == "?" and h is s.h[-1]:
                    self.handler(h, ts, v, fr, outs)
                    done = True
                    break
                ct = bare(h.ct)
                if t == "?":
                    c = tobool(mk("excis", v, ct))
                    s1 = ts.copy()
                    s1.pc = and_(ts.pc, c)
                    self.handler(h, s1, v, fr, outs)
                    ts.pc = and_(ts.pc, not_(c))
                    continue
                rec = self.rec_of(t)
                names = [t] + ([b.ty or b.q for b in self.P.bases_closure(rec)] if rec is not None else [])
                if ct in names or ct == "std::exception":
                    self.handler(h, ts, v, fr, outs)
                    done = True
                    break
            if not done:
                fr.throws.append((ts, t, v, where, tf))
        m = self.merge(outs)
        if m is None:
            st.pc = FALSE
        else:
            st.become(m)

    def handler(self, h, ts, v, fr, outs):
        if ts.dead:
            return
        # locals of frames below are gone
        if h.d is not None:
            l = var(h.d, fr.uid)
            fr.env[h.d] = l
            ts.mem[l] = v
        self.stmt(h.b, ts, fr)
        if not ts.dead:
            outs.append(ts)

    def s_switch(self, s, st, fr):
        v = self.rv(s.c, st, fr)
        body = s.b
        items = []

        def flat(x):
            if x is None:
                return
            if x.k == "block":
                for c in x.c:
                    flat1(c)
            else:
                flat1(x)

        def flat1(x):
            while x.k in ("case", "default"):
                items.append(("label", x))
                x = x.s
                if x is None:
                    return
            items.append(("stmt", x))
        flat(body)
        cases = []
        for kind, x in items:
            if kind == "label" and x.k == "case":
                cases.append(eq(v, self.rv(x.e, st, fr)))
        anyc = or_(*cases)
        start = st.copy()
        cur = St(dict(st.mem), FALSE)
        fr.brk.append([])
        hasdef = False
        for kind, x in items:
            if kind == "label":
                if x.k == "default":
                    hasdef = True
                    c = not_(anyc)
                else:
                    c = eq(v, self.rv(x.e, start.copy(), fr))
                c = self.under_pc(c, start)
                e = start.copy()
                e.pc = and_(start.pc, c)
                m = self.merge([cur, e])
                cur = m if m is not None else St(dict(st.mem), FALSE)
            else:
                if not cur.dead:
                    self.stmt(x, cur, fr)
        outs = fr.brk.pop()
        outs.append(cur)
        if not hasdef and not False:
            e = start.copy()
            e.pc = and_(start.pc, not_(anyc))
            outs.append(e)
        m = self.merge(outs)
        if m is None:
            st.pc = FALSE
        else:
            st.become(m)

    # ------------------------------------------------------------ loops
    def s_while(self, s, st, fr):
        def cond(x):
            if s.cv is not None:
                self.stmt(s.cv, x, fr)
            return tobool(self.rv(s.c, x, fr))
        self.loop(s, st, fr, cond, lambda x: self.stmt(s.b, x, fr), None)

    def s_do(self, s, st, fr):
        first = [True]

        def body(x):
            self.stmt(s.b, x, fr)
        # body once, then while
        fr.brk.append([])
        fr.cont.append([])
        self.stmt(s.b, st, fr)
        cs = fr.cont.pop()
        m = self.merge(cs + [st.copy()])
        if m is not None:
            st.become(m)
        else:
            st.pc = FALSE
        brk = fr.brk.pop()
        if not st.dead:
            self.loop(s, st, fr, lambda x: tobool(self.rv(s.c, x, fr)), body, None)
        m = self.merge(brk + [st.copy()])
        if m is not None:
            st.become(m)
        else:
            st.pc = FALSE

    def s_for(self, s, st, fr):
        if s.i is not None:
            self.stmt(s.i, st, fr)
        self.loop(s, st, fr, lambda x: tobool(self.rv(s.c, x, fr)) if s.c is not None else TRUE, lambda x: self.stmt(s.b, x, fr),
                  (lambda x: self.rv(s.n, x, fr)) if s.n is not None else None)

    def s_rfor(self, s, st, fr):
        d = s.d
        c = self.lv(s.r, st, fr)
        self.uid += 1
        il = mk("var", "rangeidx", self.uid)
        st.mem[il] = ZERO
        rt = bare(s.r.t)
        n0 = self.arraylen(rt)

        def length(x):
            v = self.load(x, c)
            return num(n0) if n0 is not None else lift(size, v)

        def body(x):
            i = x.mem[il]
            l = E(c, i)
            if isref(d.t):
                fr.env[d] = l
            else:
                fr.env[d] = var(d, fr.uid)
                self.store(x, fr.env[d], self.load(x, l))
            self.stmt(s.b, x, fr)

        def inc(x):
            x.mem[il] = add(x.mem[il], ONE)
        self.loop(s, st, fr, lambda x: not_(eq(x.mem[il], length(x))), body, inc, extra=(d,))
        st.mem.pop(il, None)

    @staticmethod
    def arraylen(t):
        m = re.search(r"\[(\d+)\]$", t)
        return int(m.group(1)) if m else None

    def loop(self, s, st, fr, cond, body, inc, extra=()):
        # 1. unfold while the condition is a constant
        save = st.copy()
        nev = len(self.events)
        nthrow, nret = len(fr.throws), len(fr.rets)
        nloops, nobj = len(self.loops), self.nobj
        exits = []
        ok = False
        soft = 0
        endless = s.k in ("while", "do", "for") and (s.c is None or s.c.k in ("bool", "int") or s.c.k == "cast" and s.c.e.k in ("bool", "int"))
        for it in range(self.unroll):
            c = self.under_pc(cond(st), st)
            if st.dead:
                ok = True
                break
            if c is FALSE:
                exits.append(st.copy())
                ok = True
                break
            if c is not TRUE:
                # a condition over gates known before the loop (a list filled under conditions): a few more rounds
                soft += 1
                if not self.unfold and (soft > 4 or any(a.op in ("pos", "posr", "eq0", "eq") for a in atoms_of(c))):
                    break
                x = st.copy()
                x.pc = and_(x.pc, not_(c))
                if not x.dead:
                    exits.append(x)
                st.pc = and_(st.pc, c)
                if st.dead:
                    ok = True
                    break
            fr.brk.append([])
            fr.cont.append([])
            body(st)
            cs = fr.cont.pop() + ([st.copy()] if not st.dead else [])
            brks = fr.brk.pop()
            exits += brks
            if c is TRUE and brks and cs and endless:
                # left or not under a condition: no sign of a constant number of rounds
                soft += 1
                if soft > 4 and not self.unfold:
                    break
            m = self.merge(cs)
            if m is None:
                ok = True
                st.pc = FALSE
                break
            st.become(m)
            if inc is not None:
                inc(st)
        if ok:
            m = self.merge(exits)
            if m is None:
                st.pc = FALSE
            else:
                st.become(m)
            return
        del self.events[nev:]
        del fr.throws[nthrow:]
        del fr.rets[nret:]
        del self.loops[nloops:]
        self.nobj = nobj
        st.become(save)
        self.summarise(s, st, fr, cond, body, inc)

    def summarise(self, s, st, fr, cond, body, inc):
        depth = self.loopdepth
        self.loopdepth += 1
        try:
            self._summarise(s, st, fr, cond, body, inc, depth)
        finally:
            self.loopdepth -= 1

    def forget(self, marks):
        del self.events[marks[0]:]
        del self.loops[marks[3]:]
        self.nobj = marks[4]

    def _pass(self, entry, mod, starts, fr, cond, body, inc):
        x = entry.copy()
        for l in mod:
            self.store(x, l, starts[l])
        x.pc = TRUE
        marks = (len(self.events), len(fr.throws), len(fr.rets), len(self.loops), self.nobj)
        start = x.copy()
        fr.brk.append([])
        fr.cont.append([])
        c = cond(x)
        after_cond = x.copy()
        x.pc = and_(x.pc, c)
        b = x.copy()
        if not b.dead:
            body(b)
        cs = fr.cont.pop() + ([b.copy()] if not b.dead else [])
        brks = fr.brk.pop()
        nxt = self.merge(cs)
        if nxt is not None and inc is not None:
            inc(nxt)
        rets = fr.rets[marks[2]:]
        del fr.rets[marks[2]:]
        thr = fr.throws[marks[1]:]
        del fr.throws[marks[1]:]
        return marks, start, c, after_cond, nxt, brks, rets, thr

    def _summarise(self, s, st, fr, cond, body, inc, depth):
        entry = st.copy()
        IT = mk("it", depth)
        mod, kind = [], {}     # kind[l]: None | ("ind", step) -- value is init + step*IT

        def startof(l, j):
            i0 = self.load(entry, l)
            k = kind.get(l)
            if k and k[0] == "kept":
                return i0
            v = mul(num(k[1]), IT) if k else None
            if i0.op == "iter":
                return mk("iter", i0.args[0], add(i0.args[1], v) if k else mk("mu", depth, j))
            if i0.op == "ptr" and i0.args[0].op == "E":
                return ptr(E(i0.args[0].args[0], add(i0.args[0].args[1], v) if k else mk("mu", depth, j)))
            return add(i0, v) if k else mk("mu", depth, j)

        def step(i0, a, b):
            """b == a + const ?"""
            if i0.op == "iter":
                if a.op != "iter" or b.op != "iter" or a.args[0] is not b.args[0]:
                    return None
                a, b = a.args[1], b.args[1]
            elif i0.op == "ptr" and i0.args[0].op == "E":
                if b.op != "ptr" or b.args[0].op != "E" or a.args[0].args[0] is not b.args[0].args[0]:
                    return None
                a, b = a.args[0].args[1], b.args[0].args[1]
            elif i0.op not in ("num", "poly", "size", "init", "arg", "mu", "it", "fin", "elem", "idiv"):
                return None
            if a.op == "ite" or b.op == "ite":
                return None
            try:
                d = sub(b, a)
            except Exception:
                return None
            return d.args[0] if d.op == "num" and d.args[0] != 0 else None

        tried = set()
        for rnd in range(24):
            starts = {l: startof(l, j) for j, l in enumerate(mod)}
            marks, start, c, after_cond, nxt, brks, rets, thr = self._pass(entry, mod, starts, fr, cond, body, inc)
            new = []
            ends = ([nxt] if nxt is not None else []) + brks + [r[0] for r in rets] + [after_cond]
            for e in ends:
                for l in e.mem:
                    if l in mod or l in new:
                        continue
                    r = root_of(l)
                    if r.op == "var" and not any(root_of(k) is r for k in entry.mem):
                        continue      # declared inside the loop
                    if r.op == "in" and len(r.args) >= depth + 2 and r.args[depth + 1] is IT:
                        continue      # created in this round
                    if e.mem[l] is not start.mem.get(l) and e.mem[l] is not self.get(start, l):
                        new.append(l)
            # keep only outermost locations
            new = [l for l in new if not any(o is not l and self.under(l, o) for o in new + mod)]
            if new:
                self.forget(marks)
                mod = [m for m in mod if not any(self.under(m, o) for o in new)] + new
                kind = {}
                continue
            # induction variables
            fresh = {}
            if nxt is not None:
                for l in mod:
                    if l in kind or l in tried:
                        continue
                    if self.load(nxt, l) is starts[l]:
                        fresh[l] = ("kept", 0)      # changed on the way out only
                        continue
                    k = step(self.load(entry, l), starts[l], self.load(nxt, l))
                    if k is not None:
                        fresh[l] = ("ind", k)
            if fresh:
                self.forget(marks)
                kind.update(fresh)
                continue
            bad = [l for l in kind if nxt is not None and (self.load(nxt, l) is not starts[l] if kind[l][0] == "kept" else
                                                           step(self.load(entry, l), starts[l], self.load(nxt, l)) != kind[l][1])]
            if bad:
                self.forget(marks)
                for l in bad:
                    kind.pop(l)
                    tried.add(l)
                continue
            break
        else:
            raise Broken("loop at %s does not stabilise" % fr.where(s))
        bound = [None]
        lits0 = literals(entry.pc)

        def enough(n):
            """a count, or a count less one where the count is known not to be zero"""
            if nonneg(n):
                return True
            m = add(n, ONE)
            return nonneg(m) and self.simp(eq(m, ZERO), lits0) is FALSE

        def canon(c):
            """it != N -> it < N, for a bound that cannot be negative; gates around it that the loop does not change are kept"""
            dep = lambda n: any(t is IT or t.op == "mu" and t.args[0] == depth for t in order(n, depth))
            if c is FALSE:
                return c, ZERO
            if c.op != "ite":
                return c, None
            if c.args[0].op in ("eq0", "pos") and c.args[1].op == "bool" and c.args[2].op == "bool":
                p = as_poly(c.args[0].args[0])
                k = p.pop(((IT, 1),), None)
                n = norm(p)
                if k is not None and not dep(n):
                    if c.args[0].op == "eq0" and c.args[1] is FALSE:
                        n = mul(n, num(-1 / k))
                        if enough(n):
                            return lt(IT, n, True), n
                    elif c.args[0].op == "pos" and abs(k) == 1:
                        # k=1: it + n > 0 false means it < 1-n ; k=-1: n - it > 0
                        if k == 1 and c.args[1] is FALSE:
                            n = sub(ONE, n)
                        elif not (k == -1 and c.args[1] is TRUE):
                            return c, None
                        if enough(n):
                            return c, n
                    return c, None
            if not dep(c.args[0]):
                x, bx = canon(c.args[1])
                y, by = canon(c.args[2])
                return ite(node(c.args[0], TRUE, FALSE), x, y), ite(node(c.args[0], TRUE, FALSE), bx, by) if bx is not None and by is not None else None
            return c, None
        c0 = c
        c, bound[0] = canon(c)
        stop = None
        if bound[0] is None and c.op == "ite":
            # counted and stopped by a further condition: the same as leaving where that fails
            for a in atoms_of(c):
                lit = atom(a)
                for lit in (lit, not_(lit)):
                    if constrain(c, not_(lit)) is FALSE:
                        u, b = canon(lit)
                        if b is not None:
                            stop, c, bound[0] = constrain(c, lit), u, b
                        break
                if stop is not None:
                    break
        full = c if stop is None else and_(c, stop)
        mus = [starts[l] for l in mod]
        init = tuple(self.load(entry, l) for l in mod)
        nexts = tuple(self.load(nxt, l) if nxt is not None else VOID for l in mod)
        if nxt is not None:
            nexts = tuple(constrain(v, nxt.pc) for v in nexts)
        # exits: 0 = condition false, then breaks, returns, throws
        ex = []
        e0 = after_cond.copy()
        e0.pc = and_(after_cond.pc, not_(c))
        if not e0.dead:
            ex.append(("cond", e0, None))
        if stop is not None:
            e0 = after_cond.copy()
            e0.pc = and_(after_cond.pc, c, not_(stop))
            if not e0.dead:
                ex.append(("break", e0, None))
        inside = literals(c0) if c is not c0 else None

        def inbody(e):
            """what is left of the body ran under the condition as it was written"""
            if inside:
                e = e.copy()
                e.pc = and_(full, self.simp(e.pc, inside))
            return e
        for e in brks:
            if not e.dead:
                ex.append(("break", inbody(e), None))
        for e, v in rets:
            if not e.dead:
                ex.append(("ret", inbody(e), v))
        for t in thr:
            if not t[0].dead:
                ex.append(("throw", inbody(t[0]), t))
        expcs = tuple(("break" if k == "ret" else k, e.pc) for k, e, _ in ex)
        var_js = [j for j, l in enumerate(mod) if l not in kind]
        deps = {}

        def musof(t):
            out = []
            for x in order(t, depth):
                if x.op == "mu" and x.args[0] == depth and x.args[1] not in out:
                    out.append(x.args[1])
            # the order of summands is no property of the program, what the variables start from is
            if len(out) == 2 and all(init[j].op == "call" for j in out):
                out.sort(key=lambda j: show(init[j], 8))
            return out
        core = []
        for t in [c] + [e for _, e in expcs]:
            core += [j for j in musof(t) if j not in core]
        slices = {}

        def slice_(js):
            """the loop restricted to what the given variables depend on, variables renumbered"""
            js = tuple(js)
            if js in slices:
                return slices[js]
            w = list(core)
            w += [j for j in js if j not in w]
            i = 0
            while i < len(w):
                for j in musof(nexts[w[i]]) if w[i] < len(nexts) else []:
                    if j not in w:
                        w.append(j)
                i += 1
            ren = {mk("mu", depth, j): mk("mu", depth, i) for i, j in enumerate(w)}
            # two steps, so that swapped numbers do not collide
            tmp = {mk("mu", depth, j): mk("mu'", depth, i) for i, j in enumerate(w)}
            back = {mk("mu'", depth, i): mk("mu", depth, i) for i in range(len(w))}

            def rn(t):
                if all(a is b for a, b in ren.items()):
                    return t
                return subst(subst(t, tmp), back)
            L = mk("loop", depth, tuple(init[j] for j in w), rn(c), tuple((k, rn(e)) for k, e in expcs), tuple(rn(nexts[j]) for j in w))
            slices[js] = (L, {j: i for i, j in enumerate(w)})
            return slices[js]
        Lc, _ = slice_(())
        self.loops.append({"term": Lc, "frame": fr, "node": s, "mod": mod, "kind": kind, "mus": mus, "init": init, "cond": c, "next": nexts, "exits": ex, "entry_pc": entry.pc, "nxt_pc": nxt.pc if nxt is not None else FALSE, "depth": depth, "bound": bound[0], "it": IT})
        outs = []
        n = len(ex)
        rest = TRUE
        for k, (kd, e, v) in enumerate(ex):
            itv = mk("fin", Lc, k, "it")
            if kd == "cond" and bound[0] is not None:
                itv = bound[0]
            sub_ = {IT: itv}
            for j in var_js:
                Lj, pos = slice_((j,))
                sub_[mk("mu", depth, j)] = mk("fin", Lj, k, pos[j])
                nx = nexts[j]
                if kd == "cond" and bound[0] is not None and nx.op == "push" and nx.args[0] is mk("mu", depth, j) and not musof(nx.args[1]):
                    # appends one element per round
                    sub_[mk("mu", depth, j)] = mapped(init[j], bound[0], IT, nx.args[1])
            if k < n - 1:
                g = and_(rest, tobool(mk("exits", Lc, k)))
                rest = and_(rest, not_(tobool(mk("exits", Lc, k))))
            else:
                g = rest
            s2 = St({}, and_(entry.pc, g))
            memo = {}
            if self.exitfacts:
                s2.pc = and_(s2.pc, subst(e.pc, sub_, memo))
            for l, val in e.mem.items():
                r = root_of(l)
                if r.op == "var" and not any(root_of(kk) is r for kk in entry.mem):
                    continue
                if r.op == "in" and len(r.args) >= depth + 2 and r.args[depth + 1] is IT:
                    # one object per iteration: keep its description for every iteration
                    s2.mem[l] = val
                    continue
                s2.mem[subst(l, sub_, memo)] = subst(val, sub_, memo)
            if nxt is not None:
                for l, val in nxt.mem.items():
                    r = root_of(l)
                    if r.op == "in" and len(r.args) >= depth + 2 and r.args[depth + 1] is IT:
                        s2.mem[l] = val
            if kd in ("cond", "break"):
                outs.append(s2)
            elif kd == "ret":
                fr.rets.append((s2, subst(v, sub_, memo) if v is not None else None))
            else:
                t = v
                fr.throws.append((s2, t[1], subst(t[2], sub_, memo), t[3], t[4]))
        m = self.merge(outs)
        if m is None:
            st.pc = FALSE
        else:
            st.become(m)

    # ------------------------------------------------------------ roots
    def root(self, f, args=None, this=THIS, st=None, pre=TRUE):
        """analyse f; args: {name or index: value term / location}"""
        st = st or St()
        st.pc = and_(st.pc, pre)
        fr = Frame(f, None, this if (f.cls is not None and not f.static) else None)
        self.uid += 1
        fr.uid = self.uid
        for i, p in enumerate(f.ps or ()):
            a = None
            if args is not None:
                a = args.get(p.name, args.get(i))
            if isref(p.t):
                fr.env[p] = a if a is not None and a.op in ("in", "F", "E", "var", "D", "glob") else obj("p%d" % i)
                if bare(p.t) == "bool":
                    self.boolobj.add(fr.env[p])
                if a is not None and fr.env[p] is not a:
                    st.mem[fr.env[p]] = a
            else:
                l = var(p, fr.uid)
                fr.env[p] = l
                st.mem[l] = a if a is not None else (tobool(mk("arg", i)) if bare(p.t) == "bool" else mk("arg", i))
        n0 = len(self.events)
        if f.ctor:
            self.ctor_inits(f, this, fr, st)
        v = self.run_body(f, fr, st) if f.body is not None else VOID
        r = Result()
        r.fn, r.value, r.st, r.pc, r.throws, r.frame = f, v, st, st.pc, fr.throws, fr
        r.events = self.events[n0:]
        if isref(f.rt) and not st.dead:
            r.loc = v
            r.value = self.load(st, v) if v is not VOID else VOID
        return r

    # ------------------------------------------------------------ models of the libraries
    def charsof(self, a, st, fr):
        """(count, character) or (characters, count)"""
        t0, t1 = bare(a[0].t), bare(a[1].t)
        if t0 in INT_T and t1 in INT_T:
            if t1 != "char":
                return None
            return rep(self.rv(a[0], st, fr), self.rv(a[1], st, fr))
        if t1 in INT_T and (isptr(t0) or "[" in t0) and re.match("(const )?char", t0):
            p = self.rv(a[0], st, fr)

            def content(x):
                if x.op != "ptr":
                    return x
                l = x.args[0]
                return self.load(st, l.args[0] if l.op == "E" and l.args[1] is ZERO else l)
            return lift(lambda v, n: substr(v, ZERO, n), lift(content, p), self.rv(a[1], st, fr))
        return None

    def model_ctor(self, n, st, fr):
        t = bare(n.t)
        a = n.a or []
        f = n.f
        if f is not None and f.mine:
            return None
        if LOCKS.match(t):
            for x in a:
                self.lv(x, st, fr)
            return mk("lock")
        real = [x for x in a if x.k != "defarg"]
        if STRLIKE.match(t):
            if not real:
                return string("")
            if len(real) == 1:
                v = self.rv(real[0], st, fr)
                return v
            if len(real) == 2:
                v = self.charsof(real, st, fr)
                if v is not None:
                    return v
            vs = [self.rv(x, st, fr) for x in real]
            if len(vs) == 2 and vs[0].op == "iter" and vs[1].op == "iter" and len(vs[0].args) == 2 and vs[0].args[0] is vs[1].args[0]:
                s0 = self.load(st, vs[0].args[0])
                return substr(s0, vs[0].args[1], sub(vs[1].args[1], vs[0].args[1]))
            if len(vs) in (2, 3) and "basic_string" in bare(real[0].t) and all(is_num(v) for v in vs[1:]):
                return substr(*vs)
            if len(vs) == 2 and vs[0].op == "num" and vs[1].op == "num" and 0 <= vs[0].args[0] < 64 and 0 < vs[1].args[0] < 128:
                return string(chr(int(vs[1].args[0])) * int(vs[0].args[0]))
            return mkl("new", t, *vs)
        if CHRONO.match(t):
            return self.chrono_ctor(t, real, st, fr)
        if SMART.match(t):
            if not real:
                return NULL
            return self.rv(real[0], st, fr)
        if OPTLIKE.match(t):
            if not real:
                return mk("none")
            v = self.rv(real[0], st, fr)
            if bare(real[0].t) == t or "optional<" in bare(real[0].t):
                return v
            if "none_t" in (real[0].t or ""):
                return mk("none")
            return mkl("some", v)
        if re.match(r"(boost|std)::function\b", t):
            if not real:
                return NULL
            return self.rv(real[0], st, fr)
        if re.match(r"std::pair\b", t):
            if len(real) == 2:
                return with_(mk("new", t), {"first": self.rv(real[0], st, fr), "second": self.rv(real[1], st, fr)})
            if len(real) == 1:
                return self.rv(real[0], st, fr)
            return None
        if f is not None and (f.copyctor or f.movector) and real:
            return self.rv(real[0], st, fr)
        if VECLIKE.match(t):
            if not real:
                return mk("new", t)
            if len(real) == 1 and real[0].k == "ilist":
                return self.rv(real[0], st, fr)
        if ITER.search(t) and len(real) == 1:
            return self.rv(real[0], st, fr)
        if "lambda at" in t and real:
            return self.rv(real[0], st, fr)
        return None

    def model(self, n, st, fr):
        f = n.f
        if f.mine:
            return None
        q = shortq(f.q)
        name = f.name
        cls = bare(f.cls.ty or f.cls.q) if f.cls is not None else ""
        ot = bare(n.o.t) if n.o is not None else ""
        if n.o is not None:
            kt = ot if not isptr(n.o.t) else bare(ot[:-1])
            if n.ar and isptr(n.o.t):
                kt = bare(ot[:-1])
            if LOCKS.match(kt):
                self.lv(n.o, st, fr)
                return (tobool(mk("lockstate", name)) if bare(f.rt) == "bool" else VOID), False
            if SMART.match(kt) or SMART.match(cls):
                return self.m_smart(n, st, fr, name)
            if OPTLIKE.match(kt) or OPTLIKE.match(cls):
                return self.m_opt(n, st, fr, name)
            if re.match(r"(boost|std)::function", kt) or (kt.startswith("boost::function") or "lambda at" in kt):
                if name == "operator()":
                    l = self.recv_loc(n, st, fr)
                    return self.apply(self.load(st, l), n, st, fr)
                if name in ("operator bool", "empty", "operator!"):
                    v = tobool(self.load(st, self.recv_loc(n, st, fr)))
                    return (v if name == "operator bool" else not_(v)), False
                if name == "operator=":
                    l = self.recv_loc(n, st, fr)
                    self.store(st, l, self.rv(n.a[0], st, fr))
                    return l, True
            if CHRONO.match(kt) or CHRONO.match(cls):
                r = self.m_chrono(n, st, fr, name, kt if CHRONO.match(kt) else cls)
                if r is not None:
                    return r
            if ITER.search(kt) or ITER.search(cls):
                r = self.m_iter(n, st, fr, name)
                if r is not None:
                    return r
            if STRLIKE.match(kt):
                r = self.m_string(n, st, fr, name)
                if r is not None:
                    return r
            if VECLIKE.match(kt):
                r = self.m_vec(n, st, fr, name)
                if r is not None:
                    return r
            if MAPLIKE.match(kt):
                r = self.m_map(n, st, fr, name)
                if r is not None:
                    return r
            if re.match(r"std::pair\b", kt) and name == "operator=":
                l = self.recv_loc(n, st, fr)
                self.store(st, l, self.rv(n.a[0], st, fr))
                return l, True
            if name == "operator=" and (f.copyassign or (len(n.a) == 1 and bare(n.a[0].t) == kt)):
                v = self.rv(n.a[0], st, fr)
                l = self.recv_loc(n, st, fr)
                self.store(st, l, v)
                return l, True
            if "type_info" in kt:
                return mk("typename"), False
            if name.startswith("operator basic_") or name == "str" and False:
                return None
            return None
        return self.m_free(n, st, fr, q, name)

    # spans and points of time: their value in seconds
    @staticmethod
    def period(t):
        """(seconds of one tick, is the representation integral) of a chrono type"""
        m = re.search(r"duration<([^<>,]*)(?:, std::ratio<(\d+)L?(?:, (\d+)L?)?>)?>", t)
        if not m:
            return (ONE, False) if "_clock" not in t else (num(Fraction(1, 10**9)), True)
        return num(Fraction(int(m.group(2) or 1), int(m.group(3) or 1))), m.group(1).strip() not in ("double", "float", "long double")

    def chrono_ctor(self, t, real, st, fr):
        if not real:
            return ZERO if t.startswith("std::") else mk("new", t)
        vs = [self.rv(x, st, fr) for x in real]
        s = bare(real[0].t)
        if len(real) == 1 and CHRONO.match(s):
            return vs[0]
        if len(real) == 1 and t.startswith("std::chrono::duration"):
            return mul(vs[0], self.period(t)[0])
        return mkl("new", t, *vs)

    def whole(self, v, unit):
        """v in whole units, truncated"""
        return self.trunc(lift(lambda x: mul(x, num(1 / unit.args[0])), v))

    def m_chrono(self, n, st, fr, name, t):
        if name == "count" or name in ("total_seconds", "total_milliseconds", "total_microseconds", "total_nanoseconds", "fractional_seconds"):
            v = self.load(st, self.recv_loc(n, st, fr))
            if name == "count":
                return mul(v, num(1 / self.period(t)[0].args[0])), False
            if name == "fractional_seconds":
                return sub(self.whole(v, num(Fraction(1, 10**6))), mul(num(10**6), self.trunc(v))), False
            return self.whole(v, num(Fraction(1, {"s": 1, "mil": 10**3, "mic": 10**6, "n": 10**9}[re.match("s|mil|mic|n", name[6:]).group()]))), False
        if name in ("time_since_epoch",):
            return self.load(st, self.recv_loc(n, st, fr)), False
        a = n.a or []
        if name in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=") and len(a) == 1:
            l = self.recv_loc(n, st, fr)
            v = self.rv(a[0], st, fr)
            o = self.load(st, l)
            self.store(st, l, v if name == "operator=" else {"+": add, "-": sub, "*": mul, "/": div}[name[8]](o, v))
            return l, True
        if name in ("operator+", "operator-") and len(a) <= 1:
            o = self.load(st, self.recv_loc(n, st, fr))
            if not a:
                return o if name == "operator+" else neg(o), False
            v = self.rv(a[0], st, fr)
            return add(o, v) if name == "operator+" else sub(o, v), False
        if name in ("operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!=") and len(a) == 1:
            return self.compare(name[8:], self.load(st, self.recv_loc(n, st, fr)), self.rv(a[0], st, fr), False), False
        return None

    def chrono_free(self, n, st, fr, name):
        a = n.a or []
        ts = [bare(x.t) for x in a]
        if name in ("duration_cast", "time_point_cast") and len(a) == 1:
            v = self.rv(a[0], st, fr)
            (p, pi), (q, qi) = self.period(ts[0]), self.period(bare(n.t))
            if not qi or pi and (p.args[0] / q.args[0]).denominator == 1:
                return v, False
            return mul(self.whole(v, q), q), False
        if name in ("operator+", "operator-") and len(a) == 2:
            return (add if name == "operator+" else sub)(self.rv(a[0], st, fr), self.rv(a[1], st, fr)), False
        if name in ("operator*", "operator/") and len(a) == 2 and not all(CHRONO.match(t) for t in ts) and (name == "operator*" or not self.period(bare(n.t))[1]):
            return (mul if name == "operator*" else div)(self.rv(a[0], st, fr), self.rv(a[1], st, fr)), False
        if name in ("operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!=") and len(a) == 2:
            return self.compare(name[8:], self.rv(a[0], st, fr), self.rv(a[1], st, fr), False), False
        return None

    def m_smart(self, n, st, fr, name):
        if name in ("operator->", "get", "lock"):
            return self.load(st, self.recv_loc(n, st, fr)), False
        if name == "operator*":
            return deref(self.load(st, self.recv_loc(n, st, fr))), True
        if name in ("operator bool", "operator!"):
            b = tobool(self.load(st, self.recv_loc(n, st, fr)))
            return (b if name == "operator bool" else not_(b)), False
        if name in ("operator=", "reset"):
            v = self.rv(n.a[0], st, fr) if n.a and n.a[0].k != "defarg" else NULL
            l = self.recv_loc(n, st, fr)
            self.store(st, l, v)
            return l, True
        if name == "swap":
            a = self.recv_loc(n, st, fr)
            b = self.lv(n.a[0], st, fr)
            x, y = self.load(st, a), self.load(st, b)
            self.store(st, a, y)
            self.store(st, b, x)
            return VOID, False
        if name in ("use_count", "unique"):
            return mkl("call", name, self.load(st, self.recv_loc(n, st, fr))), False
        if name == "release":
            l = self.recv_loc(n, st, fr)
            v = self.load(st, l)
            self.store(st, l, NULL)
            return v, False
        return None

    @staticmethod
    def opt_has(v):
        def f(x):
            if x.op == "some":
                return TRUE
            if x.op == "none":
                return FALSE
            return tobool(mk("has", x))
        return lift(f, v)

    @staticmethod
    def opt_val(v):
        return lift(lambda x: x.args[0] if x.op == "some" else mk("optval", x), v)

    def m_opt(self, n, st, fr, name):
        l = self.recv_loc(n, st, fr)
        if name in ("operator bool", "has_value", "is_initialized"):
            return self.opt_has(self.load(st, l)), False
        if name == "operator!":
            return not_(self.opt_has(self.load(st, l))), False
        if name in ("operator*", "get", "value"):
            v = self.opt_val(self.load(st, l))
            self.event("optderef", st, n.f, l, [], v, n, fr)
            return self.temp(v, st), True
        if name in ("get_value_or", "value_or"):
            v = self.load(st, l)
            d = self.rv(n.a[0], st, fr)
            r = ite(self.opt_has(v), self.opt_val(v), d)
            return (self.temp(r, st), True) if isref(n.f.rt) else (r, False)
        if name == "operator->":
            return ptr(self.temp(self.opt_val(self.load(st, l)), st)), False
        if name == "operator=":
            a = n.a[0]
            v = self.rv(a, st, fr)
            if "none_t" in (a.t or "") or "nullopt" in (a.t or ""):
                v = mk("none")
            elif "optional<" not in bare(a.t):
                v = mkl("some", v)
            self.store(st, l, v)
            return l, True
        return None

    def m_iter(self, n, st, fr, name):
        if name == "operator*":
            return lift(deref, self.rv(n.o, st, fr)), True
        if name == "operator->":
            v = self.rv(n.o, st, fr)
            return ptr(lift(deref, v)), False
        if name in ("operator++", "operator--"):
            l = self.lv(n.o, st, fr)
            old = self.load(st, l)
            new = lift(lambda x: self.iteradv(x, ONE if name == "operator++" else num(-1)), old)
            self.store(st, l, new)
            if n.a:
                return old, False
            return l, True
        if name in ("operator+", "operator-") and n.a:
            a = self.rv(n.o, st, fr)
            b = self.rv(n.a[0], st, fr)
            if b.op == "iter" and a.op == "iter":
                return sub(a.args[1], b.args[1]), False
            return lift(lambda x: self.iteradv(x, b if name == "operator+" else neg(b)), a), False
        if name in ("operator+=", "operator-="):
            l = self.lv(n.o, st, fr)
            b = self.rv(n.a[0], st, fr)
            self.store(st, l, lift(lambda x: self.iteradv(x, b if name == "operator+=" else neg(b)), self.load(st, l)))
            return l, True
        if name in ("operator==", "operator!="):
            a = self.rv(n.o, st, fr)
            b = self.rv(n.a[0], st, fr)
            r = self.itereq(a, b)
            return (r if name == "operator==" else not_(r)), False
        if name == "operator[]":
            a = self.rv(n.o, st, fr)
            b = self.rv(n.a[0], st, fr)
            return lift(lambda x: deref(self.iteradv(x, b)), a), True
        if name == "operator=":
            l = self.lv(n.o, st, fr)
            self.store(st, l, self.rv(n.a[0], st, fr))
            return l, True
        if name == "base":
            return self.rv(n.o, st, fr), False
        return None

    @staticmethod
    def iteradv(x, k):
        if x.op == "iter":
            return mk("iter", x.args[0], add(x.args[1], k))
        return mk("padd", x, k)

    def itereq(self, a, b):
        def f(x, y):
            if x.op == "iter" and y.op == "iter" and x.args[0] is y.args[0]:
                def g(i, j):
                    for p, q in ((i, j), (j, i)):
                        if p.op == "find" and q.op == "size" and p.args[0] is q.args[0]:
                            return not_(has(p.args[0], p.args[1], self.keyeq(self.otype(x.args[0]) or "map<string")))
                    return eq(i, j)
                return lift(g, x.args[1], y.args[1])
            return TM._eq(x, y)
        return lift(f, a, b)

    def m_string(self, n, st, fr, name):
        if name in ("c_str", "data"):
            return self.load(st, self.recv_loc(n, st, fr)), False
        if name in ("size", "length"):
            return lift(size, self.load(st, self.recv_loc(n, st, fr))), False
        if name == "empty":
            return eq(lift(size, self.load(st, self.recv_loc(n, st, fr))), ZERO), False
        if name in ("operator[]", "at"):
            l = self.recv_loc(n, st, fr)
            i = self.rv(n.a[0], st, fr)
            self.event("index", st, n.f, l, [self.load(st, l), i], None, n, fr)
            return E(l, i), True
        if name in ("front", "back"):
            l = self.recv_loc(n, st, fr)
            v = self.load(st, l)
            i = ZERO if name == "front" else sub(lift(size, v), ONE)
            self.event("index", st, n.f, l, [v, i], None, n, fr)
            return lift(lambda x: E(l, x), i), True
        if name in ("operator=", "assign") and len(n.a) == 1:
            v = self.rv(n.a[0], st, fr)
            l = self.recv_loc(n, st, fr)
            self.store(st, l, v)
            return l, True
        if name in ("append", "assign") and len(n.a) == 2:
            v = self.charsof(n.a, st, fr)
            if v is not None:
                l = self.recv_loc(n, st, fr)
                self.store(st, l, cat(self.load(st, l), v) if name == "append" else v)
                return l, True
        if name in ("operator+=", "append") and len(n.a) == 1:
            v = self.rv(n.a[0], st, fr)
            l = self.recv_loc(n, st, fr)
            if bare(n.a[0].t) == "char":
                v = self.chr(v)
            self.store(st, l, cat(self.load(st, l), v))
            return l, True
        if name == "push_back":
            v = self.chr(self.rv(n.a[0], st, fr))
            l = self.recv_loc(n, st, fr)
            self.store(st, l, cat(self.load(st, l), v))
            return VOID, False
        if name == "substr":
            v = self.load(st, self.recv_loc(n, st, fr))
            a = [self.rv(x, st, fr) for x in n.a if x.k != "defarg"]
            if len(a) == 0:
                return v, False
            self.event("substr", st, n.f, None, [v] + a, None, n, fr)
            return substr(v, *a), False
        if name == "pop_back" or name == "resize" and len(n.a) == 1:
            l = self.recv_loc(n, st, fr)
            v = self.load(st, l)
            k = self.rv(n.a[0], st, fr) if n.a else sub(lift(size, v), ONE)
            d = sub(k, lift(size, v))
            if all(x.op == "num" and x.args[0] <= 0 for x in leafset(d)):
                self.store(st, l, substr(v, ZERO, k))
                return VOID, False
            return None
        if name == "erase" and 1 <= len(n.a) <= 2 and "iterator" not in bare(n.a[0].t):
            l = self.recv_loc(n, st, fr)
            v = self.load(st, l)
            a = [self.rv(x, st, fr) for x in n.a if x.k != "defarg"]
            if len(a) == 2 and a[0] is ZERO:
                self.event("substr", st, n.f, None, [v, a[1]], None, n, fr)
                self.store(st, l, substr(v, a[1]))
                return l, True
            if len(a) == 1:
                self.store(st, l, substr(v, ZERO, a[0]))
                return l, True
            return None
        if name == "insert" and len(n.a) in (2, 3) and bare(n.a[0].t) in INT_T:
            at = self.rv(n.a[0], st, fr)
            v = self.charsof(n.a[1:], st, fr) if len(n.a) == 3 else self.rv(n.a[1], st, fr)
            if at is ZERO and v is not None:
                l = self.recv_loc(n, st, fr)
                self.store(st, l, cat(v, self.load(st, l)))
                return l, True
            return None
        if name == "clear":
            l = self.recv_loc(n, st, fr)
            self.store(st, l, string(""))
            return VOID, False
        if name == "reserve" or name == "shrink_to_fit":
            self.lv(n.o, st, fr)
            for x in n.a:
                self.rv(x, st, fr)
            return VOID, False
        if name == "compare" and len(n.a) == 3:
            v = self.load(st, self.recv_loc(n, st, fr))
            i, k, w = [self.rv(x, st, fr) for x in n.a]
            self.event("substr", st, n.f, None, [v, i, k], None, n, fr)
            if i is ZERO and k is lift(size, w):
                return ite(prefixof(w, v), ZERO, mkl("strcmp1", v, w)), False
            return mkl("strcmp", substr(v, i, k), w), False
        if name in ("find", "rfind") and n.a and bare(n.a[0].t) not in ("char",):
            v = self.load(st, self.recv_loc(n, st, fr))
            a = [self.rv(x, st, fr) for x in n.a]
            if len(a) == 1:
                a.append(ZERO if name == "find" else num(-1))
            if a[1] is ZERO:
                t = mkl("strfind1", v, a[0])
                return (ite(prefixof(a[0], v), ZERO, t) if name == "find" else ite(prefixof(a[0], v), ZERO, num(-1))), False
            return mkl("str" + name, v, *a), False
        if name == "compare" and len(n.a) == 1:
            v = self.load(st, self.recv_loc(n, st, fr))
            return mkl("strcmp", v, self.rv(n.a[0], st, fr)), False
        if name in ("begin", "cbegin", "end", "cend"):
            l = self.recv_loc(n, st, fr)
            return mk("iter", l, ZERO if "begin" in name else lift(size, self.load(st, l))), False
        return None

    @staticmethod
    def chr(v):
        return lift(lambda x: string(chr(int(x.args[0]))) if x.op == "num" and 0 < x.args[0] < 128 else mk("chr", x), v)

    def m_vec(self, n, st, fr, name):
        if name == "size":
            k = re.match(r"std::array<.*, (\d+)>$", bare(n.o.t))
            if k:
                return num(int(k.group(1))), False
            return lift(size, self.load(st, self.recv_loc(n, st, fr))), False
        if name == "empty":
            return eq(lift(size, self.load(st, self.recv_loc(n, st, fr))), ZERO), False
        if name in ("operator[]", "at"):
            l = self.recv_loc(n, st, fr)
            i = self.rv(n.a[0], st, fr)
            self.event("index", st, n.f, l, [self.load(st, l), i], None, n, fr)
            return lift(lambda x: E(l, x), i), True
        if name in ("front", "back"):
            l = self.recv_loc(n, st, fr)
            v = self.load(st, l)
            i = ZERO if name == "front" else sub(lift(size, v), ONE)
            self.event("index", st, n.f, l, [v, i], None, n, fr)
            return lift(lambda x: E(l, x), i), True
        if name in ("erase", "resize") and n.a and len(n.a) <= 2 and "vector<" in bare(n.o.t):
            # the tail of a list that was made by appending
            l = self.recv_loc(n, st, fr)
            v = self.load(st, l)
            if all(x.op in ("push", "new") and size(x).op == "num" for x in leafset(v)):
                a = [lift(lambda k: k.args[1] if k.op == "iter" and k.args[0] is l else k, self.rv(x, st, fr)) for x in n.a if x.k != "defarg"]

                def tail(x, k, e):
                    if e is not None and e is not size(x):
                        return None
                    if k.op != "num" or k.args[0] > size(x).args[0]:
                        return None
                    for _ in range(int(size(x).args[0] - k.args[0])):
                        x = x.args[0]
                    return x
                e = a[1] if name == "erase" and len(a) == 2 else None
                if name == "resize" or e is not None:
                    w = lift(lambda x, k, *es: tail(x, k, es[0] if es else None) or mk("unknown"), v, a[0], *([e] if e is not None else []))
                    if all(x.op != "unknown" for x in leafset(w)):
                        self.store(st, l, w)
                        return (lift(lambda x: mk("iter", l, size(x)), w) if name == "erase" else VOID), False
        if name == "pop_back" and not n.a:
            v = self.load(st, self.recv_loc(n, st, fr))
            if all(x.op == "push" for x in leafset(v)):
                self.store(st, self.recv_loc(n, st, fr), lift(lambda x: x.args[0], v))
                return VOID, False
        if name in ("push_back", "emplace_back"):
            l = self.recv_loc(n, st, fr)
            if len(n.a) == 1:
                v = self.rv(n.a[0], st, fr)
            else:
                v = None
                et = self.rec_of(bare(n.f.rt)) if isref(n.f.rt) else self.elemrec(bare(n.o.t))
                if et is not None and et.mine:
                    tl = self.temp(mk("undef", mk("var", "elem")), st)
                    if self.make_object(et, tl, n.a, st, fr, n):
                        v = self.load(st, tl)
                if v is None:
                    v = mkl("mk", bare(n.o.t), *[self.rv(a, st, fr) for a in n.a])
            old = self.load(st, l)
            self.event("push", st, n.f, l, [old, v], None, n, fr)
            self.store(st, l, mkl("push", old, v))
            return (E(l, lift(size, old)), True) if isref(n.f.rt) else (VOID, False)
        if name in ("begin", "cbegin", "end", "cend"):
            l = self.recv_loc(n, st, fr)
            return mk("iter", l, ZERO if "begin" in name else lift(size, self.load(st, l))), False
        if name == "clear":
            l = self.recv_loc(n, st, fr)
            self.store(st, l, mk("new", bare(n.o.t)))
            return VOID, False
        if name == "reserve":
            self.lv(n.o, st, fr)
            self.rv(n.a[0], st, fr)
            return VOID, False
        if name == "operator=":
            v = self.rv(n.a[0], st, fr)
            l = self.recv_loc(n, st, fr)
            self.store(st, l, v)
            return l, True
        if name == "data":
            return ptr(E(self.recv_loc(n, st, fr), ZERO)), False
        return None

    def elemrec(self, t):
        m = re.match(r"std::(?:vector|deque|list)<(.*?)(?:, std::allocator<.*)?>$", t)
        return self.rec_of(m.group(1)) if m else None

    def keyeq(self, t):
        return eq if re.search(r"^[^<]*<(const )?(std::)?(__cxx11::)?(basic_string|string)", t) else self.numeq

    def m_map(self, n, st, fr, name):
        same = self.keyeq(bare(n.o.t))
        if name == "size":
            return mapsize(self.load(st, self.recv_loc(n, st, fr)), same), False
        if name == "empty":
            return eq(mapsize(self.load(st, self.recv_loc(n, st, fr)), same), ZERO), False
        if name == "count" or name == "contains":
            v = self.load(st, self.recv_loc(n, st, fr))
            k = self.rv(n.a[0], st, fr)
            h = has(v, k, same)
            return (lift(lambda x: ONE if x is TRUE else ZERO, h) if name == "count" else h), False
        if name == "find":
            l = self.recv_loc(n, st, fr)
            k = self.rv(n.a[0], st, fr)
            return lift(lambda v, kk: mk("iter", l, mk("find", v, kk)), self.load(st, l), k), False
        if name in ("operator[]", "at"):
            l = self.recv_loc(n, st, fr)
            k = self.simp(self.rv(n.a[0], st, fr), literals(st.pc))
            self.event("mapat" if name == "at" else "mapidx", st, n.f, l, [self.load(st, l), k], None, n, fr)
            return lift(lambda x: E(l, x), k), True
        if name in ("begin", "cbegin", "end", "cend"):
            l = self.recv_loc(n, st, fr)
            if "begin" in name:
                return mk("iter", l, ZERO), False
            return lift(lambda v: mk("iter", l, mk("size", v) if v.op in ("store", "insert", "erase") else size(v)), self.load(st, l)), False
        if name == "clear":
            l = self.recv_loc(n, st, fr)
            self.store(st, l, mk("new", bare(n.o.t)))
            return VOID, False
        if name == "erase" and len(n.a) == 1:
            l = self.recv_loc(n, st, fr)
            k = self.rv(n.a[0], st, fr)
            v = self.load(st, l)
            had = None
            kk = lift(lambda x: x.args[1].args[1] if x.op == "iter" and x.args[1].op == "find" else x, k)
            self.store(st, l, mkl("erase", v, kk))
            self.event("erase", st, n.f, l, [v, kk], None, n, fr)
            if bare(n.f.rt) in ("unsigned long", "unsigned int"):
                return lift(lambda x: ONE if x is TRUE else ZERO, has(v, kk, same)), False
            return mkl("call", "erase", v, kk), False
        if name in ("insert", "emplace"):
            l = self.recv_loc(n, st, fr)
            v = self.load(st, l)
            if len(n.a) == 1:
                p = self.rv(n.a[0], st, fr)
                k, x = proj(p, "first"), proj(p, "second")
                if "set<" in bare(n.o.t):
                    k, x = p, p
            elif len(n.a) == 2:
                k, x = self.rv(n.a[0], st, fr), self.rv(n.a[1], st, fr)
            else:
                return None
            self.event("insert", st, n.f, l, [v, k, x], None, n, fr)
            if "map<" in bare(n.o.t) and "multi" not in bare(n.o.t):
                self.store(st, l, ite(has(v, k, same), v, mkl("store", v, k, x)))
            else:
                self.store(st, l, mkl("insert", v, k, x))
            return with_(mkl("call", "insert", v, k), {"second": not_(has(v, k, same))}), False
        if name == "operator=":
            v = self.rv(n.a[0], st, fr)
            l = self.recv_loc(n, st, fr)
            self.store(st, l, v)
            return l, True
        return None

    SIZES = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
             "float": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "double": 8}

    def szof(self, t):
        t = bare(t)
        m = re.match(r"^(.*?)\s*\[(\d+)\]$", t)
        if m:
            k = self.szof(m.group(1))
            return k and k * int(m.group(2))
        if isptr(t):
            return 8
        if t in self.SIZES:
            return self.SIZES[t]
        r = self.rec_of(t)
        if r is None or r.bases:
            return None
        zs = [self.szof(f.t) for f in r.fields or ()]
        if not zs or None in zs:
            return None
        return max(zs) if r.union else sum(zs)

    def bytes_of(self, loc, t, limit):
        """the scalars an object of type t at loc consists of: [(offset, size, location)]; a union by its widest member"""
        t = bare(t)
        m = re.match(r"^(.*?)\s*\[(\d+)\]$", t)
        if m:
            k = self.szof(m.group(1))
            out = []
            for i in range(int(m.group(2))):
                if k and i * k < limit:
                    out += [(i * k + o, z, l) for o, z, l in self.bytes_of(E(loc, num(i)), m.group(1), limit - i * k)]
            return out
        if t in self.SIZES or isptr(t):
            return [(0, self.szof(t), loc)]
        r = self.rec_of(t)
        if r is None or self.szof(t) is None:
            return None
        out, at = [], 0
        fs = r.fields
        if r.union:
            def width(f):
                return self.szof(re.sub(r"\s*\[.*", "", bare(f.t)))
            fs = sorted(fs, key=width)[-1:]
        for f in fs:
            out += [(at + o, z, l) for o, z, l in self.bytes_of(F(loc, f.q or f.name), f.t, limit - at)]
            at += self.szof(f.t)
        return out

    def raw_side(self, e, st, fr, n):
        """(pieces, location, type) behind a pointer argument of memcpy/memset"""
        x = e
        while x.k in ("cast", "paren") and x.ck in ("BitCast", "NoOp", None) and x.e is not None:
            x = x.e
        t = x.t or ""
        if not (isptr(t) or "(*)" in t):
            return None
        p = self.rv(e, st, fr)
        if p.op == "ite":
            return None
        if "(*)" in t:
            T = t.replace(" (*)", "").replace("(*)", "")
            T = bare(T)
        else:
            T = bare(re.sub(r"\*\s*(const)?$", "", bare(t)).strip())
        k = self.szof(T)
        if k is None or n % k:
            return None
        if T in self.SIZES and n > k:
            return [(i * k, k, self.ptr_index(p, num(i))) for i in range(n // k)], None, T
        l = self.ptr_index(p, ZERO) if p.op in ("padd",) else deref(p)
        if n != k:
            return None
        return self.bytes_of(l, T, n), l, T

    def memory(self, name, n, st, fr):
        cnt = self.rv(n.a[2], st, fr)
        if cnt.op != "num" or not 0 < cnt.args[0] <= 4096:
            return None
        k = int(cnt.args[0])
        d = self.raw_side(n.a[0], st, fr, k)
        if d is None or not d[0]:
            return None
        if name == "memset":
            v = self.rv(n.a[1], st, fr)
            if v is not ZERO:
                return None
            for o, z, l in d[0]:
                self.store(st, l, ZERO)
            self.union_rest(d, st, fr, lambda f: None)
            return ptr(d[0][0][2]), False
        s = self.raw_side(n.a[1], st, fr, k)
        if s is None or [(o, z) for o, z, l in d[0]] != [(o, z) for o, z, l in s[0] or ()]:
            return None
        vals = [self.load(st, l) for o, z, l in s[0]]
        rest = {}
        if s[2] == d[2] and s[1] is not None:
            r = self.rec_of(s[2])
            if r is not None and r.union:
                rest = {f.q or f.name: self.load(st, F(s[1], f.q or f.name)) for f in r.fields}
        for (o, z, l), v in zip(d[0], vals):
            self.store(st, l, v)
        self.union_rest(d, st, fr, lambda f: rest.get(f.q or f.name))
        return ptr(d[0][0][2]), False

    def union_rest(self, d, st, fr, val):
        """the members of a union that the copy was not expressed in"""
        if d[1] is None:
            return
        r = self.rec_of(d[2])
        if r is None or not r.union:
            return
        done = {root_field(l, d[1]) for o, z, l in d[0]}
        for f in r.fields:
            nm = f.q or f.name
            if nm in done:
                continue
            v = val(f)
            if v is None:
                for o, z, l in self.bytes_of(F(d[1], nm), f.t, 4096):
                    self.store(st, l, ZERO)
            else:
                self.store(st, F(d[1], nm), v)

    MATH = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "fabs", "abs", "floor", "ceil", "round", "pow", "fmod", "hypot", "lrint", "lround", "rint"}

    def m_free(self, n, st, fr, q, name):
        a = n.a or []
        if self.nan and name in ("isfinite", "isnan", "isinf") and len(a) == 1 and q in (name, "std::" + name):
            v = self.rv(a[0], st, fr)
            bad, inf = self.unordered(v), tobool(mk("isinf", v))
            return {"isnan": bad, "isinf": and_(not_(bad), inf), "isfinite": and_(not_(bad), not_(inf))}[name], False
        if name in ("move", "forward", "as_const", "ref", "cref") and len(a) == 1 and q.split("::")[0] in ("std", "boost"):
            return self.lv(a[0], st, fr), True
        if name in ("make_shared", "make_unique"):
            m = re.search(r"<(.*)", n.f.targs or "")
            t = bare(re.sub(r"^.*?_ptr<(.*)>$", r"\1", bare(n.f.rt)))
            t = t.split(", std::default_delete")[0]
            l = self.newobj(t)
            rec = self.rec_of(t)
            if not self.make_object(rec, l, a, st, fr, n):
                self.store(st, l, mkl("new", t, *[self.rv(x, st, fr) for x in a]))
            return ptr(l), False
        if (name == "operator-" or name == "distance" and q.startswith("std::")) and len(a) == 2 and all(ITER.search(bare(z.t)) for z in a):
            x, y = (self.rv(z, st, fr) for z in a)
            if name == "distance":
                x, y = y, x
            r = lift(lambda u, v: sub(u.args[1], v.args[1]) if u.op == v.op == "iter" and u.args[0] is v.args[0] else mk("itdiff", u, v), x, y)
            return r, False
        if name in ("lower_bound", "upper_bound") and len(a) == 3 and q.startswith("std::"):
            x, y, v = (self.rv(z, st, fr) for z in a)
            if x.op == "iter" and y.op == "iter" and x.args[0] is y.args[0]:
                c = x.args[0]
                return lift(lambda i: mk("iter", c, i), mkl(name, self.load(st, c), x.args[1], y.args[1], v)), False
        m = re.match(r"std::numeric_limits<([\w ]+)>::(min|max|lowest)$", n.f.q or "")
        if m and m.group(1) in INT_W:
            w, signed = INT_W[m.group(1)]
            return num((2**(w - signed) - 1) if m.group(2) == "max" else -2**(w - 1) if signed else 0), False
        if a and any(CHRONO.match(bare(x.t)) for x in a):
            r = self.chrono_free(n, st, fr, name)
            if r is not None:
                return r
        if name in ("static_pointer_cast", "const_pointer_cast", "addressof", "get_pointer") and len(a) == 1:
            if name == "addressof":
                return ptr(self.lv(a[0], st, fr)), False
            return self.rv(a[0], st, fr), False
        if name == "dynamic_pointer_cast":
            v = self.rv(a[0], st, fr)
            t = bare(re.sub(r"^.*?_ptr<(.*)>$", r"\1", bare(n.f.rt)))
            return lift(lambda x: NULL if x is NULL else self.dyncast(x, t + " *"), v), False
        if name == "make_pair":
            return with_(mk("new", bare(n.f.rt)), {"first": self.rv(a[0], st, fr), "second": self.rv(a[1], st, fr)}), False
        if name in ("memcpy", "memmove", "memset") and len(a) == 3 and q in (name, "std::" + name):
            r = self.memory(name, n, st, fr)
            if r is not None:
                return r
        if name in ("sprintf", "snprintf") and q in (name, "std::" + name):
            k = 1 if name == "sprintf" else 2
            b = strip(a[0])
            d = ptr(self.lv(b, st, fr)) if "[" in (b.t or "") else self.rv(a[0], st, fr)
            vs = [self.rv(x, st, fr) for x in a[1:]]
            fmt = vs[k - 1]
            if d.op == "ptr" and fmt.op in ("str", "ptr"):
                l = d.args[0]
                l = l.args[0] if l.op == "E" and l.args[1] is ZERO else l
                if fmt.op == "ptr" and fmt.args[0].op == "E" and fmt.args[0].args[1] is ZERO:
                    fmt = self.load(st, fmt.args[0].args[0])
                v = mkl("format", fmt, *vs[k:])
                m = re.match(r"char\[(\d+)\]$", (l.args[0].t or "") if l.op == "var" and hasattr(l.args[0], "t") else "")
                if k == 2 and not (m and vs[0].op == "num" and vs[0].args[0] == int(m.group(1))):
                    v = mkl("cut", v, vs[0])
                self.store(st, l, v)
                r = mkl("call", "sprintf", fmt, *vs[k:])
                self.event("call", st, n.f, None, vs, r, n, fr, n.a)
                return r, False
        if name == "swap" and len(a) == 2:
            x, y = self.lv(a[0], st, fr), self.lv(a[1], st, fr)
            u, v = self.load(st, x), self.load(st, y)
            self.store(st, x, v)
            self.store(st, y, u)
            return VOID, False
        if name == "operator+" and len(a) == 2 and STRLIKE.match(bare(n.f.rt)):
            x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            if bare(a[0].t) == "char":
                x = self.chr(x)
            if bare(a[1].t) == "char":
                y = self.chr(y)
            return cat(x, y), False
        if name in ("operator==", "operator!=") and len(a) == 2:
            x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            if any("nullptr" in (z.t or "") for z in a) or SMART.match(bare(a[0].t)):
                r = lift(self.ptreq, x, y)
            elif any(v.op == "iter" for z in (x, y) for v in leafset(z)):
                r = self.itereq(x, y)
            elif x.op == "str" and x.args[0] == "":
                r = eq(lift(size, y), ZERO)
            elif y.op == "str" and y.args[0] == "" and STRLIKE.match(bare(a[0].t)):
                r = eq(lift(size, x), ZERO)
            else:
                r = eq(x, y)
            return (r if name == "operator==" else not_(r)), False
        if name in ("max", "min") and len(a) == 2 and q.startswith("std::"):
            x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            it = self.isint(a[0], a[1])
            c = lt(x, y, it)
            r = ite(c, y, x) if name == "max" else ite(lt(y, x, it), y, x)
            return self.temp(r, st), True
        if name[-1:] == "f" and name[:-1] in self.MATH and q in (name, "std::" + name):
            name = name[:-1]
            q = name
        if name in self.MATH and q in (name, "std::" + name):
            vs = [self.rv(x, st, fr) for x in a]
            return self.math(name, vs), False
        if name == "__assert_fail" or name in ("abort", "exit", "terminate"):
            for x in a:
                self.rv(x, st, fr)
            if not st.dead:
                fr.throws.append((st.copy(), "abort", mk("abort"), fr.where(n), fr))
            st.pc = FALSE
            return VOID, False
        if name == "__builtin_expect":
            return self.rv(a[0], st, fr), False
        if name in ("begin", "end", "cbegin", "cend") and len(a) == 1 and q.startswith(("std::", "boost::")):
            l = self.lv(a[0], st, fr)
            n0 = self.arraylen(bare(a[0].t))
            return mk("iter", l, ZERO if "begin" in name else (num(n0) if n0 else lift(size, self.load(st, l)))), False
        if name in ("find_if", "any_of", "all_of", "none_of", "for_each", "find_if_not") and q.startswith("std::"):
            return self.algo(n, st, fr, name)
        if name == "find" and q.startswith("std::") and len(a) == 3:
            b, e, v = (self.rv(x, st, fr) for x in a)
            if b.op == "iter":
                return mkl("iterfind", b, e, v), False
        if name == "operator<<" or name == "operator>>":
            return None
        return None

    def convert(self, a, t, st, fr):
        """the argument node a handed to a parameter of type t by a forwarding template; a node or a location"""
        pt, at = bare(t), bare(a.t)
        if pt == at:
            return a
        r = self.rec_of(at)
        if r is None or not r.mine or (self.rec_of(pt) is not None and self.rec_of(pt).mine):
            return a
        for b in [r] + list(self.P.bases_closure(r)):
            for m in b.methods or ():
                if m is not None and m.conv and m.body is not None and bare(m.rt) == pt:
                    o = self.lv(a, st, fr)
                    self.inlined.add(m.q)
                    nf = Frame(m, fr, o, a)
                    self.uid += 1
                    nf.uid = self.uid
                    v = self.run_body(m, nf, st)
                    self.leave(nf, st, fr)
                    if isref(m.rt):
                        return v
                    return self.temp(v, st) if isref(t) else v
        return a

    def make_object(self, rec, l, a, st, fr, n):
        """construct *l from forwarded arguments; False: no constructor known"""
        c = self.pick_ctor(rec, a) if rec is not None else None
        if c is not None and c.defaulted and (c.copyctor or c.movector):
            self.store(st, l, self.rv(a[0], st, fr))
        elif c is not None and (c.body is not None or c.inits):
            self.run_ctor(c, l, [self.convert(x, p.t, st, fr) for x, p in zip(a, c.ps or ())], st, fr, n)
        elif rec is not None and not a:
            self.default_fields(rec, l, st, fr)
        else:
            return False
        return True

    def pick_ctor(self, rec, args):
        cs = [m for m in rec.methods or () if m.ctor and not m.deleted and not m.dep]
        best = None
        for c in cs:
            ps = c.ps or []
            if len(ps) < len(args):
                continue
            req = sum(1 for i, p in enumerate(ps) if not (c.defs and i < len(c.defs) and c.defs[i] is not None))
            if len(args) < req:
                continue
            sc = 0
            for p, a in zip(ps, args):
                if bare(p.t) == bare(a.t):
                    sc += 3
                elif isptr(p.t) == isptr(a.t) and (bare(p.t) in INT_T) == (bare(a.t) in INT_T):
                    sc += 1
                    if SMART.match(bare(p.t)) and SMART.match(bare(a.t)):
                        sc += 1
            if best is None or sc > best[0]:
                best = (sc, c)
        return best[1] if best else None

    def math(self, name, vs):
        name = {"abs": "fabs"}.get(name, name)
        if name == "fabs" and len(vs) == 1:
            return lift(self.absval, vs[0])
        return mkl("fn1", name, *vs)

    @staticmethod
    def absval(x):
        p = as_poly(x)
        if p and list(norm(p).args[0] if norm(p).op == "poly" else [(0, 1)])[-1][1] < 0:
            x = neg(x)
        return ite(lt(ZERO, x), x, neg(x))

    def algo(self, n, st, fr, name):
        """std algorithms over an iterator range with a predicate: the loop they stand for"""
        a = n.a
        b, e = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
        fnv = self.rv(a[2], st, fr)
        if b.op != "iter" or e.op != "iter" or b.args[0] is not e.args[0]:
            return None
        c = b.args[0]
        self.uid += 1
        il = mk("var", "rangeidx", self.uid)
        st.mem[il] = b.args[1]
        sub_fr = Frame(fr.fn, fr, fr.this, n)
        sub_fr.env = fr.env
        sub_fr.uid = fr.uid
        sub_fr.capt = fr.capt

        def call(x):
            v = fnv
            if v.op == "lam":
                r, ref = self.call_lambda(v, [E(c, x.mem[il])] if isref((v.args[0].ps or [None])[0].t) else [self.load(x, E(c, x.mem[il]))], x, sub_fr, n)
                return self.load(x, r) if ref else r
            if v.op == "fn" and v.args[0].mine and v.args[0].body is not None:
                p = v.args[0].ps[0]
                l = E(c, x.mem[il])
                r, ref = self.inline(v.args[0], None, [l if isref(p.t) else self.load(x, l)], x, sub_fr, n)
                return self.load(x, r) if ref else r
            return mkl("apply", v, self.load(x, E(c, x.mem[il])))

        def body(x):
            r = call(x)
            if name == "for_each":
                return
            r = tobool(r)
            if name in ("all_of", "find_if_not"):
                r = not_(r)

            def stop(y):
                sub_fr.brk[-1].append(y.copy())
                y.pc = FALSE
            self.branch(r, x, stop, lambda y: None)

        def inc(x):
            x.mem[il] = add(x.mem[il], ONE)
        # found flag: exits by break
        flag = mk("var", "algoflag", self.uid)
        st.mem[flag] = FALSE
        body0 = body

        def body1(x):
            x.mem[flag] = TRUE
            body0(x)
            x.mem[flag] = FALSE
        self.loop(n, st, sub_fr, lambda x: not_(eq(x.mem[il], e.args[1])), body1, inc)
        fr.throws.extend(t for t in sub_fr.throws)
        if st.dead:
            return VOID, False
        found = st.mem.get(flag, FALSE)
        idx = st.mem.get(il, ZERO)
        st.mem.pop(il, None)
        st.mem.pop(flag, None)
        if name in ("any_of",):
            return tobool(found), False
        if name in ("all_of", "none_of"):
            return not_(found), False
        if name == "for_each":
            return fnv, False
        return lift(lambda i: mk("iter", c, i), idx), False


class _Ref:
    def __init__(self, d):
        self.d = d
        self.k = "ref"
