"""Y01: what the names exported to Python call."""
import ast
import glob
import os
import re
import sys
from ..sa import facts
from ..sa.facts import Broken, Program, walk
from ..sa.vg import bare
sys.setrecursionlimit(20000)

HERE = "sm_python/"
NOISE = {"get", "set", "add", "or", "create", "default", "one", "all"}


def load():
    py = sorted(p for p in glob.glob("/usr/include/python3*") if os.path.exists(p + "/Python.h"))
    if not py:
        raise Broken("no Python headers")
    fl = ["-I" + facts.REPO + "/sm_python/include", "-I" + facts.VERIF + "/witness/stubs", "-isystem", py[-1]]
    us = [(os.path.relpath(f, facts.REPO), f, fl) for f in sorted(glob.glob(facts.REPO + "/sm_python/src/*.cpp"))]
    if not us:
        raise Broken("no bindings found")
    return Program([r"^$"], extra=us)


def words(n):
    return frozenset(w.lower() for w in re.findall(r"[A-Z]+(?![a-z])\d*|[A-Z][a-z0-9]*|[a-z0-9]+", n))


def peel(n):
    while n is not None and n.k in ("cast", "paren") and n.e is not None:
        n = n.e
    return n


def targs(t):
    """the arguments of a template type at the top level"""
    i = t.find("<")
    out, depth, cur = [], 0, ""
    for c in t[i + 1:t.rindex(">")] if i >= 0 else "":
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += c in "<(" and 1 or c in ">)" and -1 or 0
        cur += c
    return [x for x in out + [cur.strip()] if x and "mpl_::void_" != x]


class Reg:
    """one name given to Python"""

    def __init__(self, cls, name, target, params, fn, line):
        self.cls, self.name, self.target, self.params, self.fn, self.line = cls, name, target, params, fn, line

    @property
    def where(self):
        return "%s:%s" % (self.fn.rel, self.line or self.fn.l)

    def show(self):
        return "%s%s(%s)" % (self.cls + "." if self.cls else "", self.name, ", ".join(self.params or ()))


class Bindings:
    def __init__(self, P):
        self.P = P
        self.regs, self.classes, self.bases, self.enums, self.bad = [], [], {}, {}, []
        self.recs, self.pickled, self.locals = {}, {}, {}
        self.open = []
        for r in P.records:
            for k in (r.ty, r.q):
                if k:
                    old = self.recs.get(bare(k))
                    if old is None or len(r.methods or ()) > len(old.methods or ()):
                        self.recs[bare(k)] = r
        inits = [f for f in P.funcs if re.match("init_module_", f.name or "") and f.body is not None]
        if not inits:
            raise Broken("no module initialiser")
        self.init = inits[0]
        self.seen = set()
        self.bodies = {}
        for f in P.funcs:
            if f.body is not None and not f.dep:
                self.bodies.setdefault((f.q, f.t, f.targs), f)
        self.visit(self.init.body, self.init, {})

    def body(self, f):
        if f is None:
            return None
        return f if f.body is not None else self.bodies.get((f.q, f.t, f.targs))

    # ------------------------------------------------------------ what is registered, in order
    def visit(self, n, fn, env):
        if isinstance(n, list):
            for x in n:
                self.visit(x, fn, env)
            return
        if not isinstance(n, dict):
            return
        if n.k == "lam":
            return
        if n.k == "decl":
            for v in n.v or ():
                if v.get("d") is not None and v.get("i") is not None:
                    self.locals[v["d"]] = v["i"]
        if n.k in ("call", "ctor"):
            if n.o is not None:
                self.visit(n.o, fn, env)
            for x in n.a or ():
                self.visit(x, fn, env)
            self.call(n, fn, env)
            return
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                self.visit(v, fn, env)

    def call(self, n, fn, env):
        f = n.f
        if f is None:
            return
        q = f.q or ""
        if n.k == "ctor":
            m = bare(n.t or "")
            if m.startswith("boost::python::class_<") and not (len(n.a or ()) == 1 and bare(n.a[0].t or "") == m):
                self.declare(m, n, fn)
            return
        if f.rel.startswith(HERE):
            b = self.body(f)
            if b is not None and b not in self.seen and registers(b, self):
                self.seen.add(b)
                self.visit(b.body, b, {})
            return
        ot = bare(n.o.t or "").rstrip("*& ") if n.o is not None else ""
        if q.startswith("boost::python::") and f.name == "def" and n.o is None:
            self.named(None, n, fn)
        elif ot.startswith("boost::python::class_<"):
            cls = bare(targs(ot)[0])
            if f.name == "def" and n.a and strlit(n.a[0]) is not None:
                self.named(cls, n, fn)
                for a in n.a[2:]:
                    m = re.search(r"reference_existing_object|return_opaque_pointer", bare(a.t or ""))
                    if m:
                        self.bad.append(("python.lifetime", fn, n, "%s.%s hands out a reference that nothing keeps alive (%s)" % (cls, strlit(n.a[0]), m.group(0))))
            elif f.name == "def" and n.a:
                self.visitor(cls, n.a[0], fn, n)
            elif f.name == "def_pickle" and n.a:
                m = re.search(r"pickle_suite<(.*)>$", bare(n.a[0].t or ""))
                self.pickled[cls] = (bare(m.group(1)) if m else cls, fn, n)
            elif f.name in ("add_property", "def_readwrite", "def_readonly", "add_static_property") and len(n.a or ()) > 1:
                pass
        elif ot.startswith("boost::python::enum_<") and f.name == "value":
            v = peel(n.a[1])
            while v is not None and v.k in ("un", "cast"):
                v = v.e
            e = bare(targs(ot)[0])
            nm = strlit(n.a[0])
            self.enums.setdefault(e, {})[nm] = v.d.name if v is not None and v.d is not None else None

    def declare(self, t, n, fn):
        a = targs(t)
        cls = bare(a[0])
        bs = []
        for x in a[1:]:
            if x.startswith("boost::python::bases<"):
                bs = [bare(y) for y in targs(x)]
        for b in bs:
            if b not in self.classes:
                self.bad.append(("python.base", fn, n, "%s is exported before its base class %s: importing the module fails" % (cls, b)))
        self.classes.append(cls)
        self.bases[cls] = bs
        if len(n.a or ()) > 1:
            self.visitor(cls, n.a[-1], fn, n)

    def visitor(self, cls, a, fn, n):
        a = peel(a)
        while a is not None and a.k == "ctor" and len(a.a or ()) == 1 and "def_visitor" not in bare(a.t) and bare(a.a[0].t or "") == bare(a.t):
            a = peel(a.a[0])
        t = bare(a.t or "")
        if t.startswith("boost::python::init<"):
            self.regs.append(Reg(cls, "__init__", None, [bare(x) for x in targs(t)], fn, n.l))
        elif t.startswith("boost::python::detail::operator_<"):
            op, l, r = targs(t)[:3]
            op = op.split("::")[-1].replace("op_", "")
            ls, rs = "self_t" in l, "self_t" in r
            name = "__%s%s__" % ("" if ls else "r", op)
            other = bare(cls if ls and rs else r if ls else l)
            m = re.match(r"boost::python::other<(.*)>$", other)
            self.regs.append(Reg(cls, name, None, [bare(m.group(1)) if m else other], fn, n.l))

    def named(self, cls, n, fn):
        name = strlit(n.a[0])
        if name is None or len(n.a) < 2:
            return
        t = self.resolve(n.a[1])
        if t is None:
            self.open.append(name)
            return
        ps = [bare(p.ty or p.t or "") for p in t.ps or ()]
        if cls is not None and not self.ismember(t) and not t.static:
            ps = ps[1:]
        self.regs.append(Reg(cls, name, t, ps, fn, n.l))

    @staticmethod
    def ismember(t):
        return t.k == "CXXMethod" and not t.static and t.name != "operator()"

    def resolve(self, n, depth=0):
        """the function that an expression names"""
        while n is not None:
            if n.k in ("cast", "paren", "un"):
                n = n.e
            elif n.k == "lam":
                return n.d
            elif n.k == "call" and n.f is not None and n.f.k == "CXXConversion" and n.o is not None:
                n = n.o
            elif n.k in ("ref", "mem") and n.d is not None:
                if n.d.isfunc:
                    return n.d
                init = self.locals.get(n.d) or n.d.init
                if depth < 5 and init is not None:
                    return self.resolve(init, depth + 1)
                return None
            elif n.k == "ctor" and len(n.a or ()) == 1:
                n = n.a[0]
            else:
                return None
        return None

    # ------------------------------------------------------------ classes
    def rec(self, cls):
        return self.recs.get(bare(cls).rstrip("*& ").strip())

    def ancestry(self, cls):
        out, todo = [], [self.rec(cls)]
        while todo:
            r = todo.pop(0)
            if r is None or r in out:
                continue
            out.append(r)
            todo += [b for b in r.bases or ()]
        return out

    def derived(self, a, b):
        """is the class a the class b or derived from it?"""
        a, b = (bare(bare(x).rstrip("*& ").strip()) for x in (a, b))
        return a == b or any(bare(r.ty or r.q or "") == b or bare(r.q or "") == b for r in self.ancestry(a))

    def members(self, cls):
        return [m for r in self.ancestry(cls) for m in r.methods or () if m is not None]

    def called(self, t, seen=None):
        """the functions outside the bindings that one inside calls"""
        seen = set() if seen is None else seen
        b = self.body(t)
        if not t.rel.startswith(HERE):
            return {t}
        if b is None or b in seen:
            return set()
        seen.add(b)
        out = set()
        for n in walk(b.body):
            f = n.f if n.k in ("call", "ctor") else None
            if f is not None and getattr(f, "name", None):
                out |= self.called(f, seen)
            if n.k == "lam" and n.d is not None:
                out |= self.called(n.d, seen)
        return out

    def forwards(self, t):
        """a function that only passes on to another one"""
        b = self.body(t)
        if b is None or any(n.k == "decl" for n in walk(b.body)):
            return None
        fs = {n.f for n in walk(b.body) if n.k == "call" and n.f is not None and n.f.mine and n.f.name}
        return fs.pop() if len(fs) == 1 else None


def strlit(n):
    n = peel(n)
    while n is not None and n.k == "cast":
        n = n.e
    return n.v if n is not None and n.k == "str" else None


def registers(f, B, seen=None):
    """does a function of the bindings register anything?"""
    seen = set() if seen is None else seen
    if f is None or f in seen or f.body is None:
        return False
    seen.add(f)
    for n in walk(f.body):
        g = n.f if n.k in ("call", "ctor") else None
        if g is None:
            continue
        q = g.q or ""
        if q.startswith("boost::python::class_") or q.startswith("boost::python::enum_") or q == "boost::python::def":
            return True
        if g.rel.startswith(HERE) and registers(B.body(g), B, seen):
            return True
    return False


def related(name, names):
    """of the names, those that the exported one speaks of"""
    if name in names:
        return {name}
    w = words(name)
    sub = {m for m in names if words(m) <= w and words(m) - NOISE}
    sub = {m for m in sub if not any(words(m) < words(o) for o in sub)}
    if sub:
        return sub
    core = w - NOISE
    return {m for m in names if core and words(m) - NOISE == core}


def namesakes(out, B):
    for r in B.regs:
        t = r.target
        if t is None:
            continue
        out.analysed(names=[r.show()])
        calls = B.called(t)
        names = {f.name for f in calls}
        for f in list(calls):
            while f is not None and f.name != r.name and len(names) < 50:
                f = B.forwards(f)
                if f is None or f.name in names:
                    break
                names.add(f.name)
        if r.cls is not None:
            if B.ismember(t):
                if not B.derived(r.cls, t.cls.ty or t.cls.q):
                    out.violation("python.receiver", r.fn.q, r.where, "%s calls a member of %s, which %s is not: the call is always refused" % (r.show(), t.cls.q, r.cls))
                    continue
                hidden(out, B, r, t)
            elif t.static and t.cls is not None:
                if not B.derived(r.cls, t.cls.ty or t.cls.q):
                    out.violation("python.receiver", r.fn.q, r.where, "%s calls a static member of %s, which %s is not" % (r.show(), t.cls.q, r.cls))
                    continue
            elif t.ps:
                p = bare(t.ps[0].ty or t.ps[0].t or "")
                if B.rec(p) is not None and not B.derived(r.cls, p):
                    out.violation("python.receiver", r.fn.q, r.where, "%s calls a function on %s, which %s is not" % (r.show(), p, r.cls))
                    continue
            family = {m.name for m in B.members(r.cls) if m.k == "CXXMethod" and m.name}
        else:
            spaces = {(f.q or "").rsplit("::", 1)[0] for f in calls if f.k == "Function" and (f.q or "").startswith("sm::")}
            family = {f.name for f in B.P.funcs if f.k == "Function" and f.mine and f.name and (f.q or "").rsplit("::", 1)[0] in spaces}
        want = related(r.name, family)
        if want and not want & names and not (r.name not in family and any(words(r.name) <= words(x) for x in names)):
            out.violation("python.name", r.fn.q, r.where, "%s does not call %s but %s" % (r.show(), " or ".join(sorted(want)), ", ".join(sorted(names)) or "nothing"))
        if t.rel.startswith(HERE):
            unused(out, B, r, t)
            swapped(out, B, r, t)


def unused(out, B, r, t):
    b = B.body(t)
    if b is None:
        return
    used = {n.d for n in walk(b.body) if n.k == "ref"}
    for p in b.ps or ():
        if p not in used:
            out.violation("python.parameter", r.fn.q, r.where, "%s ignores its parameter %s" % (r.show(), p.name or "?"))


def swapped(out, B, r, t):
    """parameters of one type reach the function of that name in their order"""
    b = B.body(t)
    if b is None:
        return
    ps = list(b.ps or ())
    for n in walk(b.body):
        if n.k != "call" or n.f is None or not n.f.mine or not related(r.name, {n.f.name or ""}):
            continue
        at = []
        for a in n.a or ():
            a = peel(a)
            while a is not None and a.k == "ctor" and len(a.a or ()) == 1:
                a = peel(a.a[0])
            at.append(ps.index(a.d) if a is not None and a.k == "ref" and a.d in ps else None)
        at = [x for x in at if x is not None]
        for x, y in zip(at, at[1:]):
            if x > y and bare(ps[x].ty or ps[x].t or "") == bare(ps[y].ty or ps[y].t or ""):
                out.violation("python.order", r.fn.q, r.where, "%s passes its parameters %s and %s on in the other order" % (r.show(), ps[y].name, ps[x].name))


def same(a, b):
    return [bare(p.ty or p.t or "") for p in a.ps or ()] == [bare(p.ty or p.t or "") for p in b.ps or ()]


def overrides(m, t, seen=()):
    return m is t or any(o is not None and overrides(o, t) for o in m.ov or ())


def nearer(B, cls, t):
    """a member of the class that replaces t without overriding it"""
    for r in B.ancestry(cls):
        if t.cls is not None and bare(r.q) == bare(t.cls.q):
            return None
        for m in r.methods or ():
            if m is not None and m.name == t.name and m.k == "CXXMethod" and same(m, t) and not overrides(m, t) and m.access in (None, 0):
                return m
    return None


def hidden(out, B, r, t):
    m = nearer(B, r.cls, t)
    if m is not None:
        out.violation("python.hidden", r.fn.q, r.where, "%s calls %s although %s replaces it" % (r.show(), t.q, m.q))


def lineage(B, cls):
    """the exported classes that Python looks a name up in, nearest first"""
    out, todo = [], [cls]
    while todo:
        c = todo.pop(0)
        if c not in out:
            out.append(c)
            todo += B.bases.get(c, [])
    return out


def inherited(out, B):
    """a class that replaces a member of its base, or adds to its state, exports its own"""
    for cls in B.classes:
        up = lineage(B, cls)[1:]
        known = {r.name for r in B.regs if r.cls == cls}
        for b in up:
            for r in B.regs:
                if r.cls == b and r.name not in known and r.target is not None and B.ismember(r.target):
                    m = nearer(B, cls, r.target)
                    if m is not None:
                        out.violation("python.inherited", r.fn.q, r.where, "%s.%s calls the base's %s: %s is not exported" % (cls, r.name, r.target.q, m.q))
            known |= {r.name for r in B.regs if r.cls == b}
        for c in [cls] + up:
            if c not in B.pickled:
                continue
            t, fn, n = B.pickled[c]
            if c == cls and t != cls:
                out.violation("python.pickle", fn.q, "%s:%s" % (fn.rel, n.l or fn.l), "%s is pickled as %s" % (cls, t))
            elif c != cls:
                more = [f.name for r in B.ancestry(cls) if not B.derived(c, bare(r.ty or r.q)) for f in r.fields or () if f.name]
                if more:
                    out.violation("python.pickle", fn.q, "%s:%s" % (fn.rel, n.l or fn.l), "%s is pickled as its base %s: %s is lost" % (cls, c, ", ".join(more)))
            break


NUMERIC = {"bool": 0, "int": 1, "unsigned int": 1, "long": 1, "unsigned long": 1, "long long": 1, "unsigned long long": 1, "short": 1, "float": 2, "double": 2}


def takes(B, a, b):
    """does a parameter of type b accept every argument meant for one of type a?"""
    if a == b or a.rstrip("*& ") == b.rstrip("*& "):
        return True
    if a in NUMERIC and b in NUMERIC:
        return NUMERIC[a] <= NUMERIC[b]
    todo, seen = [a.rstrip("*& ")], set()
    while todo:
        x = todo.pop()
        if x == b.rstrip("*& "):
            return True
        if x not in seen:
            seen.add(x)
            todo += B.bases.get(x, [])
    return False


def overloads(out, B):
    """among the overloads of a name, the last one registered that takes the arguments is called"""
    by = {}
    for r in B.regs:
        by.setdefault((r.cls, r.name), []).append(r)
    for k, rs in by.items():
        for i, r in enumerate(rs):
            for s in rs[i + 1:]:
                if len(r.params) != len(s.params) or not all(takes(B, a, b) for a, b in zip(r.params, s.params)):
                    continue
                if r.target is not None and r.target is s.target:
                    continue
                if r.params == s.params and r.target is None:
                    continue
                out.violation("python.overload", s.fn.q, s.where, "%s, registered after %s, takes all its arguments: it is never called" % (s.show(), r.show()))
                break


def reached(out, B):
    for f in B.P.funcs:
        if f.rel.startswith(HERE + "src/") and f.body is not None and not f.dep and not f.inst and f.k == "Function" and not f.ps and f is not B.init:
            if registers(f, B) and f not in B.seen and not any(g.q == f.q for g in B.seen) and not re.match("PyInit_|init_module_", f.name):
                out.violation("python.unreached", f.q, f.where, "%s registers names but the module's initialiser never calls it" % f.q)
            out.analysed(functions=[f.q])


def enumerators(out, B):
    for e, vs in B.enums.items():
        for n, v in vs.items():
            out.analysed(enumerators=["%s.%s" % (e, n)])
            if v is not None and v != n:
                out.violation("python.enumerator", e, B.init.where, "the name %s of %s stands for %s" % (n, e, v))


# ---------------------------------------------------------------- the Python side
def helpers(out, B):
    """functions that log at a level log at the one that they are named for; only names that exist are used"""
    path = os.path.join(facts.REPO, "sm_python/python/sm/__init__.py")
    if not os.path.exists(path):
        raise Broken("no " + path)
    with open(path) as f:
        tree = ast.parse(f.read())
    level = next((v for k, v in B.enums.items() if k.endswith("logging::levels::Level") or k.endswith("logging::Level")), None)
    if level is None:
        raise Broken("the logging levels are not exported")
    rel = "sm_python/python/sm/__init__.py"
    levels = {k.lower(): k for k in level}
    exported = {r.name for r in B.regs if r.cls is None}
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "LoggingLevel" and n.attr not in level:
            out.violation("python.level", rel, "%s:%d" % (rel, n.lineno), "LoggingLevel.%s is not exported: using it raises AttributeError" % n.attr)
    known = set(dir(__builtins__ if not isinstance(__builtins__, dict) else object)) | (set(__builtins__) if isinstance(__builtins__, dict) else set())
    defined = {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for f in tree.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        out.analysed(helpers=[f.name])
        for c in ast.walk(f):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and re.match("rawLog|get|set|is|log", c.func.id):
                if c.func.id not in exported | defined | known:
                    out.violation("python.unknown", f.name, "%s:%d" % (rel, c.lineno), "%s calls %s, which is not exported" % (f.name, c.func.id))
        m = re.match(r"log([A-Z][a-z]+)(Named)?$", f.name)
        if m and m.group(1).lower() in levels:
            level_helper(out, rel, tree, f, levels[m.group(1).lower()], m.group(2))
        if f.name in ("log", "logNamed"):
            raw_helper(out, rel, f, "rawLog" + f.name[3:])
    typed(out, B, rel, tree)


def say(out, rel, f, n, key, text):
    out.violation("python." + key, f.name, "%s:%d" % (rel, n.lineno), text)


def level_helper(out, rel, tree, f, level, named):
    defs = {g.name: g for g in tree.body if isinstance(g, ast.FunctionDef)}
    env = assigned(f)
    for n in ast.walk(f):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "LoggingLevel" and n.attr != level:
            say(out, rel, f, n, "level", "%s logs at %s" % (f.name, n.attr))
    args = {a.arg for a in f.args.args}
    for a in sorted(args - {n.id for n in ast.walk(f) if isinstance(n, ast.Name)}):
        say(out, rel, f, f, "parameter", "%s ignores its parameter %s" % (f.name, a))
    for c in ast.walk(f):
        if not isinstance(c, ast.Call) or not isinstance(c.func, ast.Name) or c.func.id not in ("log", "logNamed") or c.func.id not in defs:
            continue
        if (c.func.id == "logNamed") != bool(named):
            say(out, rel, f, c, "level", "%s logs through %s" % (f.name, c.func.id))
            continue
        given = bound(defs[c.func.id], c)
        if given is None:
            continue
        for p, v in given.items():
            v = env.get(v.id, v) if isinstance(v, ast.Name) and v.id not in args else v
            if p in ("name", "message") and isinstance(v, ast.Name) and v.id in args and v.id != p:
                say(out, rel, f, c, "argument", "%s passes %s as the %s of %s" % (f.name, v.id, p, c.func.id))
            if p == "stackdepth" and isinstance(v, ast.Constant) and v.value != 2:
                say(out, rel, f, c, "frame", "%s reports the frame %s instead of its caller's, 2" % (f.name, v.value))


def bound(g, c):
    """what each parameter of g stands for in the call c"""
    ps = [a.arg for a in g.args.args]
    if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
        return None
    out = dict(zip(ps[len(ps) - len(g.args.defaults):], g.args.defaults))
    out.update(zip(ps, c.args))
    out.update({k.arg: k.value for k in c.keywords})
    return out


def assigned(f):
    """local names that are assigned once"""
    out, twice = {}, set()
    for n in ast.walk(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            k = n.targets[0].id
            if k in out:
                twice.add(k)
            out[k] = n.value
    return {k: v for k, v in out.items() if k not in twice}


def raw_helper(out, rel, f, raw):
    """log writes exactly what is at or above the logging level, with its arguments and the caller's frame"""
    env = assigned(f)

    def at(e, order):
        """the value of a condition when the module's level compares so with the message's"""
        if isinstance(e, ast.Name) and e.id in env:
            return at(env[e.id], order)
        if isinstance(e, ast.Constant) and isinstance(e.value, bool):
            return e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = at(e.operand, order)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [at(x, order) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            return stop if stop in vs else None if None in vs else not stop
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = side(e.left), side(e.comparators[0])
            if {a, b} != {"module", "message"}:
                return None
            o = order if a == "module" else -order
            k = type(e.ops[0])
            return {ast.Gt: o > 0, ast.GtE: o >= 0, ast.Lt: o < 0, ast.LtE: o <= 0, ast.Eq: o == 0, ast.NotEq: o != 0}.get(k)
        return None

    def side(e):
        if isinstance(e, ast.Name) and e.id in env:
            return side(env[e.id])
        if isinstance(e, ast.Name) and e.id == "level":
            return "message"
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getLoggingLevel" and not e.args:
            return "module"
        return None

    def run(body, order):
        """(may write, may not write, may go on)"""
        w, n, go = False, False, True
        for st in body:
            if not go:
                break
            if isinstance(st, ast.Return):
                if any(iscall(x) for x in ast.walk(st)):
                    return True, n, False
                return w, True, False
            if isinstance(st, ast.If):
                v = at(st.test, order)
                ways = [run(b, order) for b, on in ((st.body, v is not False), (st.orelse, v is not True)) if on]
                w = w or any(x[0] for x in ways)
                n = n or any(x[1] for x in ways)
                if all(x[0] and not x[2] for x in ways):
                    return w, n, False
                go = any(x[2] for x in ways)
                continue
            if any(iscall(x) for x in ast.walk(st)):
                return True, n, False
        return w, n or go, go

    def iscall(x):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == raw

    for order, what in ((-1, "above"), (0, "at"), (1, "below")):
        w, n, _ = run(f.body, order)
        if order > 0 and w and not n:
            say(out, rel, f, f, "filter", "%s writes messages %s the logging level" % (f.name, what))
        if order <= 0 and n and not w:
            say(out, rel, f, f, "filter", "%s does not write messages %s the logging level" % (f.name, what))
    want = (["name"] if raw.endswith("Named") else []) + ["level", "filename", "lineno", "function", "message"]
    for c in ast.walk(f):
        if iscall(c) and not c.keywords:
            for k, v in zip(want, c.args):
                if isinstance(v, ast.Name) and v.id in env:
                    v = env[v.id]
                got = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else None
                if got in want and got != k:
                    say(out, rel, f, c, "argument", "%s passes %s to %s as the %s" % (f.name, got, raw, k))


SUB = {("bool", "int")}


def typed(out, B, rel, tree):
    """values are sent to the accessor of their type"""
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        for n in ast.walk(f):
            if not isinstance(n, ast.If):
                continue
            seen, x = [], n
            while True:
                t = x.test
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and isinstance(t.args[1], ast.Name):
                    k = t.args[1].id
                    for o in seen:
                        if (k, o) in SUB:
                            say(out, rel, f, x, "type", "%s: every %s is treated as %s" % (f.name, k, o))
                    seen.append(k)
                    nm = {"str": "String", "bool": "Bool", "int": "Int", "float": "Double"}.get(k)
                    st = x.body[0]
                    v = st.value if isinstance(st, (ast.Return, ast.Assign)) else None
                    if nm and isinstance(v, ast.Constant) and isinstance(v.value, str) and v.value in ("String", "Bool", "Int", "Double") and v.value != nm:
                        say(out, rel, f, x, "type", "%s treats a %s as %s" % (f.name, k, v.value))
                if len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If):
                    x = x.orelse[0]
                else:
                    break


def y01(out):
    out.rule("The registrations of the Boost.Python module are listed in the order in which its initialiser makes them. Each name calls, directly or through a wrapper that uses all its "
             "parameters, the function of that name (or the one its words name) on the exported class, a member of the class or of a base that the class does not replace; no "
             "overload is hidden by one registered later that takes all its arguments; replaced members are exported again; bases are exported first; a class that adds to its base's state is not pickled as the base; every exporter is called; "
             "enumerators keep their names. The Python helpers use exported names only and log at the level they are named for.")
    out.assumption("the header of the package numpy_eigen, which is not part of the repository, only includes Boost.Python")
    P = load()
    B = Bindings(P)
    if len(B.regs) < 50:
        raise Broken("only %d names found" % len(B.regs))
    for key, fn, n, text in B.bad:
        out.violation(key, fn.q, "%s:%s" % (fn.rel, n.l or fn.l), text)
    namesakes(out, B)
    inherited(out, B)
    overloads(out, B)
    reached(out, B)
    enumerators(out, B)
    helpers(out, B)
    out.analysed(classes=B.classes)


CHECKS = {"Y01": y01}
