"""Interprocedural, exception-aware flow analysis over the resolved syntax tree.

States are (client state, facts): `facts` are truths of simple conditions learned on branches
(a predicate-abstraction domain), the client state is whatever the property's automaton needs.
The analysis is a collecting one over finite sets of such states; loops are iterated to a fixpoint.
Callees defined in the repository are analysed in the caller's context (paths substituted)."""
from .facts import Broken, strip

NOTHROW_EXT = {
    "fprintf", "printf", "vsnprintf", "snprintf", "fputs", "fflush", "abort", "exit", "memcpy", "memset", "strlen",
    "notify_all", "notify_one", "empty", "size", "begin", "end", "get", "operator->", "operator*", "operator bool",
    "operator!", "operator==", "operator!=", "find", "front", "back", "length", "data", "c_str", "what", "owns_lock",
    "operator++", "move", "forward", "pop_front", "pop_back", "swap", "get_id", "unlock", "operator[]", "reset",
    "va_start", "va_end", "va_copy", "__builtin_va_start", "__builtin_va_end", "__builtin_va_copy", "count",
}
GUARD_CLASSES = ("boost::unique_lock<", "std::unique_lock<", "boost::lock_guard<", "std::lock_guard<",
                 "std::scoped_lock<", "boost::shared_lock<", "boost::strict_lock<", "std::shared_lock<", "boost::upgrade_lock<")
MUTEX_RE = ("mutex",)


def is_guard_type(t):
    t = (t or "").replace("const ", "")
    return any(t.startswith(g) for g in GUARD_CLASSES)


def is_mutex_type(t):
    t = (t or "").replace("const ", "").rstrip("& ")
    return t in ("boost::mutex", "boost::recursive_mutex", "std::mutex", "std::recursive_mutex", "boost::shared_mutex",
                 "boost::timed_mutex", "std::shared_mutex", "std::timed_mutex", "boost::recursive_timed_mutex",
                 "std::recursive_timed_mutex", "std::shared_timed_mutex", "boost::detail::spinlock")


def is_cv_type(t):
    t = (t or "").replace("const ", "").rstrip("& ")
    return t in ("boost::condition_variable_any", "boost::condition_variable", "std::condition_variable",
                 "std::condition_variable_any", "boost::condition")


class Ev:
    __slots__ = ("kind", "path", "node", "fn", "args", "frame", "mode", "extra")

    def __init__(self, kind, frame, node=None, path=None, fn=None, args=None, mode=None, extra=None):
        self.kind = kind
        self.frame = frame
        self.node = node
        self.path = path
        self.fn = fn
        self.args = args
        self.mode = mode
        self.extra = extra


class Frame:
    def __init__(self, fn, parent, this=None, callnode=None):
        self.fn = fn
        self.parent = parent
        self.this = this            # value: ('addr', path) or None
        self.env = {}               # id(decl) -> value ('addr', p) for pointers/references, or path
        self.callnode = callnode
        self.depth = 0 if parent is None else parent.depth + 1
        self.alias = {}
        self.key = (parent.key if parent else ()) + (id(fn),)
        self.tries = 0

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f.fn.q or f.fn.name)
            f = f.parent
        return " <- ".join(out)

    def active(self, fn):
        f = self
        while f is not None:
            if f.fn is fn:
                return True
            f = f.parent
        return False


class Flows(dict):
    """flow kind -> set of states"""

    def add(self, k, sts):
        if sts:
            self.setdefault(k, set()).update(sts)

    def merge(self, o, skip=()):
        for k, v in o.items():
            if k not in skip:
                self.add(k, v)


class Engine:
    MAXDEPTH = 14
    MAXSTATES = 4000

    def __init__(self, prog, client, repo_call=None, throws=True):
        self.P = prog
        self.c = client
        self.throws = throws
        self.repo_call = repo_call
        self.inlined = set()
        self.refs = {}              # path of a reference/pointer member -> ('addr', target)
        self.calls = 0

    # ---------------- paths --------------------------------------
    # path: tuple; first element root: ('this',) / ('glob', Decl) / ('local', Decl, framekey) / ('heap', node) / ('ext', x)
    def lval(self, e, fr):
        """lvalue path of expression, or None"""
        if e is None:
            return None
        k = e.k
        if k in ("defarg", "definit"):
            return self.lval(e.e, fr)
        if k == "cast":
            return self.lval(e.e, fr)
        if k == "ref":
            d = e.d
            if d is None:
                return None
            f = fr
            while f is not None:
                if id(d) in f.env:
                    v = f.env[id(d)]
                    if isinstance(v, tuple) and v and v[0] == "addr":
                        t = d.t or ""
                        if t.endswith("&"):
                            return v[1]
                        return (("local", d, f.key),)
                    return v
                f = f.parent if getattr(f, "lexical", False) else None
            if d.a.get("global"):
                return (("glob", d),)
            return (("local", d, fr.key),)
        if k == "mem":
            if e.d is not None and e.d.a.get("global"):
                return (("glob", e.d),)
            if e.ar:
                v = self.val(e.b, fr)
                if v and v[0] == "addr":
                    return self.deref_member(v[1] + (e.d,), e.d)
                p = self.lval(e.b, fr)
                return None if p is None else self.deref_member(p + ("*", e.d), e.d)
            p = self.lval(e.b, fr)
            return None if p is None else self.deref_member(p + (e.d,), e.d)
        if k == "un" and e.op == "*":
            v = self.val(e.e, fr)
            if v and v[0] == "addr":
                return v[1]
            p = self.lval(e.e, fr)
            return None if p is None else p + ("*",)
        if k == "un" and e.op in ("++", "--"):
            return self.lval(e.e, fr)
        if k == "asg":
            return self.lval(e.x, fr)
        if k == "idx":
            p = self.lval(e.b, fr)
            return None if p is None else p + ("[]",)
        if k == "call":
            n = e.f.name if e.f is not None else ""
            if n in ("move", "forward", "ref", "cref", "as_const") and e.a and (e.f.q or "").startswith(("std::", "boost::")):
                return self.lval(e.a[0], fr)
            if e.o is not None and n in ("operator->", "operator*", "get", "value", "operator[]", "at", "front", "back", "top", "begin", "end", "rbegin", "find", "operator++", "cbegin", "cend"):
                p = self.lval(e.o, fr)
                if p is None:
                    return None
                if n in ("begin", "end", "rbegin", "cbegin", "cend", "find"):
                    return p
                if n == "operator++":
                    return p
                if n in ("operator[]", "at", "front", "back", "top"):
                    return p + ("[]",)
                if e.f is not None and e.f.body is not None and e.f.mine:
                    pass
                else:
                    return p + ("*",)
            if e.f is not None and e.f.mine and e.f.body is not None:
                return self.ret_path(e, fr)
        if k == "this":
            return None
        if k == "ctor" and len(e.a or ()) == 1 and (e.f.copyctor or e.f.movector):
            return self.lval(e.a[0], fr)
        return None

    def deref_member(self, p, d):
        if (d.t or "").endswith("&") and p in self.refs:
            return self.refs[p][1]
        return p

    def val(self, e, fr):
        """pointer value: ('addr', path) or None"""
        e0 = e
        while e is not None and e.k in ("cast", "defarg", "definit"):
            e = e.e
        if e is None:
            return None
        k = e.k
        if k == "this":
            return fr.this
        if k == "un" and e.op == "&":
            p = self.lval(e.e, fr)
            return None if p is None else ("addr", p)
        if k == "ref" and e.d is not None:
            f = fr
            while f is not None:
                if id(e.d) in f.env:
                    v = f.env[id(e.d)]
                    if isinstance(v, tuple) and v and v[0] == "addr" and not (e.d.t or "").endswith("&"):
                        return v
                    return None
                f = f.parent if getattr(f, "lexical", False) else None
            return None
        if k == "new":
            return ("addr", (("heap", e),))
        if k == "mem" and (e.t or "").rstrip().endswith("*"):
            p = self.lval(e, fr)
            if p is not None and p in self.refs:
                return self.refs[p]
            return None
        if k == "call" and e.o is not None and e.f is not None and e.f.name in ("get", "operator->"):
            p = self.lval(e.o, fr)
            return None if p is None else ("addr", p + ("*",))
        if k == "call" and e.f is not None and e.f.mine and e.f.body is not None and (e.f.rt or "").endswith("*"):
            p = self.ret_path(e, fr, ptr=True)
            return None if p is None else ("addr", p)
        return None

    def ret_path(self, call, fr, ptr=False):
        """path a small repository function returns a reference (or pointer) to"""
        fn = call.f
        if fr.depth > self.MAXDEPTH or fr.active(fn):
            return None
        if not ((fn.rt or "").rstrip().endswith("&") or ptr):
            return None
        nf = self.bind(fn, call, fr)
        from .facts import walk
        res = set()
        for n in walk(fn.body):
            if n.k == "decl":
                for v in n.v or ():
                    d = v["d"]
                    if d is not None and (d.t or "").endswith("&") and v.get("i") is not None:
                        p = self.lval(v["i"], nf)
                        if p is not None:
                            nf.env[id(d)] = ("addr", p)
            if n.k == "ret" and n.e is not None:
                if ptr:
                    v = self.val(n.e, nf)
                    res.add(v[1] if v else None)
                else:
                    res.add(self.lval(n.e, nf))
        if len(res) == 1:
            return res.pop()
        return None

    def bind(self, fn, call, fr):
        nf = Frame(fn, fr, None, call)
        if call is not None:
            if call.k == "call" and call.o is not None:
                v = self.val(call.o, fr) if call.ar else None
                if v is None:
                    p = self.lval(call.o, fr)
                    if p is None and call.o.k == "this":
                        v = fr.this
                    elif p is not None:
                        v = ("addr", p + ("*",)) if call.ar else ("addr", p)
                nf.this = v
                if v is None and call.o is not None:
                    nf.this = ("addr", (("temp", call.o),))
            for p, a in zip(fn.ps or (), call.a or ()):
                t = p.t or ""
                if t.endswith("&"):
                    lp = self.lval(a, fr)
                    nf.env[id(p)] = ("addr", lp) if lp is not None else ("addr", (("tmp", a),))
                elif t.rstrip().endswith("*") or t.rstrip().endswith("*const"):
                    v = self.val(a, fr)
                    if v is not None:
                        nf.env[id(p)] = v
                    else:
                        lp = self.lval(a, fr)
                        if lp is not None:
                            nf.env[id(p)] = ("addr", lp + ("*",))
                else:
                    u = self.unwrap(a)
                    if u is not None and u.k in ("ref", "mem"):
                        lp = self.lval(u, fr)
                        if lp is not None:
                            nf.alias[(("local", p, nf.key),)] = lp
        return nf

    @staticmethod
    def canon(path, fr):
        """follow by-value parameters to the argument they copy"""
        while fr is not None:
            if path in fr.alias:
                path = fr.alias[path]
            fr = fr.parent
        return path

    # ---------------- events -------------------------------------
    def emit(self, sts, ev):
        out = set()
        for ps, facts in sts:
            r = self.c.event(self, ev, ps, facts)
            if r is None:
                out.add((ps, facts))
            else:
                for x in r:
                    out.add(x if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], frozenset) and getattr(self.c, "ret_facts", False) else (x, facts))
        if len(out) > self.MAXSTATES:
            raise Broken("state explosion at %s" % (ev.frame.chain()))
        return out

    def access(self, sts, path, mode, node, fr, extra=None):
        if path is None:
            return sts
        sts = self.emit(sts, Ev("access", fr, node, path=path, mode=mode, extra=extra))
        if "w" in mode:
            sts = self.invalidate(sts, path)
        return sts

    def invalidate(self, sts, path):
        out = set()
        for ps, facts in sts:
            nf = frozenset(f for f in facts if not any(self.related(d, path) for d in f[2]))
            out.add((ps, nf))
        return out

    @staticmethod
    def related(a, b):
        n = min(len(a), len(b))
        return a[:n] == b[:n]

    def drop_nonlocal_facts(self, sts):
        out = set()
        for ps, facts in sts:
            out.add((ps, frozenset(f for f in facts if all(isinstance(d[0], tuple) and d[0][0] == "local" for d in f[2]))))
        return out

    # ---------------- expressions --------------------------------
    def ev(self, e, sts, fr, fl, mode="r"):
        """evaluate expression for effects. Returns normal states."""
        if e is None or not sts:
            return sts
        k = e.k
        if k in ("int", "flt", "str", "bool", "nullp", "this", "zero", "szof", "typeid", "pseudodtor"):
            return sts
        if k in ("cast", "defarg", "definit"):
            return self.ev(e.e, sts, fr, fl, mode)
        if k == "ref":
            p = self.lval(e, fr)
            return self.access(sts, p, mode, e, fr) if mode else sts
        if k == "mem":
            sts = self.ev(e.b, sts, fr, fl, "r" if e.ar else None)
            p = self.lval(e, fr)
            return self.access(sts, p, mode, e, fr) if mode else sts
        if k == "un":
            if e.op in ("++", "--"):
                sts = self.ev(e.e, sts, fr, fl, None)
                return self.access(sts, self.lval(e.e, fr), "rw", e, fr, extra=e.op)
            if e.op == "&":
                return self.ev(e.e, sts, fr, fl, None)
            if e.op == "!":
                t, f = self.cond(e, sts, fr, fl)
                return t | f
            if e.op == "*":
                sts = self.ev(e.e, sts, fr, fl, "r")
                p = self.lval(e, fr)
                return self.access(sts, p, mode, e, fr) if mode and p is not None else sts
            return self.ev(e.e, sts, fr, fl, "r")
        if k == "bin":
            if e.op in ("&&", "||"):
                t, f = self.cond(e, sts, fr, fl)
                return t | f
            sts = self.ev(e.x, sts, fr, fl, "r")
            return self.ev(e.y, sts, fr, fl, "r")
        if k == "asg":
            sts = self.ev(e.y, sts, fr, fl, "r")
            sts = self.ev(e.x, sts, fr, fl, None)
            p = self.lval(e.x, fr)
            if e.op == "=" and strip(e.x).k == "ref":
                self.rebind(strip(e.x).d, e.y, fr)
            sts = self.access(sts, p, "w" if e.op == "=" else "rw", e, fr, extra=(e.op, e.y))
            if e.op == "=" and p is not None and (strip(e.x).t or "") == "bool":
                sts = self.learn_assign(sts, p, e.y, fr)
            return sts
        if k == "cond":
            t, f = self.cond(e.c, sts, fr, fl)
            return self.ev(e.x, t, fr, fl, mode) | self.ev(e.y, f, fr, fl, mode)
        if k == "idx":
            sts = self.ev(e.b, sts, fr, fl, mode or "r")
            return self.ev(e.i, sts, fr, fl, "r")
        if k == "call":
            return self.call(e, sts, fr, fl, mode)
        if k in ("ctor",):
            return self.ctor(e, sts, fr, fl)
        if k == "new":
            sts = self.ev(e.n, sts, fr, fl) if isinstance(e.n, dict) else sts
            if e.i is not None:
                if e.i.k == "ctor":
                    sts = self.ctor(e.i, sts, fr, fl, this=("addr", (("heap", e),)))
                else:
                    sts = self.ev(e.i, sts, fr, fl)
            return self.emit(sts, Ev("new", fr, e))
        if k == "del":
            sts = self.ev(e.e, sts, fr, fl)
            return self.emit(sts, Ev("delete", fr, e, path=self.lval(e.e, fr)))
        if k == "throw":
            sts = self.ev(e.e, sts, fr, fl)
            sts = self.emit(sts, Ev("throw", fr, e))
            fl.add("throw", sts)
            return set()
        if k == "ilist":
            for x in e.a or ():
                sts = self.ev(x, sts, fr, fl)
            return sts
        if k == "lam":
            for c in e.cap or ():
                if c.get("i") is not None:
                    sts = self.ev(c["i"], sts, fr, fl, None)
            return sts
        if k == "stmtexpr":
            r = self.stmt(e.b, sts, fr)
            n = r.pop("n", set())
            fl.merge(r)
            return n
        # generic
        for c in e.c or ():
            if isinstance(c, dict):
                sts = self.ev(c, sts, fr, fl)
        return sts

    def rebind(self, d, e, fr):
        """a local pointer (or iterator) now leads elsewhere; a null pointer leads nowhere and is forgotten"""
        if d is None or (d.t or "").endswith("&") or d.a.get("global"):
            return
        f = fr
        while f is not None and id(d) not in f.env and getattr(f, "lexical", False):
            f = f.parent
        if f is None or id(d) not in f.env:
            f = fr
        t = (d.t or "").rstrip()
        if t.endswith("*") or t.endswith("*const"):
            v = self.val(e, fr)
            if v is None:
                lp = self.lval(e, fr)
                v = ("addr", lp + ("*",)) if lp is not None else None
            if v is not None:
                f.env[id(d)] = v
            elif id(d) in f.env and self.unwrap(e).k not in ("null", "int"):
                f.env.pop(id(d), None)
        elif self.iter_like(t):
            lp = self.lval(e, fr)
            if lp is not None:
                f.env[id(d)] = lp
            else:
                f.env.pop(id(d), None)

    def learn_assign(self, sts, p, e, fr):
        v = strip(e)
        if v is not None and v.k == "bool":
            return {(ps, self.addfact(facts, (("t", p)), bool(v.v), (p,))) for ps, facts in sts}
        return sts

    # atoms ------------------------------------------------------
    def atom(self, e, fr):
        """-> (key, positive, deps) or None"""
        e = self.unwrap(e)
        if e is None:
            return None
        if e.k == "bool":
            return (("const",), bool(e.v), ())
        if e.k == "int":
            return (("const",), e.v not in ("0", 0), ())
        if e.k in ("ref", "mem", "idx"):
            p = self.lval(e, fr)
            return None if p is None else (("t", p), True, (p,))
        if e.k == "un" and e.op == "!":
            a = self.atom(e.e, fr)
            return None if a is None else (a[0], not a[1], a[2])
        if e.k == "call" and e.f is not None and e.o is not None and not e.a:
            n = e.f.name
            if e.f.mine and e.f.body is not None:
                return None
            if n in ("operator bool", "get", "operator!"):
                p = self.lval(e.o, fr)
                return None if p is None else (("t", p), n != "operator!", (p,))
            if n in ("empty", "size"):
                p = self.lval(e.o, fr)
                return None if p is None else (("empty", p), n == "empty", (p,))
            return None
        if e.k == "bin" and e.op in ("==", "!=", "<", ">", "<=", ">="):
            x, y, op = self.unwrap(e.x), self.unwrap(e.y), e.op
            if x is not None and x.k in ("int", "nullp", "bool") and not (y is not None and y.k in ("int", "nullp", "bool")):
                x, y = y, x
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if y is not None and y.k in ("int", "nullp", "bool"):
                c = 0 if y.k == "nullp" else (int(y.v) if y.k == "int" else int(bool(y.v)))
                if y.k == "bool":
                    a = self.atom(x, fr)
                    if a is None or op not in ("==", "!="):
                        return None
                    pos = (op == "==") == bool(c)
                    return (a[0], a[1] if pos else not a[1], a[2])
                a = self.atom(x, fr)
                if a is not None and x.k != "bin":
                    if (op, c) in (("!=", 0), (">", 0), (">=", 1)):
                        return a
                    if (op, c) in (("==", 0), ("<=", 0), ("<", 1)):
                        return (a[0], not a[1], a[2])
                    key, pos = (("cmp", a[0], op, c), True)
                    neg = {"!=": "==", ">=": "<", ">": "<="}
                    if op in neg:
                        key, pos = (("cmp", a[0], neg[op], c), False)
                    return (key, pos, a[2])
                return None
            px, py = self.lval(x, fr), self.lval(y, fr)
            if px is not None and py is not None and x.k in ("ref", "mem") and y.k in ("ref", "mem"):
                neg = {"!=": "==", ">=": "<", ">": "<="}
                pos = True
                if op in neg:
                    op, pos = neg[op], False
                return (("rel", px, op, py), pos, (px, py))
        return self.exprkey(e, fr)

    def exprkey(self, e, fr):
        """a pure expression as an opaque predicate over the paths it reads"""
        deps = []

        def go(x):
            x = self.unwrap(x)
            if x is None:
                return "_"
            if x.k in ("int", "flt", "bool", "str"):
                return str(x.v)
            if x.k == "nullp":
                return "null"
            if x.k in ("ref", "mem", "idx"):
                p = self.lval(x, fr)
                if p is None:
                    raise KeyError
                deps.append(p)
                return p
            if x.k == "this":
                return "this"
            if x.k in ("un", "bin") and x.op not in ("++", "--"):
                return (x.op,) + tuple(go(y) for y in (x.x, x.y, x.e) if y is not None)
            if x.k == "call" and x.f is not None and x.f.name in ("get_id",) and not x.a:
                return x.f.q
            if x.k == "call" and x.f is not None and (x.f.const or x.op in ("==", "!=", "<", ">", "<=", ">=")):
                if x.o is not None:
                    p = self.lval(x.o, fr)
                    if p is not None:
                        deps.append(p)
                        return (x.f.q, p) + tuple(go(a) for a in x.a or ())
                return (x.f.q, go(x.o)) + tuple(go(a) for a in x.a or ())
            raise KeyError
        try:
            k = go(e)
        except KeyError:
            return None
        if not deps:
            return None
        return (("expr", k), True, tuple(deps))

    @staticmethod
    def unwrap(e):
        while e is not None and (e.k in ("cast", "defarg", "definit")):
            e = e.e
        return e

    @staticmethod
    def addfact(facts, key, val, deps):
        return frozenset(f for f in facts if f[0] != key) | {(key, val, deps)}

    def cond(self, e, sts, fr, fl):
        """(states where true, states where false)"""
        if not sts:
            return set(), set()
        if e is None:
            return sts, set()
        u = self.unwrap(e)
        if u.k == "un" and u.op == "!":
            t, f = self.cond(u.e, sts, fr, fl)
            return f, t
        if u.k == "bin" and u.op == "&&":
            t, f = self.cond(u.x, sts, fr, fl)
            t2, f2 = self.cond(u.y, t, fr, fl)
            return t2, f | f2
        if u.k == "bin" and u.op == "||":
            t, f = self.cond(u.x, sts, fr, fl)
            t2, f2 = self.cond(u.y, f, fr, fl)
            return t | t2, f2
        if u.k == "call" and u.f is not None and self.inlinable(u, fr):
            res = self.call(u, sts, fr, fl, "r", cond=True)
            if isinstance(res, tuple):
                return res
            return set(res), set(res)
        sts = self.ev(u, sts, fr, fl)
        a = self.atom(u, fr)
        if a is None:
            return set(sts), set(sts)
        key, pos, deps = a
        T, F = set(), set()
        for ps, facts in sts:
            if key == ("const",):
                (T if pos else F).add((ps, facts))
                continue
            known = None
            for f in facts:
                if f[0] == key:
                    known = f[1]
            for v in (True, False):
                if known is not None and known != v:
                    continue
                nf = facts if known is not None else self.addfact(facts, key, v, deps)
                nps = [ps]
                if known is None:
                    r = self.c.learn(self, ps, nf, key, v, fr, u)
                    if r is not None:
                        nps = r
                for x in nps:
                    (T if (v == pos) else F).add((x, nf))
        return T, F

    # ---------------- calls --------------------------------------
    def targets(self, call, fr):
        fn = call.f
        if fn is None:
            return []
        if call.virt:
            res, stack, seen = [], [fn], set()
            while stack:
                f = stack.pop()
                if id(f) in seen:
                    continue
                seen.add(id(f))
                if not f.pure:
                    res.append(f)
                stack.extend(self.P.overriders.get(id(f), ()))
            return res
        return [fn]

    def inlinable(self, call, fr):
        fn = call.f
        if fn is None:
            return False
        ts = [t for t in self.targets(call, fr) if t.mine and t.body is not None]
        return bool(ts) and fr.depth < self.MAXDEPTH

    def call(self, e, sts, fr, fl, mode="r", cond=False):
        self.calls += 1
        fn = e.f
        name = fn.name if fn is not None else ""
        r = self.c.special(self, e, sts, fr, fl)
        if r is not None:
            return r
        if name == "operator=" and e.o is not None and not e.ar and len(e.a or ()) == 1 and self.unwrap(e.o).k == "ref" \
                and self.unwrap(e.o).d is not None and self.iter_like(self.unwrap(e.o).d.t or ""):
            self.rebind(self.unwrap(e.o).d, e.a[0], fr)
        # operand evaluation
        if e.fe is not None and e.o is None:
            sts = self.ev(e.fe, sts, fr, fl, "r")
        inl = self.inlinable(e, fr)
        if e.o is not None:
            om = None
            if not inl:
                om = "r" if (fn is not None and fn.const) or fn is None else ("rw" if name not in ("begin", "end", "find", "front", "back", "operator*", "operator->", "get", "at", "operator[]", "rbegin", "rend", "lock", "unlock") else "r")
                if mode and "w" in mode and name in ("front", "back", "at", "operator[]", "operator*", "operator->"):
                    om = mode
            if e.ar:
                sts = self.ev(e.o, sts, fr, fl, "r" if e.o.k != "this" else None)
            else:
                lam = self.unwrap(e.o)
                op = self.lval(e.o, fr)
                if self.unwrap(e.o).k in ("ref", "mem"):
                    sts = self.ev(e.o, sts, fr, fl, None)
                    if om:
                        sts = self.access(sts, op, om, e, fr, extra=("m", name))
                else:
                    sts = self.ev(e.o, sts, fr, fl, om)
        ps = fn.ps if fn is not None and fn.ps else []
        for i, a in enumerate(e.a or ()):
            t = ps[i].t if i < len(ps) and ps[i] is not None else ""
            if t and t.endswith("&") and not t.endswith("&&"):
                if t.startswith("const "):
                    m = None if inl else "r"
                else:
                    m = None if inl else "rw"
            elif t and t.endswith("&&"):
                m = None if inl else "r"
            else:
                m = "r"
            if name in ("operator<<", "operator>>") and i == 0:
                m = "r" if not inl else None
            sts = self.ev(a, sts, fr, fl, m)
        if not sts:
            return (set(), set()) if cond else set()
        if fn is not None and fn.noret:
            self.emit(sts, Ev("noreturn", fr, e, fn=fn))
            return (set(), set()) if cond else set()
        targets = self.targets(e, fr)
        out, T, F = set(), set(), set()
        ext = False
        for t in targets:
            if t.mine and t.body is not None and fr.depth < self.MAXDEPTH and not fr.active(t):
                r = self.inline(t, e, set(sts), fr, fl, cond)
                if cond:
                    T |= r[0]
                    F |= r[1]
                else:
                    out |= r
            else:
                ext = True
        if ext or not targets:
            s = self.emit(sts, Ev("call", fr, e, path=self.lval(e.o, fr) if e.o is not None else None, fn=fn, args=e.a))
            if self.throws and not (fn is not None and (fn.nothrow or name in NOTHROW_EXT)):
                fl.add("throw", self.emit(sts, Ev("callthrow", fr, e, fn=fn)) if getattr(self.c, "want_throw_events", False) else s)
            # callbacks: lambdas handed to external code run at the call
            for a in e.a or ():
                s = self.callbacks(a, s, fr, fl, e)
            out |= s
            T |= s
            F |= s
        return (T, F) if cond else out

    def callbacks(self, a, s, fr, fl, call):
        u = self.unwrap(a)
        if u is not None and u.k == "ctor" and len(u.a or ()) == 1:
            u = self.unwrap(u.a[0])
        if u is not None and u.k == "lam" and u.d is not None and u.d.body is not None and not self.c.defer_lambda(u, call):
            acc = set(s)
            for _ in range(20):
                r = self.inline_lambda(u, acc, fr, fl)
                if r <= acc:
                    break
                acc |= r
            return acc
        return s

    def inline_lambda(self, lam, sts, fr, fl, cond=False):
        nf = Frame(lam.d, fr, fr.this, lam)
        nf.lexical = True
        nf.this = fr.this
        return self.run(nf, sts, fl, cond)

    def inline(self, fn, call, sts, fr, fl, cond):
        self.inlined.add(fn.q)
        nf = self.bind(fn, call, fr)
        sts = self.emit(sts, Ev("enter", nf, call, fn=fn))
        return self.run(nf, sts, fl, cond)

    def run(self, nf, sts, fl, cond=False):
        fn = nf.fn
        inner = Flows()
        if fn.inits:
            sts = self.ctor_inits(fn, sts, nf, inner)
        nf.retsplit = {} if cond else None
        if fn.body is not None and fn.body.k == "try":
            r = self.stmt(fn.body, sts, nf)
        else:
            r = self.stmt(fn.body, sts, nf) if fn.body is not None else Flows(n=set(sts))
        inner.merge(r)
        thr = inner.get("throw", set())
        if fn.nothrow:
            thr = set()
        thr = self.cleanup(thr, nf)
        fl.add("throw", self.emit(thr, Ev("leave", nf, nf.callnode, fn=fn, mode="throw")) if thr else thr)
        n = inner.get("n", set()) | inner.get("ret", set())
        n = self.cleanup(n, nf)
        n = self.emit(n, Ev("leave", nf, nf.callnode, fn=fn, mode="normal"))
        if cond:
            T = self.emit(self.cleanup(inner.get("retT", set()), nf), Ev("leave", nf, nf.callnode, fn=fn, mode="normal"))
            F = self.emit(self.cleanup(inner.get("retF", set()), nf), Ev("leave", nf, nf.callnode, fn=fn, mode="normal"))
            return (T | n, F | n)
        return n

    def cleanup(self, sts, nf):
        """drop facts about locals of the frame left"""
        out = set()
        for ps, facts in sts:
            out.add((ps, frozenset(f for f in facts if not any(isinstance(d[0], tuple) and d[0][0] == "local" and d[0][2] == nf.key for d in f[2]))))
        return out

    def ctor(self, e, sts, fr, fl, this=None):
        fn = e.f
        ps = fn.ps if fn is not None and fn.ps else []
        inl = fn is not None and fn.mine and (fn.body is not None) and fr.depth < self.MAXDEPTH and not fr.active(fn)
        for i, a in enumerate(e.a or ()):
            t = ps[i].t if i < len(ps) and ps[i] is not None else ""
            m = "r"
            if t.endswith("&"):
                m = None if inl else ("r" if t.startswith("const ") or t.endswith("&&") else "rw")
            sts = self.ev(a, sts, fr, fl, m)
        r = self.c.construct(self, e, sts, fr, fl, this)
        if r is not None:
            return r
        if inl:
            nf = self.bind(fn, e, fr)
            nf.this = this or ("addr", (("temp", e),))
            sts = self.emit(sts, Ev("enter", nf, e, fn=fn))
            self.inlined.add(fn.q)
            return self.run(nf, sts, fl)
        s = self.emit(sts, Ev("ctor", fr, e, path=this[1] if this else None, fn=fn, args=e.a))
        if self.throws and fn is not None and not fn.nothrow and not fn.mine and not self.c.ctor_nothrow(fn):
            fl.add("throw", set(sts))
        return s

    def ctor_inits(self, fn, sts, nf, fl):
        for i in fn.inits:
            fld = i.get("field")
            e = i.get("e")
            if e is not None and fld is not None:
                p = nf.this[1] + (fld,) if nf.this else None
                if e.k == "ctor":
                    sts = self.ctor(e, sts, nf, fl, this=("addr", p) if p else None)
                else:
                    if (fld.t or "").endswith("&"):
                        sts = self.ev(e, sts, nf, fl, None)
                        t = self.lval(e, nf)
                        if p is not None and t is not None:
                            self.refs[p] = ("addr", t)
                    else:
                        sts = self.ev(e, sts, nf, fl)
                        if (fld.t or "").rstrip().endswith("*") and p is not None:
                            v = self.val(e, nf)
                            if v is not None:
                                self.refs[p] = v
                    sts = self.emit(sts, Ev("init", nf, e, path=p))
            elif e is not None:
                if e.k == "ctor":
                    sts = self.ctor(e, sts, nf, fl, this=nf.this)
                else:
                    sts = self.ev(e, sts, nf, fl)
        return sts

    def destroy(self, sts, d, path, fr, fl):
        """destructor of a local variable"""
        r = self.c.destroy(self, d, path, sts, fr, fl)
        if r is not None:
            return r
        rec = self.rec_of(d.t)
        return self.destroy_rec(sts, rec, path, fr, fl)

    def rec_of(self, t):
        t = (t or "").replace("const ", "").strip()
        r = self.P.rec_by_q.get(t)
        return r[0] if r else None

    def destroy_rec(self, sts, rec, path, fr, fl):
        if rec is None or rec.trivdtor:
            return sts
        dt = rec.a.get("dtor")
        if dt is not None and dt.mine and dt.body is not None and not fr.active(dt) and fr.depth < self.MAXDEPTH:
            nf = Frame(dt, fr, ("addr", path))
            nf.this = ("addr", path)
            sts = self.emit(sts, Ev("enter", nf, None, fn=dt))
            sts = self.run(nf, sts, Flows())
        if rec.mine:
            for f in reversed(rec.fields or []):
                if f is None:
                    continue
                r = self.c.destroy(self, f, path + (f,), sts, fr, fl)
                if r is not None:
                    sts = r
                else:
                    sts = self.destroy_rec(sts, self.rec_of(f.t), path + (f,), fr, fl)
        return sts

    # ---------------- statements ---------------------------------
    def stmt(self, s, sts, fr):
        fl = Flows()
        if s is None or not sts:
            fl.add("n", sts)
            return fl
        k = s.k
        if k == "block":
            return self.block(s.c or [], sts, fr)
        if k == "decl":
            fl.add("n", self.decl(s, sts, fr, fl))
            return fl
        if k == "if":
            locs = []
            if s.i is not None:
                r = self.stmt(s.i, sts, fr)
                sts = r.pop("n", set())
                fl.merge(r)
                locs += self.declared(s.i)
            if s.cv is not None:
                sts = self.decl(s.cv, sts, fr, fl)
                locs += self.declared(s.cv)
            t, f = self.cond(s.c, sts, fr, fl)
            out = Flows()
            out.merge(self.stmt(s.a, t, fr))
            out.merge(self.stmt(s.b, f, fr) if s.b is not None else Flows(n=f))
            out = self.unwind(out, locs, fr)
            fl.merge(out)
            return fl
        if k in ("while", "for", "do", "rfor"):
            return self.loop(s, sts, fr)
        if k == "switch":
            return self.switch(s, sts, fr)
        if k in ("case", "default"):
            return self.stmt(s.s if s.s is not None else s.b, sts, fr)
        if k == "label":
            return self.stmt(s.s, sts, fr)
        if k == "break":
            fl.add("break", sts)
            return fl
        if k == "continue":
            fl.add("continue", sts)
            return fl
        if k == "ret":
            if s.e is not None and fr.retsplit is not None and (fr.fn.rt or "") == "bool":
                t, f = self.cond(s.e, sts, fr, fl)
                fl.add("retT", t)
                fl.add("retF", f)
                return fl
            mode = "r"
            rt = fr.fn.rt or ""
            if rt.endswith("&"):
                mode = None if not rt.startswith("const ") else None
            sts = self.ev(s.e, sts, fr, fl, mode)
            sts = self.emit(sts, Ev("return", fr, s, path=self.lval(s.e, fr) if s.e is not None else None))
            fl.add("ret", sts)
            return fl
        if k == "try":
            return self.trystmt(s, sts, fr)
        if k in ("null",):
            fl.add("n", sts)
            return fl
        if k == "goto":
            raise Broken("goto in %s" % fr.chain())
        fl.add("n", self.fullexpr(s, sts, fr, fl))
        return fl

    def fullexpr(self, e, sts, fr, fl):
        sts = self.ev(e, sts, fr, fl)
        return self.emit(sts, Ev("endexpr", fr, e))

    def declared(self, s):
        return [v["d"] for v in (s.v or ()) if v.get("d") is not None] if s.k == "decl" else []

    def decl(self, s, sts, fr, fl):
        for v in s.v or ():
            d = v["d"]
            i = v.get("i")
            if d is None:
                continue
            t = d.t or ""
            if d.staticlocal:
                if i is not None and i.k != "ctor":
                    sts = self.ev(i, sts, fr, fl)
                continue
            fr.env.pop(id(d), None)
            if t.endswith("&"):
                sts = self.ev(i, sts, fr, fl, None)
                p = self.lval(i, fr)
                fr.env[id(d)] = ("addr", p if p is not None else (("local", d, fr.key),))
                continue
            path = (("local", d, fr.key),)
            if t.rstrip().endswith("*") or t.rstrip().endswith("*const"):
                sts = self.ev(i, sts, fr, fl)
                pv = self.val(i, fr) if i is not None else None
                if pv is None and i is not None:
                    lp = self.lval(i, fr)
                    pv = ("addr", lp + ("*",)) if lp is not None else None
                if pv is not None:
                    fr.env[id(d)] = pv
                continue
            if i is not None and i.k == "ctor":
                sts = self.ctor(i, sts, fr, fl, this=("addr", path))
            elif i is not None and t == "bool" and self.unwrap(i).k in ("bin", "un", "call", "mem", "ref"):
                T, F = self.cond(i, sts, fr, fl)
                key = ("t", path)
                sts = {(ps, self.addfact(f, key, True, (path,))) for ps, f in T} | {(ps, self.addfact(f, key, False, (path,))) for ps, f in F}
            elif i is not None:
                sts = self.ev(i, sts, fr, fl)
                if self.iter_like(t):
                    lp = self.lval(i, fr)
                    if lp is not None:
                        fr.env[id(d)] = lp
            sts = self.emit(sts, Ev("declared", fr, s, path=path, extra=d))
        return sts

    @staticmethod
    def iter_like(t):
        return "iterator" in t

    def unwind(self, flows, locs, fr):
        """run destructors of locals `locs` (in reverse) on every flow"""
        need = [d for d in locs if d is not None and self.nontrivial(d)]
        if not need:
            return flows
        out = Flows()
        for k, sts in flows.items():
            for d in reversed(need):
                sts = self.destroy(sts, d, (("local", d, fr.key),), fr, out)
            out.add(k, sts)
        return out

    def nontrivial(self, d):
        t = (d.t or "")
        if t.endswith("&") or t.endswith("*") or d.staticlocal:
            return False
        if is_guard_type(t) or self.c.wants_dtor(d):
            return True
        rec = self.rec_of(t)
        return rec is not None and not rec.trivdtor

    def block(self, stmts, sts, fr):
        fl = Flows()
        if not stmts:
            fl.add("n", sts)
            return fl
        # declarations get their own nested scope so that earlier exits do not destroy later locals
        s = stmts[0]
        r = self.stmt(s, sts, fr)
        n = r.pop("n", set())
        if s.k == "decl":
            locs = self.declared(s)
            fl.merge(r)  # throw out of the initialiser
            rest = self.block(stmts[1:], n, fr)
            rest = self.unwind(rest, locs, fr)
            fl.merge(rest)
            return fl
        fl.merge(r)
        i = 1
        while i < len(stmts) and stmts[i].k != "decl":
            r = self.stmt(stmts[i], n, fr)
            n = r.pop("n", set())
            fl.merge(r)
            i += 1
        if i < len(stmts):
            fl.merge(self.block(stmts[i:], n, fr))
        else:
            fl.add("n", n)
        return fl

    def loop(self, s, sts, fr):
        fl = Flows()
        locs = []
        k = s.k
        if k == "for" and s.i is not None:
            r = self.stmt(s.i, sts, fr)
            sts = r.pop("n", set())
            fl.merge(r)
            locs = self.declared(s.i) if s.i.k == "decl" else []
        if k == "rfor":
            sts = self.ev(s.r, sts, fr, fl, "r")
            rp = self.lval(s.r, fr)
            d = s.d
            if d is not None and rp is not None and (d.t or "").endswith("&"):
                fr.env[id(d)] = ("addr", rp + ("[]",))
        out = Flows()
        seen = set()
        work = set(sts)
        exits = set()
        rounds = 0
        first = True
        while work - seen:
            rounds += 1
            if rounds > 200:
                raise Broken("no fixpoint in %s" % fr.chain())
            cur = work - seen
            seen |= cur
            if k == "do":
                r = self.stmt(s.b, cur, fr)
                nb = r.pop("n", set()) | r.pop("continue", set())
                exits |= r.pop("break", set())
                out.merge(r)
                t, f = self.cond(s.c, nb, fr, out)
                exits |= f
                work = t
                continue
            if k == "rfor":
                t, f = set(cur), set(cur)
            elif s.c is None:
                t, f = set(cur), set()
            else:
                if s.cv is not None:
                    cur = self.decl(s.cv, cur, fr, out)
                t, f = self.cond(s.c, cur, fr, out)
            exits |= f
            r = self.stmt(s.b, t, fr)
            nb = r.pop("n", set()) | r.pop("continue", set())
            exits |= r.pop("break", set())
            out.merge(r)
            if k == "for" and s.n is not None:
                nb = self.ev(s.n, nb, fr, out)
            if k == "rfor" and s.d is not None:
                nb = self.invalidate(nb, (("local", s.d, fr.key),))
            work = nb
        out.add("n", exits)
        out = self.unwind(out, locs, fr)
        fl.merge(out)
        return fl

    def switch(self, s, sts, fr):
        fl = Flows()
        sts = self.ev(s.c, sts, fr, fl)
        # every case label may be entered from the head
        body = s.b.c if s.b is not None and s.b.k == "block" else [s.b]
        n = set()
        hasdef = False
        out = Flows()

        def labels(x):
            nonlocal hasdef
            inner = x
            lab = False
            while inner is not None and inner.k in ("case", "default"):
                lab = True
                if inner.k == "default":
                    hasdef = True
                inner = inner.s if inner.s is not None else inner.b
            return lab, inner
        cur = set()
        for st in body:
            lab, inner = labels(st)
            if lab:
                cur = cur | sts
            r = self.stmt(inner, cur, fr) if inner is not None else Flows(n=cur)
            cur = r.pop("n", set())
            out.merge(r)
        out.add("break", cur)
        if not hasdef and not s.allenum:
            out.add("break", sts)
        b = out.pop("break", set())
        out.add("n", b)
        fl.merge(out)
        return fl

    def trystmt(self, s, sts, fr):
        fl = Flows()
        r = self.stmt(s.b, sts, fr)
        thr = r.pop("throw", set())
        fl.merge(r)
        if thr:
            caught_all = False
            for h in s.h or ():
                t = h.get("ct") or h.get("ty") or ""
                d = h.get("d")
                b = h.get("b") if h.get("b") is not None else h
                allh = d is None and not h.get("typed")
                hs = self.emit(thr, Ev("catch", fr, h, extra=allh))
                r = self.stmt(b, hs, fr)
                # rethrow is modelled as throw
                fl.merge(r)
                if allh:
                    caught_all = True
            if not caught_all:
                fl.add("throw", thr)
        return fl

    # ---------------- roots --------------------------------------
    def root(self, fn, ps0, this=None, fr=None):
        fr = fr or Frame(fn, None, None)
        fr.this = this if this is not None else ("addr", (("this",),))
        fr.retsplit = None
        fl = Flows()
        sts = {(ps0, frozenset())}
        sts = self.emit(sts, Ev("enter", fr, None, fn=fn))
        if fn.inits:
            sts = self.ctor_inits(fn, sts, fr, fl)
        r = self.stmt(fn.body, sts, fr)
        fl.merge(r)
        n = fl.get("n", set()) | fl.get("ret", set())
        n = self.emit(n, Ev("exit", fr, None, fn=fn, mode="normal"))
        t = self.emit(fl.get("throw", set()), Ev("exit", fr, None, fn=fn, mode="throw"))
        return n, t


class Client:
    """defaults for property automata"""

    def event(self, eng, ev, ps, facts):
        return None

    def learn(self, eng, ps, facts, key, val, fr, node):
        return None

    def special(self, eng, e, sts, fr, fl):
        return None

    def construct(self, eng, e, sts, fr, fl, this):
        return None

    def destroy(self, eng, d, path, sts, fr, fl):
        return None

    def wants_dtor(self, d):
        return False

    def ctor_nothrow(self, fn):
        return False

    def defer_lambda(self, lam, call):
        return False
