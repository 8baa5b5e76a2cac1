"""Lock-state automaton on top of flow.py: guards, mutexes, condition variables."""
from .flow import Client, Engine, Ev, Frame, Flows, is_guard_type, is_mutex_type, is_cv_type
from .facts import walk, strip

WAITS = ("wait", "timed_wait", "wait_for", "wait_until", "do_wait_until")
SPAWN = ("create_thread", "async", "emplace_back", "push_back", "add_thread")


def show(p):
    if p is None:
        return "?"
    out = []
    for x in p:
        if isinstance(x, tuple):
            if x[0] == "this":
                out.append("this")
            elif x[0] in ("glob", "local"):
                out.append(x[1].q or x[1].name)
            else:
                out.append(x[0])
        elif isinstance(x, str):
            out.append(x)
        else:
            out.append(x.name or "?")
    return ".".join(out)


class LockClient(Client):
    def __init__(self):
        self.violations = {}
        self.stats = {}

    # ps = (guards, x);  guards: frozenset of (guardpath, mutexpath, owned)
    @staticmethod
    def start(x=None):
        return (frozenset(), x)

    @staticmethod
    def held(ps):
        return [g[1] for g in ps[0] if g[2]]

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def report(self, key, msg, fr, node):
        f = fr.fn
        where = "%s:%s" % (f.rel, (node.l if node is not None and node.l else f.l))
        k = (key, f.q, msg)
        if k not in self.violations:
            self.violations[k] = {"key": key, "function": f.q, "where": where, "message": msg, "path": fr.chain()}

    # hooks for subclasses: return list of x (or None = unchanged)
    def on_access(self, eng, ev, ps, facts):
        return None

    def on_acquire(self, eng, fr, node, ps, mutex):
        return None

    def on_release(self, eng, fr, node, ps, mutex, facts):
        return None

    def on_wait(self, eng, fr, node, ps, cv, mutex, facts):
        return None

    def wait_throws(self, x):
        return x

    def on_notify(self, eng, fr, node, ps, cv, all):
        return None

    def on_call(self, eng, ev, ps, facts):
        return None

    def on_exit(self, eng, ev, ps, facts):
        return None

    def on_other(self, eng, ev, ps, facts):
        return None

    def on_spawn(self, eng, fr, node, ps, entries):
        return None

    # plumbing -----------------------------------------------------
    @staticmethod
    def xs(ps, r):
        return [ps] if r is None else [(ps[0], x) for x in r]

    def event(self, eng, ev, ps, facts):
        k = ev.kind
        if k == "access":
            return self.xs(ps, self.on_access(eng, ev, ps, facts))
        if k == "call":
            if ev.fn is not None and self.is_spawn(ev.node):
                r = self.xs(ps, self.on_spawn(eng, ev.frame, ev.node, ps, self.entries(ev.node)))
                out = []
                for q in r:
                    out += self.xs(q, self.on_call(eng, ev, q, facts))
                return out
            return self.xs(ps, self.on_call(eng, ev, ps, facts))
        if k == "ctor" and ev.fn is not None and self.is_spawn(ev.node):
            return self.xs(ps, self.on_spawn(eng, ev.frame, ev.node, ps, self.entries(ev.node)))
        if k == "exit":
            return self.xs(ps, self.on_exit(eng, ev, ps, facts))
        if k == "endexpr":
            return self.drop_temps(eng, ev, ps, facts)
        if k == "declared":
            return self.xs(ps, self.on_other(eng, ev, ps, facts))
        return self.xs(ps, self.on_other(eng, ev, ps, facts))

    def drop_temps(self, eng, ev, ps, facts):
        ts = [g for g in ps[0] if isinstance(g[0], tuple) and g[0] and isinstance(g[0][0], tuple) and g[0][0][0] in ("temp", "ret")]
        if not ts:
            return None
        res = [ps]
        for g in ts:
            res = [q for p in res for q in self.release_guard(eng, ev.frame, ev.node, p, g, facts, drop=True)]
        return res

    # spawn ----------------------------------------------------------
    @staticmethod
    def is_spawn(node):
        fn = node.f
        if fn is None:
            return False
        q = fn.q or ""
        if fn.ctor:
            c = fn.cls.q if fn.cls is not None else ""
            return c in ("boost::thread", "std::thread", "std::jthread") and bool(node.a) and not (fn.copyctor or fn.movector)
        if fn.name in ("create_thread", "async"):
            return True
        if fn.name in ("emplace_back", "push_back", "emplace"):
            return "thread" in (node.o.t if node.o is not None and node.o.t else "")
        return False

    @staticmethod
    def entries(node):
        out = []
        for a in node.a or ():
            for n in walk(a):
                if n.k == "ref" and n.d is not None and n.d.isfunc:
                    out.append(n.d)
                elif n.k == "lam" and n.d is not None:
                    out.append(n.d)
        return out

    def defer_lambda(self, lam, call):
        return self.is_spawn(call) or (call.f is not None and (call.f.name or "").startswith("schedule"))

    # guards ---------------------------------------------------------
    def acquire(self, eng, fr, node, sts, mutex):
        out = set()
        for ps, facts in sts:
            r = self.on_acquire(eng, fr, node, ps, mutex)
            for q in self.xs(ps, r):
                out.add((q, facts))
        return eng.drop_nonlocal_facts(out)

    def release_guard(self, eng, fr, node, ps, g, facts, drop):
        res = [ps]
        if g[2]:
            res = self.xs(ps, self.on_release(eng, fr, node, ps, g[1], facts))
        out = []
        for q in res:
            gs = q[0] - {g}
            if not drop:
                gs = gs | {(g[0], g[1], False)}
            out.append((gs, q[1]))
        return out

    def construct(self, eng, e, sts, fr, fl, this):
        fn = e.f
        cls = fn.cls.q if fn is not None and fn.cls is not None else ""
        if not is_guard_type(cls):
            return None
        path = this[1] if this else (("temp", e),)
        args = e.a or []
        if fn.copyctor or fn.movector or (args and is_guard_type((args[0].t or "").replace("const ", ""))) or (args and "rv<" in (args[0].t or "")):
            # guard moved: from an lvalue, or the value just returned by a callee
            src = eng.lval(args[0], fr) if args else None
            if this is None:
                path = (("ret",),)
            out = set()
            for ps, facts in sts:
                gs = set(ps[0])
                for g in list(gs):
                    if g[0] == src or (isinstance(g[0][0], tuple) and g[0][0][0] in ("ret", "temp")):
                        gs.discard(g)
                        gs.add((path, g[1], g[2]))
                out.add(((frozenset(gs), ps[1]), facts))
            return out
        if not args:
            return sts
        owned = True
        ms = []
        for a in args:
            t = a.t or ""
            if "defer_lock" in t:
                owned = False
            elif "adopt_lock" in t:
                owned = "adopt"
            elif "try_to_lock" in t or "duration" in t or "time" in t.lower() and not is_mutex_type(t):
                owned = "try"
            else:
                mp = eng.lval(a, fr)
                if mp is None:
                    v = eng.val(a, fr)
                    mp = v[1] if v else None
                if mp is not None:
                    ms.append(mp)
                elif is_mutex_type(t):
                    ms.append((("unknown", a),))
        out = set(sts)
        for m in ms:
            if owned is True:
                out = self.acquire(eng, fr, e, out, m)
                out = {((ps[0] | {(path, m, True)}, ps[1]), f) for ps, f in out}
            elif owned == "adopt":
                out = {((frozenset(g for g in ps[0] if not (g[0] is None and g[1] == m)) | {(path, m, True)}, ps[1]), f) for ps, f in out}
            elif owned == "try":
                got = self.acquire(eng, fr, e, out, m)
                out = {((ps[0] | {(path, m, True)}, ps[1]), f) for ps, f in got} | {((ps[0] | {(path, m, False)}, ps[1]), f) for ps, f in out}
            else:
                out = {((ps[0] | {(path, m, False)}, ps[1]), f) for ps, f in out}
        return out

    def destroy(self, eng, d, path, sts, fr, fl):
        if not is_guard_type(d.t):
            return None
        out = set()
        rel = False
        for ps, facts in sts:
            gs = [g for g in ps[0] if g[0] == path]
            res = [ps]
            for g in gs:
                rel = rel or g[2]
                res = [q for p in res for q in self.release_guard(eng, fr, None, p, g, facts, drop=True)]
            for q in res:
                out.add((q, facts if not any(g[2] for g in gs) else frozenset(f for f in facts if all(isinstance(x[0], tuple) and x[0][0] == "local" for x in f[2]))))
        return out

    def special(self, eng, e, sts, fr, fl):
        fn = e.f
        if fn is None or e.o is None:
            return None
        n = fn.name
        ot = (e.o.t or "").replace("const ", "").rstrip("* ")
        if is_guard_type(ot):
            p = eng.lval(e.o, fr)
            if n in ("lock", "try_lock"):
                out = set()
                for ps, facts in sts:
                    g = [x for x in ps[0] if x[0] == p]
                    if not g:
                        out.add((ps, facts))
                        continue
                    if g[0][2]:
                        self.report("lock.twice", "guard %s locks %s which it already holds" % (show(p), show(g[0][1])), fr, e)
                    for ps2, f2 in self.acquire(eng, fr, e, {(ps, facts)}, g[0][1]):
                        out.add(((ps2[0] - {g[0]} | {(p, g[0][1], True)}, ps2[1]), f2))
                    if n == "try_lock":
                        out.add((ps, facts))
                return out
            if n in ("unlock", "release"):
                out = set()
                for ps, facts in sts:
                    g = [x for x in ps[0] if x[0] == p]
                    if not g:
                        out.add((ps, facts))
                        continue
                    if not g[0][2]:
                        self.report("unlock.free", "guard %s releases %s which it does not hold" % (show(p), show(g[0][1])), fr, e)
                    for q in self.release_guard(eng, fr, e, ps, g[0], facts, drop=False):
                        out |= eng.drop_nonlocal_facts({(q, facts)})
                return out
            if n in ("owns_lock", "operator bool", "mutex"):
                return sts
            return None
        if is_mutex_type(ot):
            p = eng.lval(e.o, fr)
            if n in ("lock", "lock_shared"):
                out = self.acquire(eng, fr, e, sts, p)

                def own(gs):
                    for g in gs:
                        if g[0] is not None and g[1] == p and not g[2]:
                            return gs - {g} | {(g[0], p, True)}
                    return gs | {(None, p, True)}
                return {((own(ps[0]), ps[1]), f) for ps, f in out}
            if n == "try_lock":
                out = self.acquire(eng, fr, e, sts, p)
                return {((ps[0] | {(None, p, True)}, ps[1]), f) for ps, f in out} | sts
            if n in ("unlock", "unlock_shared"):
                out = set()
                for ps, facts in sts:
                    g = [x for x in ps[0] if x[1] == p and x[2]]
                    if not g:
                        self.report("unlock.free", "%s is released while it is not held" % show(p), fr, e)
                        out.add((ps, facts))
                        continue
                    for q in self.release_guard(eng, fr, e, ps, g[0], facts, drop=g[0][0] is None):
                        out |= eng.drop_nonlocal_facts({(q, facts)})
                return out
            return None
        if is_cv_type(ot):
            p = eng.lval(e.o, fr)
            if n in WAITS:
                lam = None
                for a in e.a or ():
                    u = strip(a)
                    if u is not None and u.k == "ctor" and len(u.a or ()) == 1:
                        u = strip(u.a[0])
                    if u is not None and u.k == "lam":
                        lam = u
                gp = eng.lval(e.a[0], fr) if e.a else None

                def dowait(ss):
                    out = set()
                    for ps, facts in ss:
                        m = None
                        for g in ps[0]:
                            if g[0] == gp and g[2] or g[0] is None and g[1] == gp:
                                m = g[1]
                        if m is None:
                            self.report("wait.unlocked", "waits on %s without holding the lock it passes" % show(p), fr, e)
                        for q in self.xs(ps, self.on_wait(eng, fr, e, ps, p, m, facts)):
                            out |= eng.drop_nonlocal_facts({(q, facts)})
                    fl.add("throw", eng.drop_nonlocal_facts({((ps[0], self.wait_throws(ps[1])), f) for ps, f in ss}))
                    return out
                if lam is None:
                    return dowait(sts)
                seen, work, done = set(), set(sts), set()
                while work - seen:
                    cur = work - seen
                    seen |= cur
                    T, F = eng.inline_lambda(lam, cur, fr, fl, cond=True)
                    done |= T
                    work = dowait(F)
                return done
            if n in ("notify_all", "notify_one"):
                out = set()
                for ps, facts in sts:
                    for q in self.xs(ps, self.on_notify(eng, fr, e, ps, p, n == "notify_all")):
                        out.add((q, facts))
                return out
        return None

    def wants_dtor(self, d):
        return is_guard_type(d.t)

    def ctor_nothrow(self, fn):
        return fn.cls is not None and is_guard_type(fn.cls.q)
