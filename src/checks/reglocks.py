"""L01, L02, L05 (logging) and T02 (timing registry): lock order, guarded tables, print guard."""
from ..sa.facts import Program, Broken, walk
from ..sa.flow import Engine, is_mutex_type, is_cv_type
from ..sa.locks import LockClient, show


def decl_of(path):
    """the declaration that names the last component of a path"""
    x = path[-1] if path else None
    if isinstance(x, tuple):
        return x[1] if len(x) > 1 and hasattr(x[1], "a") else None
    return x if not isinstance(x, str) else None


def fields_in(path):
    return [x for x in path if not isinstance(x, (str, tuple))]


def run_all(P, client, roots, x0=None):
    eng = Engine(P, client)
    for m in roots:
        client.root = m
        eng.root(m, LockClient.start(x0(m) if callable(x0) else x0))
    return eng


def takes_lock(fn):
    from ..sa.flow import is_guard_type
    for n in walk(fn.body):
        if n.k == "ctor" and n.f is not None and n.f.cls is not None and is_guard_type(n.f.cls.q):
            return True
        if n.k == "call" and n.f is not None and n.f.name in ("lock", "try_lock") and n.o is not None:
            return True
    return False


def callers_of(P, fns):
    ids = {id(f) for f in fns}
    called = set()
    for d in P.functions():
        for n in walk(d.body):
            if n.k in ("call", "ctor") and n.f is not None and id(n.f) in ids and n.f is not d:
                called.add(id(n.f))
    return called


class Order(LockClient):
    def __init__(self):
        super().__init__()
        self.edges = {}
        self.ids = set()

    @staticmethod
    def mt(d):
        return (d.t or "") if d is not None else ""

    def on_acquire(self, eng, fr, node, ps, mutex):
        self.bump("acquisitions")
        m = decl_of(mutex)
        self.ids.add(m)
        for h in self.held(ps):
            d = decl_of(h)
            if d is m:
                if "recursive" not in self.mt(m):
                    self.report("lock.twice", "%s is requested by a thread that already holds it" % (m.q if m is not None else show(mutex)), fr, node)
            else:
                self.edges.setdefault((d, m), (fr.chain(), "%s:%s" % (fr.fn.rel, node.l if node is not None else "?"), fr.fn.q))


def cycles(edges):
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    res = []

    def dfs(start, v, path):
        for w in succ.get(v, ()):
            if w is start:
                res.append(path + [w])
            elif w not in path and len(path) < 8:
                dfs(start, w, path + [w])
    order = sorted(succ, key=lambda d: (d.q if d is not None else "") or "")
    seen = set()
    for s in order:
        dfs(s, s, [s])
    out = []
    for c in res:
        k = frozenset(id(x) for x in c)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def l01(out):
    P = Program([r"^sm_logging/", r"^witness/logging"])
    roots = [d for d in P.functions() if d.mine and "/sm_logging/" in d.file]
    c = Order()
    c.report_all = True
    eng = run_all(P, c, roots)
    if not c.ids:
        raise Broken("anchor vanished: the logging system acquires no lock")
    out.analysed(functions=len(roots), locks=sorted((d.q or d.name) for d in c.ids if d is not None), acquisitions=c.stats.get("acquisitions", 0),
                 order=["%s -> %s at %s" % (a.q if a is not None else None, b.q if b is not None else None, w[1]) for (a, b), w in c.edges.items()])
    out.rule("Lock-order graph over every function of the logging package as entry point, callees and virtual overriders analysed in the lockset of their "
             "caller: the graph has no cycle, and no held non-recursive lock is requested again.")
    vs = [v for v in c.violations.values() if v["key"] == "lock.twice"]
    for cyc in cycles(c.edges):
        a, b = cyc[0], cyc[1]
        chain, where, fq = c.edges[(a, b)]
        names = [d.name if d is not None else "?" for d in cyc]
        legs = "; ".join("%s -> %s at %s (%s)" % (x.name, y.name, c.edges[(x, y)][1], c.edges[(x, y)][0]) for x, y in zip(cyc, cyc[1:]))
        vs.append({"key": "lock.cycle", "function": fq, "where": where, "message": "locks are taken in a cycle: %s" % " -> ".join(names), "path": legs})
    out.violations(vs)


class Guarded(LockClient):
    """Eraser-style: the locks held over all accesses of each table have a common member"""

    def __init__(self, tables, mutexes, exempt):
        super().__init__()
        self.tables = tables
        self.mutexes = mutexes
        self.sites = {}
        self.exempt = exempt
        self.iters = {}

    def iterators(self, fns):
        """locals that walk a table: dereferencing or advancing one touches the table"""
        work = True
        while work:
            work = False
            for d in fns:
                for n in walk(d.body):
                    if n.k == "asg" and n.x.k == "ref" and n.op == "=":
                        v, e = n.x.d, n.y
                    elif n.k == "call" and n.op == "=" and n.o is not None and n.o.k == "ref":
                        v, e = n.o.d, n.a[0]
                    elif n.k is None and n.d is not None and n.d.k == "Var" and n.i is not None:
                        v, e = n.d, n.i
                    else:
                        continue
                    if v is None or v in self.iters or "iterator" not in (v.t or ""):
                        continue
                    for m in walk(e):
                        if m.d is not None and (m.k == "mem" and m.d in self.tables or m.k == "ref" and m.d in self.iters):
                            self.iters[v] = m.d if m.k == "mem" else self.iters[m.d]
                            work = True
                            break

    def on_access(self, eng, ev, ps, facts):
        if self.root in self.exempt or ev.path is None:
            return None
        fs = [f for f in fields_in(ev.path) if f in self.tables]
        n = ev.node
        if n.k == "call" and n.f is not None and n.f.name in ("operator*", "operator->", "operator++", "operator--"):
            v = decl_of(ev.path)
            if v in self.iters:
                fs.append(self.iters[v])
        for f in fs:
            self.bump("accesses")
            locks = frozenset(decl_of(h) for h in self.held(ps))
            self.sites.setdefault(self.tables[f], {}).setdefault((locks, ev.mode, ev.frame.fn.q, ev.node.l), (ev.frame, ev.node, f))

    def on_exit(self, eng, ev, ps, facts):
        for g in ps[0]:
            if g[2]:
                self.report("lock.leak", "%s is still held when %s ends (%s)" % (show(g[1]), ev.fn.q, ev.mode), ev.frame, None)

    def finish(self):
        res = {}
        for grp, ss in self.sites.items():
            common = None
            cnt = {}
            for (locks, mode, _, _) in ss:
                common = locks if common is None else common & locks
                for h in locks:
                    cnt[h] = cnt.get(h, 0) + 1
            best = max(cnt, key=lambda h: (cnt[h], h.q)) if cnt else None
            if common:
                best = sorted(common, key=lambda h: -cnt[h])[0]
            res[grp] = best
            for (locks, mode, _, _), (fr, node, f) in ss.items():
                if best is None or best not in locks:
                    self.report("unlocked", "%s is %s without holding %s" % (f.name, "written" if "w" in mode else "read", best.name if best is not None else "a lock"), fr, node)
        return res


def l02(out):
    P = Program([r"^sm_logging/", r"^witness/logging"])
    rec = P.record(r"sm::logging::LoggingGlobals")[0]
    tables = {}
    for f in rec.fields:
        t = f.t or ""
        if "LogLocation *" in t and t.startswith("std::"):
            tables[f] = "registry"
        elif t.startswith(("std::set<", "std::unordered_set<", "std::map<", "std::unordered_map<", "std::vector<std::")) and "basic_string" in t:
            tables[f] = "streams"
    if set(tables.values()) != {"registry", "streams"}:
        raise Broken("anchor vanished: the table of log sites or of enabled streams")
    loc = P.record(r"sm::logging::LogLocation")[0]
    fns = [d for d in P.functions() if d.mine and "/sm_logging/" in d.file]
    called = callers_of(P, fns)
    roots = [d for d in fns if takes_lock(d) or id(d) not in called or (not d.cls or d.cls is not rec)]
    exempt = [m for m in P.methods(rec) if m.ctor or m.dtor]
    c = Guarded(tables, None, exempt)
    c.iterators(fns)
    eng = run_all(P, c, roots)
    locks = c.finish()
    if not c.sites.get("registry") or not c.sites.get("streams"):
        raise Broken("anchor vanished: no access to the guarded tables")
    # the level and the enabled mark of a registered site
    out.analysed(functions=len(roots), tables={f.name: g for f, g in tables.items()}, locks={g: (l.q if l is not None else None) for g, l in locks.items()},
                 accesses=c.stats.get("accesses", 0), inlined=sorted(x for x in eng.inlined if x and x.startswith("sm::logging")))
    out.rule("Lockset analysis: over every access to the registry of log sites (the stream set), from every function of the logging package that takes a lock "
             "or is not called by another one, the intersection of held locks is non-empty; no lock is still held at any normal or exceptional exit.")
    out.violations(c.violations.values())


class Print(LockClient):
    """x = (marked, checked)"""
    want_throw_events = False

    def __init__(self, marker):
        super().__init__()
        self.marker = marker
        self.logs = 0

    def is_marker(self, path):
        return path is not None and decl_of(path) is self.marker

    def learn(self, eng, ps, facts, key, val, fr, node):
        if key[0] == "expr" and isinstance(key[1], tuple):
            flat = repr(key[1])
            deps = [f for f in self.deps_of(key[1])]
            if any(self.is_marker(d) for d in deps) and "get_id" in flat:
                op = "==" if "operator==" in flat else ("!=" if "operator!=" in flat else None)
                if op == "==" or op == "!=":
                    free = (val is False) if op == "==" else (val is True)
                    return [(ps[0], (ps[1][0], "free" if free else "busy"))]
        return None

    @staticmethod
    def deps_of(t):
        out = []
        for x in t:
            if isinstance(x, tuple):
                if x and isinstance(x[0], tuple) and x[0] and x[0][0] in ("this", "glob", "local"):
                    out.append(x)
                else:
                    out += Print.deps_of(x)
        return out

    def on_access(self, eng, ev, ps, facts):
        if self.is_marker(ev.path) and "w" in ev.mode:
            marked, checked = ps[1]
            src = None
            x = ev.extra
            if isinstance(x, tuple) and x and x[0] == "=":
                src = x[1]
            elif ev.node.k == "call" and ev.node.a:
                src = ev.node.a[0]
            isid = src is not None and any(n.k == "call" and n.f is not None and n.f.name == "get_id" for n in walk(src))
            return [(isid, checked)]

    def on_call(self, eng, ev, ps, facts):
        pass

    def on_other(self, eng, ev, ps, facts):
        if ev.kind == "enter" and ev.fn is not None and ev.fn.cls is not None and ev.fn.name in ("log", "logImplementation") and ev.fn.virtual:
            self.logs += 1
            if not ps[1][0]:
                self.report("print.unmarked", "the logger is called while the thread is not marked as printing", ev.frame.parent or ev.frame, ev.node)
            if ps[1][1] != "free":
                self.report("print.unchecked", "the logger is called without having tested that this thread is not already printing", ev.frame.parent or ev.frame, ev.node)
        return None

    def on_exit(self, eng, ev, ps, facts):
        if ps[1][0]:
            self.report("print.stuck", "the thread is still marked as printing when the call ends %s" % ("by an exception" if ev.mode == "throw" else "normally"), ev.frame, None)


def l05(out):
    P = Program([r"^sm_logging/", r"^witness/logging"])
    rec = P.record(r"sm::logging::LoggingGlobals")[0]
    mk = [f for f in rec.fields if (f.t or "") in ("boost::thread::id", "std::thread::id")]
    if len(mk) != 1:
        raise Broken("anchor vanished: the mark of the printing thread")
    roots = [m for m in P.methods(rec) if m.name == "print" and m.body is not None]
    if len(roots) < 2:
        raise Broken("anchor vanished: LoggingGlobals::print")
    # every other function that sets the mark on its own
    c = Print(mk[0])
    eng = run_all(P, c, roots, (False, "?"))
    if not c.logs:
        raise Broken("anchor vanished: print never reaches a logger")
    out.analysed(functions=[r.q + r.t for r in roots], mark=mk[0].name, logger_calls=c.logs, inlined=sorted(x for x in eng.inlined if x and x.startswith("sm::logging"))[:60])
    out.rule("Typestate over all normal and exceptional paths of both print forms (destructors of local guards run on unwinding; every external call not known "
             "to be non-throwing may throw anything; a handler for one exception type does not stop the others): the mark is cleared at every exit, set at each call "
             "of the logger, and each call of the logger is dominated by the test that found the mark not to be this thread's.")
    out.violations(c.violations.values())


# ------------------------------------------------------------------ T02
class Timer(Guarded):
    """adds: x = frozenset of paths known to be below the table's size"""

    def __init__(self, *a):
        super().__init__(*a)
        self.uses = 0
        self.field_uses = {}
        self.ctor_exit = {}

    def learn(self, eng, ps, facts, key, val, fr, node):
        if key[0] != "expr":
            return None
        k = key[1]
        if isinstance(k, tuple) and len(k) == 3 and k[0] in ("<", ">=", ">", "<="):
            op, a, b = k
            if op in (">", "<="):
                a, b = b, a
                op = {">": "<", "<=": ">="}[op]
            good = (op == "<" and val) or (op == ">=" and not val)
            if good and isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], str) and b[0].endswith("::size") and any(f in self.tables for f in fields_in(b[1])):
                if isinstance(a, tuple):
                    return [(ps[0], ps[1] | {Engine.canon(a, fr)})]
        return None

    def on_access(self, eng, ev, ps, facts):
        super().on_access(eng, ev, ps, facts)
        if ev.path is not None and ev.mode and "w" in ev.mode and len(ev.path) == 1 and isinstance(ev.path[0], tuple) and ev.path[0][0] == "local":
            p = Engine.canon(ev.path, ev.frame)
            if p in ps[1]:
                return [ps[1] - {p}]
        n = ev.node
        if n.k == "call" and n.f is not None and n.f.name == "operator[]" and n.o is not None and ev.extra and ev.extra[0] == "m":
            f = fields_in(ev.path)
            if f and f[-1] in self.vec:
                self.uses += 1
                idx = Engine.unwrap(n.a[0])
                ip = eng.lval(idx, ev.frame) if idx.k in ("ref", "mem") else None
                ip = Engine.canon(ip, ev.frame) if ip else None
                if ip is not None and ip in ps[1]:
                    return None
                last = decl_of(ip) if ip else None
                if last is not None and last.k == "Field":
                    self.field_uses.setdefault(last, (ev.frame, ev.node))
                    return None
                if idx.k == "call" and idx.f is not None and idx.f.mine:
                    return None
                self.report("handle.unchecked", "%s is indexed with a handle that was not compared with its size" % f[-1].name, ev.frame, ev.node)
        return None

    def on_exit(self, eng, ev, ps, facts):
        super().on_exit(eng, ev, ps, facts)
        if ev.mode == "normal" and ev.fn.ctor:
            self.ctor_exit.setdefault(ev.fn, []).append(ps[1])


def t02(out):
    P = Program([r"^sm_timing/src/Timer", r"^witness/timing"])
    rec = P.record(r"sm::timing::Timing")[0]
    tables = {f: "registry" for f in rec.fields if f is not None and not is_mutex_type(f.t) and not f.constq}
    if not any((f.t or "").startswith("std::vector<") for f in tables):
        raise Broken("anchor vanished: the table of timers")
    fns = [d for d in P.functions() if d.mine and d.q.startswith("sm::timing::") and "/sm_timing/" in d.file]
    called = callers_of(P, fns)
    exempt = [m for m in P.methods(rec) if m.ctor or m.dtor]
    roots = [d for d in fns if d not in exempt and (d.access in (None, 0) or id(d) not in called) and not (d.cls is rec and d.access not in (None, 0) and id(d) in called)]
    c = Timer(tables, None, exempt)
    c.vec = [f for f in tables if (f.t or "").startswith(("std::vector<", "std::deque<"))]
    c.iterators(fns)
    eng = run_all(P, c, roots, frozenset())
    locks = c.finish()
    order = [v for v in c.violations.values()]
    o = Order()
    run_all(P, o, roots)
    for f, (fr, node) in c.field_uses.items():
        cls = f.cls
        ctors = [m for m in P.methods(cls) if m.ctor and m.body is not None and not m.copyctor and not m.movector]
        if not ctors:
            c.report("handle.field", "%s is used as a handle but its class has no constructor that checks it" % f.q, fr, node)
        for m in ctors:
            ini = [i for i in m.inits or () if i.get("field") is f]
            good = False
            if ini and ini[0].get("e") is not None:
                e = Engine.unwrap(ini[0]["e"])
                if e.k == "call" and e.f is not None and e.f.cls is rec:
                    good = True
                elif e.k == "ref":
                    exits = c.ctor_exit.get(m, [])
                    good = bool(exits) and all(any(decl_of(p) is e.d or decl_of(p) is f for p in x) for x in exits)
            if not good:
                c.report("handle.field", "the constructor stores %s without having obtained it from the registry or compared it with the table's size" % f.name, type("F", (), {"fn": m, "chain": lambda s: m.q})(), m.body)
        for d in fns:
            for n in walk(d.body):
                if n.k == "asg" and n.x.k == "mem" and n.x.d is f:
                    c.report("handle.field", "%s is changed after construction" % f.name, type("F", (), {"fn": d, "chain": lambda s: d.q})(), n)
    if not c.uses:
        raise Broken("anchor vanished: no access to a timer record")
    out.analysed(functions=[r.q for r in roots], tables=[f.name for f in tables], lock={g: (l.q if l is not None else None) for g, l in locks.items()},
                 accesses=c.stats.get("accesses", 0), indexed_accesses=c.uses, handle_fields=[f.q for f in c.field_uses])
    out.rule("Lockset analysis of every public timing operation (helpers in the caller's context): each access to a data member of the registry holds the lock common to "
             "all of them, which is never requested while held. Each indexing of the timer table uses a handle compared with the table's size on the path, or a member that "
             "every constructor obtained that way or from the registry and nothing changes later.")
    out.violations(list(c.violations.values()) + [v for v in o.violations.values() if v["key"] == "lock.twice"])


CHECKS = {"L01": l01, "L02": l02, "L05": l05, "T02": t02}
