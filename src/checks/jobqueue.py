"""J01-J03: the job queue."""
from ..sa.facts import Program, Broken, walk
from ..sa.flow import Engine, Frame, is_mutex_type, is_cv_type
from ..sa.locks import LockClient, show
from ..sa import vg
from ..sa.terms import FALSE, ZERO, tobool, show as show_term

PATS = [r"^sm_boost/", r"^witness/jobqueue"]


class Ctx:
    def __init__(self):
        self.P = Program(PATS)
        self.rec = self.P.record(r"sm::JobQueue")[0]
        ms = [m for m in self.P.methods(self.rec) if m.body is not None and m.mine]
        if not ms:
            raise Broken("anchor vanished: JobQueue has no analysable methods")
        self.mutexes = [f for f in self.rec.fields if is_mutex_type(f.t)]
        self.entries = []
        for m in ms:
            for n in walk(m.body):
                if n.k in ("call", "ctor") and n.f is not None and LockClient.is_spawn(n):
                    for e in LockClient.entries(n):
                        if e.body is not None and e not in self.entries:
                            self.entries.append(e)
        if not self.entries:
            raise Broken("anchor vanished: no worker entry function in JobQueue")
        called = set()
        for m in ms:
            for n in walk(m.body):
                if n.k == "call" and n.f is not None:
                    called.add(id(n.f))
        self.roots = []
        for m in ms:
            if m in self.entries:
                continue
            if m.access == 0 or m.dtor or (m.access != 0 and id(m) not in called):
                self.roots.append(m)
        self.ctors = [m for m in self.roots if m.ctor]
        self.roots = [m for m in self.roots if not m.ctor]
        self.dtors = [m for m in self.roots if m.dtor]
        self.all = self.roots + self.entries

    def run(self, client, roots, x0):
        eng = Engine(self.P, client)
        for m in roots:
            client.root = m
            eng.root(m, LockClient.start(x0(m) if callable(x0) else x0))
        return eng

    def shared(self):
        c = Collect(self)
        self.run(c, self.entries, None)
        out = [f for f in self.rec.fields if f in c.fields and not is_mutex_type(f.t) and not is_cv_type(f.t)
               and not (f.t or "").startswith("const ") and "atomic<" not in (f.t or "")]
        if not out:
            raise Broken("anchor vanished: the worker touches no shared field")
        return out


def field_of(path):
    if path and path[0] == ("this",) and len(path) > 1 and not isinstance(path[1], (str, tuple)):
        return path[1]
    return None


class Collect(LockClient):
    def __init__(self, ctx):
        super().__init__()
        self.fields = set()

    def on_access(self, eng, ev, ps, facts):
        f = field_of(ev.path)
        if f is not None:
            self.fields.add(f)


JOB = ("boost::function<", "boost::function0<", "boost::function_n<", "std::function<", "boost::packaged_task<", "std::packaged_task<")


def is_job_call(ev):
    fn = ev.fn
    if fn is None:
        return ev.node.fe is not None
    if fn.name != "operator()":
        return False
    q = (fn.cls.q if fn.cls is not None else "") or ""
    return q.startswith(JOB)


class J01(LockClient):
    def __init__(self, ctx, shared):
        super().__init__()
        self.ctx = ctx
        self.sh = set(shared)
        self.sites = {}
        self.jobs = 0

    def on_access(self, eng, ev, ps, facts):
        f = field_of(ev.path)
        if f in self.sh:
            self.bump("accesses")
            locks = frozenset(h for h in self.held(ps) if field_of(h) is not None)
            self.sites.setdefault(f, []).append((locks, ev.mode, ev.frame, ev.node))

    def on_acquire(self, eng, fr, node, ps, mutex):
        self.bump("acquisitions")
        if mutex in self.held(ps) and "recursive" not in self.mtype(mutex):
            self.report("lock.twice", "%s is acquired while this thread already holds it" % show(mutex), fr, node)

    def on_wait(self, eng, fr, node, ps, cv, mutex, facts):
        hs = [h for h in self.held(ps) if h != mutex]
        if hs:
            self.report("wait.otherlock", "waits on %s while also holding %s" % (show(cv), show(hs[0])), fr, node)

    @staticmethod
    def mtype(m):
        x = m[-1]
        return (x.t if not isinstance(x, (str, tuple)) else (x[1].t if isinstance(x, tuple) and len(x) > 1 and hasattr(x[1], "t") else "")) or ""

    def on_call(self, eng, ev, ps, facts):
        if is_job_call(ev):
            self.jobs += 1
            for h in self.held(ps):
                if field_of(h) is not None:
                    self.report("job.locked", "a job is called while %s is held" % show(h), ev.frame, ev.node)

    def on_exit(self, eng, ev, ps, facts):
        for g in ps[0]:
            if g[2]:
                self.report("lock.leak", "%s is still held when %s ends (%s)" % (show(g[1]), ev.fn.q, ev.mode), ev.frame, None)

    def finish(self):
        for f, ss in self.sites.items():
            common = None
            for locks, mode, fr, node in ss:
                common = locks if common is None else common & locks
            if common:
                continue
            if not any("w" in m for _, m, _, _ in ss):
                continue
            cnt = {}
            for locks, _, _, _ in ss:
                for h in locks:
                    cnt[h] = cnt.get(h, 0) + 1
            best = max(cnt, key=lambda h: cnt[h]) if cnt else None
            for locks, mode, fr, node in ss:
                if best is None or best not in locks:
                    self.report("unlocked", "%s is %s without holding %s" % (f.name, "written" if "w" in mode else "read", show(best) if best else "any lock of the queue"), fr, node)


def j01(out):
    ctx = Ctx()
    sh = ctx.shared()
    c = J01(ctx, sh)
    eng = ctx.run(c, ctx.all, None)
    c.finish()
    if not c.jobs:
        raise Broken("anchor vanished: no job invocation found in the worker")
    out.analysed(functions=[m.q for m in ctx.all], fields=[f.name for f in sh], accesses=c.stats.get("accesses", 0),
                 acquisitions=c.stats.get("acquisitions", 0), job_calls=c.jobs, inlined=sorted(eng.inlined))
    out.rule("Lockset analysis: every field the worker function touches is shared; the intersection of the locks held over all accesses "
             "(outside constructors) must be non-empty; std/boost guard objects, their early release, waits and exceptional exits are tracked; "
             "calls of stored callables require an empty lockset; acquiring a held non-recursive lock and releasing a free one are errors.")
    out.violations(c.violations.values())


# ------------------------------------------------------------------ J02
def is_shared_fact(f):
    return all(d and d[0] == ("this",) for d in f[2])


class Waits(LockClient):
    """first pass: conditions under which each condition variable is slept on"""

    def __init__(self, ctx):
        super().__init__()
        self.B = {}       # cv -> set of frozenset((key,val))
        self.deps = {}    # key -> deps
        self.by_root = {}
        self.mutex = {}
        self.sites = 0
        self.unconditional = []

    def on_wait(self, eng, fr, node, ps, cv, mutex, facts):
        self.sites += 1
        b = frozenset((f[0], f[1]) for f in facts if is_shared_fact(f))
        for f in facts:
            if is_shared_fact(f):
                self.deps[f[0]] = f[2]
        self.mutex.setdefault(cv, set()).add(mutex)
        if not b:
            self.report("wait.unconditional", "sleeps on %s without having tested any condition since it took the lock" % show(cv), fr, node)
        else:
            self.B.setdefault(cv, set()).add(b)
            self.by_root.setdefault(self.root, {}).setdefault(cv, set()).add(b)


def effects(ev, deps):
    """facts an access may establish: list of (key, value)"""
    p = ev.path
    out = []
    x = ev.extra
    for key, ds in deps.items():
        if not any(Engine.related(d, p) for d in ds):
            continue
        vals = {True, False}
        if key == ("t", p):
            if x == "++":
                vals = {True}
            elif x == "--":
                vals = {False}
            elif isinstance(x, tuple) and x and x[0] == "=":
                u = Engine.unwrap(x[1])
                if u is not None and u.k in ("bool", "int"):
                    vals = {bool(u.v) if u.k == "bool" else u.v != "0"}
            elif isinstance(x, tuple) and x and x[0] == "+=":
                vals = {True}
            elif isinstance(x, tuple) and x and x[0] == "-=":
                vals = {False}
        elif key == ("empty", p) and isinstance(x, tuple) and x and x[0] == "m":
            n = x[1]
            if n.startswith(("push", "emplace", "insert")):
                vals = {False}
            elif n.startswith(("pop", "erase", "clear")):
                vals = {True}
        for v in vals:
            out.append((key, v))
    return out


def can_unblock(Bs, key, val):
    """may making `key` equal `val` turn the sleeping condition (disjunction of Bs) false?"""
    keys = sorted({k for b in Bs for k, _ in b}, key=repr)
    if key not in keys or len(keys) > 12:
        return key in keys
    import itertools
    for bits in itertools.product((False, True), repeat=len(keys)):
        a = dict(zip(keys, bits))
        if a[key] == val:
            continue
        before = any(all(a[k] == v for k, v in b) for b in Bs)
        if not before:
            continue
        a[key] = val
        if not any(all(a[k] == v for k, v in b) for b in Bs):
            return True
    return False


class J02(LockClient):
    # x = (W, pend); W: None or frozenset of blocked facts; pend: frozenset of (cv, line, func)
    def __init__(self, ctx, waits):
        super().__init__()
        self.ctx = ctx
        self.w = waits

    def learn(self, eng, ps, facts, key, val, fr, node):
        W, pend = ps[1]
        if W is not None and (key, not val) in W[1]:
            return [(ps[0], (None, pend))]
        return None

    def stale(self, ps, fr, node, what):
        W = ps[1][0]
        if W is not None:
            self.report("wake.untested", "after sleeping on %s goes on to %s without testing the condition it slept on again" % (W[0], what), fr, node)

    def on_wait(self, eng, fr, node, ps, cv, mutex, facts):
        W, pend = ps[1]
        self.need(pend, fr, node, "sleeps on %s" % show(cv))
        b = frozenset((f[0], f[1]) for f in facts if is_shared_fact(f))
        self.bump("waits")
        return [((show(cv), b) if b else None, frozenset())]

    def wait_throws(self, x):
        return (None, x[1])

    def need(self, pend, fr, node, what):
        for cv, site in pend:
            self.report("notify.missing", "%s without having woken the threads sleeping on %s after the change at %s" % (what, show(cv), site), fr, node)

    def on_access(self, eng, ev, ps, facts):
        W, pend = ps[1]
        f = field_of(ev.path)
        if f is None or "w" not in ev.mode or is_mutex_type(f.t) or is_cv_type(f.t):
            return None
        for cv, Bs in self.w.B.items():
            if any(can_unblock(Bs, k, v) for k, v in effects(ev, self.w.deps)):
                self.bump("enabling_writes")
                site = "%s:%s" % (ev.frame.fn.rel, ev.node.l)
                if not any(m in self.held(ps) for m in self.w.mutex.get(cv, ())):
                    self.report("write.unlocked", "changes %s, which threads sleeping on %s test, without the lock they test it under" % (f.name, show(cv)), ev.frame, ev.node)
                pend = pend | {(cv, site)}
        if pend != ps[1][1] or W is not None:
            if f is not None and W is not None:
                self.stale(ps, ev.frame, ev.node, "change %s" % f.name)
            return [(W, pend)]
        return None

    def on_notify(self, eng, fr, node, ps, cv, all):
        W, pend = ps[1]
        self.bump("notifications")
        if not all:
            if any(p[0] == cv for p in pend):
                self.report("notify.one", "wakes only one of the threads sleeping on %s" % show(cv), fr, node)
        return [(W, frozenset(p for p in pend if p[0] != cv))]

    def on_release(self, eng, fr, node, ps, mutex, facts):
        self.stale(ps, fr, node, "release %s" % show(mutex))
        return [(None, ps[1][1])]

    def on_call(self, eng, ev, ps, facts):
        n = ev.fn.name if ev.fn is not None else ""
        if n in ("join_all", "join", "timed_join", "try_join_for"):
            self.need(ps[1][1], ev.frame, ev.node, "waits for the workers (%s)" % n)
            return [(ps[1][0], frozenset())]
        if is_job_call(ev):
            self.stale(ps, ev.frame, ev.node, "call a job")

    def on_exit(self, eng, ev, ps, facts):
        if ev.mode == "normal":
            self.need(ps[1][1], ev.frame, None, "%s ends" % ev.fn.q)


def j02(out):
    ctx = Ctx()
    w = Waits(ctx)
    ctx.run(w, ctx.all, None)
    if not w.sites:
        raise Broken("anchor vanished: no condition-variable wait in JobQueue")
    c = J02(ctx, w)
    eng = ctx.run(c, ctx.all, (None, frozenset()))
    out.analysed(functions=[m.q for m in ctx.all], waits=w.sites,
                 conditions={show(cv): [sorted("%s=%s" % (key_text(k), v) for k, v in b) for b in bs] for cv, bs in w.B.items()},
                 enabling_writes=c.stats.get("enabling_writes", 0), notifications=c.stats.get("notifications", 0), inlined=sorted(eng.inlined))
    out.rule("Typestate over predicate abstraction: the facts known at a wait are the condition slept on; after the wait no path may release the lock, "
             "write a shared field, call a job or return before it has learned the opposite of one of them; every write that can turn the (disjunction of) "
             "slept-on conditions false is made under the lock used with the wait and is followed by notify_all on that condition variable on every path "
             "before the function ends, sleeps or joins.")
    out.violations(list(w.violations.values()) + list(c.violations.values()))


def key_text(k):
    if isinstance(k, tuple) and k and k[0] in ("t", "empty"):
        return "%s(%s)" % (k[0], show(k[1]))
    return str(k)[:80]


# ------------------------------------------------------------------ J03
class J03(LockClient):
    """x = (credit, obligation, active, popped, gone)"""

    def __init__(self, ctx, pool, active):
        super().__init__()
        self.ctx = ctx
        self.pool, self.act = pool, active
        self.spawns = 0
        self.joined = False

    def delta(self, ev):
        x = ev.extra
        if x == "++":
            return 1
        if x == "--":
            return -1
        if isinstance(x, tuple) and x and x[0] in ("+=", "-="):
            u = Engine.unwrap(x[1])
            if u is not None and u.k == "int":
                return int(u.v) * (1 if x[0] == "+=" else -1)
            return "many" if x[0] == "+=" else "unknown"
        if isinstance(x, tuple) and x and x[0] == "=":
            u = Engine.unwrap(x[1])
            # n = n + 1 / n = n - 1
            if u is not None and u.k == "bin" and u.op in ("+", "-"):
                a, b = Engine.unwrap(u.x), Engine.unwrap(u.y)
                if u.op == "+" and a is not None and a.k == "int":
                    a, b = b, a
                if b is not None and b.k == "int" and a is not None and a.k in ("mem", "ref"):
                    return int(b.v) * (1 if u.op == "+" else -1)
            return "unknown"
        return 0

    def is_entry(self):
        return self.root in self.ctx.entries

    def on_access(self, eng, ev, ps, facts):
        credit, obl, act, popped, gone = ps[1]
        f = field_of(ev.path)
        if f is None:
            return None
        if gone == 2 and self.is_entry():
            self.report("worker.late", "the worker touches %s after it gave up its place in %s and released the lock: the queue may be destroyed by then" % (f.name, self.pool.name), ev.frame, ev.node)
        if "w" not in ev.mode:
            return None
        if f is self.pool:
            d = self.delta(ev)
            self.bump("pool_updates")
            if d == "unknown":
                self.report("pool.set", "%s is set to a value not derived from the number of workers" % f.name, ev.frame, ev.node)
                return None
            if self.is_entry():
                obl = min(3, max(-3, obl + (d if d != "many" else 3)))
                if obl < 0:
                    self.report("pool.twice", "the worker gives back its place in %s twice" % f.name, ev.frame, ev.node)
                if obl > 1:
                    self.report("pool.late", "the worker counts itself in %s: its entry is not taken before the thread runs on its own" % f.name, ev.frame, ev.node)
                gone = 1 if obl <= 0 else 0
            else:
                credit = 99 if (d == "many" or credit == 99) else min(5, max(-5, credit + d))
        elif f is self.act and self.is_entry():
            d = self.delta(ev)
            self.bump("active_updates")
            if d in ("unknown", "many"):
                self.report("active.set", "%s is set to a value not derived from the number of running jobs" % f.name, ev.frame, ev.node)
                return None
            act = min(3, max(-3, act + d))
            if act < 0:
                self.report("active.neg", "%s is decremented without a matching increment" % f.name, ev.frame, ev.node)
        elif f is not self.act and isinstance(ev.extra, tuple) and ev.extra[0] == "m" and ev.extra[1].startswith(("pop", "erase")) and self.is_entry():
            popped = 1
        return [(credit, obl, act, popped, gone)]

    def on_release(self, eng, fr, node, ps, mutex, facts):
        credit, obl, act, popped, gone = ps[1]
        if self.is_entry() and popped and act < 1 and self.act is not None:
            self.report("active.window", "the lock is released between taking a job from the queue and counting it in %s" % self.act.name, fr, node)
        if gone == 1:
            gone = 2
        return [(credit, obl, act, 0, gone)]

    def on_acquire(self, eng, fr, node, ps, mutex):
        if ps[1][4] == 2 and self.is_entry():
            self.report("worker.late", "the worker takes %s again after it gave up its place in %s and released it" % (show(mutex), self.pool.name), fr, node)

    def on_wait(self, eng, fr, node, ps, cv, mutex, facts):
        credit, obl, act, popped, gone = ps[1]
        if self.is_entry() and act != 0:
            self.report("active.wait", "the worker sleeps while it still counts a job in %s" % self.act.name, fr, node)
        if self.is_entry() and popped and self.act is not None:
            pass
        return None

    def on_notify(self, eng, fr, node, ps, cv, all):
        if ps[1][4] == 2 and self.is_entry():
            self.report("worker.late", "the worker touches %s after it gave up its place in %s and released the lock" % (show(cv), self.pool.name), fr, node)

    def on_call(self, eng, ev, ps, facts):
        credit, obl, act, popped, gone = ps[1]
        if is_job_call(ev) and self.is_entry() and self.act is not None and act != 1:
            self.report("active.job", "a job runs while %s does not count it" % self.act.name, ev.frame, ev.node)

    def on_spawn(self, eng, fr, node, ps, entries):
        credit, obl, act, popped, gone = ps[1]
        if not any(e in self.ctx.entries for e in entries):
            return None
        self.spawns += 1
        if self.pool is None:
            return None
        if credit <= 0:
            self.report("spawn.uncounted", "a worker is started before it is counted in %s: the destructor can return before the worker runs" % self.pool.name, fr, node)
            return None
        if credit != 99:
            credit -= 1
        return [(credit, obl, act, popped, gone)]

    def on_exit(self, eng, ev, ps, facts):
        credit, obl, act, popped, gone = ps[1]
        if self.is_entry():
            if ev.mode == "normal":
                if self.pool is not None and obl != 0:
                    self.report("pool.kept", "the worker can end %s its place in %s" % ("without giving back" if obl > 0 else "after giving back more than", self.pool.name), ev.frame, None)
                if self.act is not None and act != 0:
                    self.report("active.kept", "the worker can end while %s still counts its job" % self.act.name, ev.frame, None)
        elif self.pool is not None and credit not in (0, 99) and credit > 0:
            self.report("pool.phantom", "%s counts a worker that was not started when %s ends (%s)" % (self.pool.name, ev.fn.q, "by an exception" if ev.mode == "throw" else "normally"), ev.frame, None)


class Dtor(LockClient):
    """the destructor returns only when the pool counter was seen at zero or the threads were joined"""

    def __init__(self, pool):
        super().__init__()
        self.pool = pool
        self.exits = 0

    def on_call(self, eng, ev, ps, facts):
        if ev.fn is not None and ev.fn.name in ("join_all", "join"):
            return [True]

    def learn(self, eng, ps, facts, key, val, fr, node):
        if self.pool is not None and key == ("t", (("this",), self.pool)) and val is False and self.held(ps):
            return [(ps[0], True)]
        if key[0] == "t" and len(key[1]) == 2 and val is False and "thread" in (key[1][1].t or ""):
            return [(ps[0], True)]
        return None

    def on_release(self, eng, fr, node, ps, mutex, facts):
        return None

    def on_exit(self, eng, ev, ps, facts):
        if ev.mode == "normal":
            self.exits += 1
            if not ps[1]:
                self.report("dtor.early", "the destructor can return while workers still run", ev.frame, None)


def beginnings(ctx, counters, flags):
    """what a new queue starts from"""
    vs = []
    for f in ctx.P.functions():
        if not f.ctor or f.copyctor or f.movector or f.cls is not ctx.rec or f.dep or f.body is None and not f.inits:
            continue
        r = vg.Engine(ctx.P).root(f, {})
        for x, want in [(c, ZERO) for c in counters] + [(x, FALSE) for x in flags]:
            v = r.st.mem.get(vg.F(vg.THIS, x.q or x.name))
            if v is not None and x in flags:
                v = tobool(v)
            if v is not want:
                vs.append({"key": "start." + x.name, "function": f.q, "where": f.where, "message": "a new queue starts with %s = %s instead of %s" % (x.name, "an undefined value" if v is None else show_term(v), show_term(want)), "path": ""})
    return vs


def j03(out):
    ctx = Ctx()
    w = Waits(ctx)
    ctx.run(w, ctx.all, None)

    def fields(cvmap, types):
        res = set()
        for bs in cvmap.values():
            for b in bs:
                for k, v in b:
                    for d in w.deps[k]:
                        f = field_of(d)
                        if f is not None and (f.t or "").replace("volatile ", "") in types:
                            res.add(f)
        return res

    def intfields(cvmap):
        return fields(cvmap, ("int", "unsigned int", "long", "unsigned long", "short", "long long", "unsigned long long"))
    pool = set()
    for d in ctx.dtors:
        pool |= intfields(w.by_root.get(d, {}))
    act, flags = set(), set()
    for r in ctx.roots:
        if not r.dtor:
            act |= intfields(w.by_root.get(r, {}))
    for cvmap in w.by_root.values():
        flags |= fields(cvmap, ("bool",))
    act -= pool
    if len(pool) > 1 or len(act) > 1:
        raise Broken("cannot tell the worker counter from the job counter")
    pool = pool.pop() if pool else None
    act = act.pop() if act else None
    vs = beginnings(ctx, [f for f in (pool, act) if f is not None], flags)
    if ctx.dtors:
        dc = Dtor(pool)
        ctx.run(dc, ctx.dtors, False)
        vs += list(dc.violations.values())
    else:
        vs.append({"key": "dtor.none", "function": "sm::JobQueue::~JobQueue", "where": ctx.rec.where, "message": "there is no destructor that waits for the workers", "path": ""})
    c = J03(ctx, pool, act)
    eng = ctx.run(c, ctx.all, lambda m: (0, 1 if m in ctx.entries else 0, 0, 0, 0))
    vs += list(c.violations.values())
    if not c.spawns:
        raise Broken("anchor vanished: no reachable thread start")
    if act is None:
        vs.append({"key": "active.none", "function": "sm::JobQueue", "where": ctx.rec.where, "message": "no counter of running jobs is tested by the operation that waits for an empty queue", "path": ""})
    out.analysed(functions=[m.q for m in ctx.all], worker_counter=pool.name if pool else None, job_counter=act.name if act else None,
                 thread_starts=c.spawns, pool_updates=c.stats.get("pool_updates", 0), active_updates=c.stats.get("active_updates", 0))
    out.rule("Counting typestate over all paths (exceptional ones of a thread start included): the counter the destructor sleeps on is raised before each "
             "thread start and lowered exactly once on each return of the worker, whose lock release after that is its last touch of the queue; the counter "
             "the drain operation sleeps on is raised under the lock hold that takes the job, is exactly one at the call of the job and zero at each sleep "
             "and return of the worker; the destructor returns only after seeing the former at zero under the lock (or joining the threads).")
    out.violations(vs)


CHECKS = {"J01": j01, "J02": j02, "J03": j03}
