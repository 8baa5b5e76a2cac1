"""J04: a worker takes the oldest job, removes exactly that one in the same hold of the lock, and calls it once.

The queue behind the lock is a value that every acquisition replaces by "the pending jobs"; what a function may do to it before it releases the
lock is: nothing, append the submitted job, or remove the oldest after having kept it. The kept job is owed a call."""
import re
import sys
from ..sa import equiv, vg
from ..sa.facts import Broken, Program, walk
from ..sa.terms import *
sys.setrecursionlimit(20000)

Q = mk("pending")
OWED = vg.F(vg.obj("worker"), "owed")
NONE = mk("none")
FUNCTION = re.compile(r"(const )?(boost|std)::function(0<void|<void ?\((void)?\))>")
QUEUE = re.compile(r"(const )?(std|boost)::(__cxx11::)?(deque|list|vector|queue|container::\w+|circular_buffer)<(boost|std)::function<void ?\((void)?\)>")
CONDITION = re.compile(r"(const )?(boost|std)::(_V2::)?condition(_variable)?(_any)?\b")
CLASS = "sm::JobQueue"


class Watch:
    def __init__(self, e, P):
        self.e, self.P = e, P
        self.found = []
        rec = next((r for r in P.records if r.q == CLASS), None)
        if rec is None:
            raise Broken("no class " + CLASS)
        self.fields = [f for f in rec.fields or ()]
        qs = [f for f in self.fields if QUEUE.match(vg.bare(f.t))]
        if len(qs) != 1:
            raise Broken("%d queues of jobs in %s" % (len(qs), CLASS))
        self.q = qs[0].q or qs[0].name
        self.ptr_calls = []
        self.pushed = []

    def say(self, key, fr, n, text):
        f = fr.fn
        if (key, text) not in [(k, t) for k, _, _, t in self.found]:
            self.found.append((key, f.q or f.name, fr.where(n) if n is not None else f.where, text))

    def isq(self, l):
        return l.op == "F" and l.args[1] == self.q

    def empty(self, l):
        return vg.F(l.args[0], "nothing pending")

    # the lock
    def release(self, st, fr, n, this, final=False):
        l = vg.F(this, self.q)
        v = self.e.load(st, l)
        owed = self.e.load(st, OWED)

        def ok(v, o):
            if v is Q or v.op == "init":
                return TRUE
            if v.op == "push":
                return ok(v.args[0], o)
            if v.op == "rest" and v.args[0] is Q:
                return TRUE if o is vg.elem(Q, ZERO) else FALSE
            return FALSE
        good = lift(ok, v, owed)
        if and_(st.pc, not_(good)) is not FALSE:
            bad = [x for c, x in leaves(v) if and_(st.pc, c, not_(lift(ok, x, owed))) is not FALSE]
            self.say("jobs.removed", fr, n, "gives up the lock with the pending jobs changed to %s while the job kept for calling is %s" % (", ".join(show(x, 3) for x in bad[:2]), show(owed, 3)))
        for x in leafset(constrain(v, st.pc)):
            if x.op == "push":
                self.pushed.append((st.pc, x))
        if not final:
            self.acquire(st, fr, n, this, "release")

    def acquire(self, st, fr, n, this, tag):
        e = self.e
        st.mem[vg.F(this, self.q)] = Q
        w = str(fr.where(n)) + tag
        st.mem[self.empty(vg.F(this, self.q))] = tobool(mk("shared", "empty", w))
        for f in self.fields:
            t = vg.bare(f.t.replace("volatile ", ""))
            if t == "bool":
                st.mem[vg.F(this, f.q or f.name)] = tobool(mk("shared", f.name, w))
            elif t in vg.INT_T:
                st.mem[vg.F(this, f.q or f.name)] = mk("shared", f.name, w)

    def this(self, st, fr):
        f = fr
        while f is not None:
            if f.fn is not None and f.fn.cls is not None and f.fn.cls.q == CLASS and f.this is not None:
                return f.this
            f = f.parent
        return None

    def onlock(self, e, n, st, fr):
        this = self.this(st, fr)
        if this is None or not re.search(r"lock", vg.bare(n.t)):
            return
        if any(re.search(r"defer_lock", vg.bare(a.t or "")) for a in n.a or ()):
            return
        self.release(st, fr, n, this)
        self.acquire(st, fr, n, this, "ctor")

    # calls
    def model(self, e, n, st, fr):
        f = n.f
        name = f.name
        if not f.mine and n.o is None and re.match(r"(boost|std)::(bind|ref|cref|make_shared)\b", vg.shortq(f.q)) and name in ("bind", "ref", "cref"):
            return mk("call", name, *[e.rv(a, st, fr) for a in n.a or ()]), False
        if f.mine or n.o is None:
            return None
        if name == "create_thread" or name == "join_all":
            for a in n.a or ():
                e.rv(a, st, fr)
            return VOID, False
        t = vg.bare(n.o.t)
        if CONDITION.match(t):
            if name in ("wait", "wait_for", "wait_until", "timed_wait") and n.a:
                this = self.this(st, fr)
                if this is None:
                    return None
                self.release(st, fr, n, this)
                self.acquire(st, fr, n, this, "wait")
                p = e.rv(n.a[-1], st, fr) if len(n.a) > 1 else None
                if p is not None and p.op == "lam":
                    c, ref = e.call_lambda(p, [], st, fr, n)
                    c = tobool(e.load(st, c) if ref else c)
                    if name == "wait":
                        st.pc = and_(st.pc, c)
                    return c, False
                return VOID, False
            return VOID, False
        if vg.LOCKS.match(t):
            this = self.this(st, fr)
            if this is None:
                return None
            if name == "unlock":
                self.release(st, fr, n, this)
            elif name == "lock":
                self.release(st, fr, n, this)
                self.acquire(st, fr, n, this, "lock")
            elif name in ("try_lock", "owns_lock"):
                return None
            return VOID, False
        if QUEUE.match(t):
            l = e.recv_loc(n, st, fr)
            if not self.isq(l):
                return None
            nothing = tobool(e.load(st, self.empty(l)))
            if name == "empty":
                return nothing, False
            if name == "size":
                return ite(nothing, ZERO, add(mk("size", mk("more")), ONE)), False
            first = name == "pop" or name == "pop_front" or name == "erase" and len(n.a) == 1 and isfirst(e.rv(n.a[0], st, fr), l)
            if first:
                v = e.load(st, l)
                self.owe(st, fr, n, v)
                if and_(st.pc, nothing) is not FALSE:
                    self.say("jobs.empty", fr, n, "takes a job without knowing that there is one")
                e.store(st, l, lift(lambda x: mk("rest", x), v))
                st.mem[self.empty(l)] = tobool(mk("shared", "empty", str(fr.where(n)) + "pop"))
                return VOID, False
            if name in ("push", "push_back", "emplace_back", "emplace") and len(n.a) == 1:
                v = e.rv(n.a[0], st, fr)
                e.store(st, l, vg.mkl("push", e.load(st, l), v))
                st.mem[self.empty(l)] = FALSE
                return VOID, False
            if name == "insert" and len(n.a) == 2 and isend(e.rv(n.a[0], st, fr), l):
                v = e.rv(n.a[1], st, fr)
                e.store(st, l, vg.mkl("push", e.load(st, l), v))
                st.mem[self.empty(l)] = FALSE
                return VOID, False
            if name in ("front", "operator[]", "at", "back", "begin", "cbegin", "end", "cend"):
                if name == "front":
                    return vg.E(l, ZERO), True
                return None
            args = [e.rv(a, st, fr) for a in n.a or ()]
            e.store(st, l, mk("call", "jobs." + name, e.load(st, l)))
            return VOID, False
        if FUNCTION.match(t) and name == "swap" and len(n.a) == 1:
            a, b = e.recv_loc(n, st, fr), e.lv(n.a[0], st, fr)
            x, y = e.load(st, a), e.load(st, b)
            for l, v in ((a, y), (b, x)):
                if l.op == "E" and self.isq(l.args[0]) and l.args[1] is ZERO:
                    continue        # what is left in a place about to be given up
                e.store(st, l, v)
            return VOID, False
        if FUNCTION.match(t) and name == "operator()":
            v = e.load(st, e.recv_loc(n, st, fr))
            return self.called(v, n, st, fr)
        if re.match(r"(const )?(boost|std)::packaged_task<", t):
            l = e.recv_loc(n, st, fr)
            if name == "get_future":
                return mk("futureof", l), False
            if name == "operator()":
                self.ptr_calls.append((st.pc, l))
                return VOID, False
        return None

    def owe(self, st, fr, n, v):
        o = self.e.load(st, OWED)
        if and_(st.pc, not_(lift(lambda x: TRUE if x is NONE else FALSE, o))) is not FALSE:
            self.say("jobs.dropped", fr, n, "takes another job before having called the one it took")
        self.e.store(st, OWED, lift(lambda x: vg.elem(x, ZERO), v))

    def called(self, v, n, st, fr):
        e = self.e
        o = e.load(st, OWED)
        same = lift(lambda v, o: TRUE if v is o and o is not NONE else FALSE, v, o)
        if and_(st.pc, not_(same)) is not FALSE:
            self.say("jobs.called", fr, n, "calls %s where the job taken and not yet called is %s" % (show(v, 3), show(o, 3)))
        e.store(st, OWED, NONE)
        return VOID, False


def isend(v, l):
    return v.op == "iter" and v.args[0] is l and v.args[1].op == "size"


def isfirst(v, l):
    return v.op == "iter" and v.args[0] is l and v.args[1] is ZERO


class Engine(vg.Engine):
    """notices locks"""
    watch = None
    exitfacts = True

    def model_ctor(self, n, st, fr):
        if vg.LOCKS.match(vg.bare(n.t)) and self.watch is not None:
            self.watch.onlock(self, n, st, fr)
        return super().model_ctor(n, st, fr)


def j04(out):
    out.rule("Every acquisition of the lock makes the queue \"the pending jobs\"; when the lock is given up the queue is unchanged, has submitted jobs appended at its end, or lacks exactly "
             "its oldest job, taken knowing that there was one. The job removed is owed a call: what is called is that job, once, and no other. "
             "A submission appends exactly the submitted job once; a future's job runs, once, the task the future was obtained from.")
    P = Program([r"^sm_boost/src/JobQueue", r"^sm_boost/include/sm/boost/", r"witness/job_queue\.cpp"])
    unit = "witness/job_queue.cpp"
    roots = []
    for f in P.functions():
        if f.cls is not None and f.cls.q == CLASS and f.body is not None and not f.dep and not f.ctor and not f.name.startswith("~") and f.rel and not f.rel.endswith(unit):
            roots.append(f)
        elif f.rel and f.rel.endswith(unit) and f.body is not None:
            roots.append(f)
    for f in roots:
        e = Engine(P)
        w = Watch(e, P)
        e.watch = w
        e.models = [w.model]
        st = vg.St()
        this = vg.obj("p0") if f.rel.endswith(unit) else vg.THIS
        st.mem[OWED] = NONE
        st.mem[vg.F(this, w.q)] = Q
        r = e.root(f, st=st)
        fr = r.frame
        for s, at in [(r.st, f.where)] + [(x[0], x[3]) for x in r.throws]:
            if s.dead or r.frame is None:
                continue
            w.release(s, fr, None, this, final=True)
            o = e.load(s, OWED)
            if and_(s.pc, not_(lift(lambda x: TRUE if x is NONE else FALSE, o))) is not FALSE:
                w.say("jobs.dropped", fr, None, "ends without having called the job it took")
        if f.rel.endswith(unit):
            submitted(out, P, e, w, r, f)
        for key, q, where, text in w.found:
            out.violation(key, q, where, text)
    out.analysed(functions=[f.q for f in roots])
    if not any(f.name == "exec_loop" or any(re.match(QUEUE, vg.bare(n.o.t)) and n.f.name in ("pop", "pop_front", "erase") for n in walk(f.body) if n.k == "call" and n.o is not None and n.f is not None) for f in roots):
        raise Broken("no worker found")


def submitted(out, P, e, w, r, f):
    t = equiv.target(P, f)
    v = e.load(r.st, vg.F(vg.obj("p0"), w.q))
    fn = vg.St()
    for x in leafset(constrain(v, r.pc)):
        if x.op != "push" or x.args[0] is not Q:
            out.violation("jobs.submit", t.q, t.where, "a submission leaves the pending jobs as %s" % show(x, 4))
            return
        job = x.args[1]
        if f.name == "submit":
            if job is not e.load(fn, vg.obj("p1")):
                out.violation("jobs.submit", t.q, t.where, "appends %s instead of the submitted job" % show(job, 4))
            continue
        # a future
        fu = e.load(r.st, vg.obj("p2"))
        if fu.op != "futureof":
            out.violation("jobs.future", t.q, t.where, "the future handed out is %s" % show(fu, 4))
            continue
        task = fu.args[0]
        made = e.load(r.st, task)
        if e.load(fn, vg.obj("p1")) not in vg.order(made):
            out.violation("jobs.future", t.q, t.where, "the future belongs to %s, not to the submitted function" % show(made, 4))
        w.ptr_calls.clear()
        if not runs(P, e, job, r):
            raise Broken("cannot follow the job " + show(job, 4))
        total = [c for c, l in w.ptr_calls if l is task]
        other = [l for c, l in w.ptr_calls if l is not task]
        if other:
            out.violation("jobs.future", t.q, t.where, "the job appended runs %s, the future belongs to %s" % (show(other[0], 4), show(task, 4)))
        elif len(total) != 1 or and_(r.pc, not_(total[0])) is not FALSE:
            out.violation("jobs.future", t.q, t.where, "the job appended runs the task of the future %d times" % len(total))


def runs(P, e, v, r):
    """call a functor"""
    st = r.st.copy()
    n = next((x for x in walk(r.fn.body) if x.k == "call"), None)
    while v.op in ("ptr", "new") and v.op == "new" and FUNCTION.match(v.args[0]) and len(v.args) > 1:
        v = v.args[1]
    if v.op == "lam":
        e.call_lambda(v, [], st, r.frame, n)
        return True
    if v.op == "with":
        fields = {k for k, x in v.args[1]}
        for f in P.functions():
            if f.name == "operator()" and f.cls is not None and f.body is not None and not f.ps and not f.dep:
                rec = e.rec_of(f.cls.ty or f.cls.q) or f.cls
                if fields and fields <= {x.q or x.name for x in rec.fields or ()}:
                    l = vg.obj("functor")
                    st.mem[l] = v
                    e.inline(f, l, [], st, r.frame, n)
                    return True
    if v.op == "call":
        # a bound call of the task
        text = [x for x in vg.order(v)]
        fs = [x for x in text if x.op == "fn" and x.args[0].name == "operator()"]
        ps = [x for x in text if x.op == "ptr"]
        if fs and ps:
            e.watch.ptr_calls += [(r.pc, p.args[0]) for p in ps[:1]]
            return True
    return False


CHECKS = {"J04": j04}
