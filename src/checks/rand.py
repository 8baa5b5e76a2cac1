"""R01: every draw of sm::random comes from one generator, which seeding determines completely.

The generators, engines and distributions of boost (and std) are modelled as values: a draw is a term of the distribution's parameters and of the
engine's state, drawing and seeding replace that state. The functions of the module are compared with what they are documented to return."""
import re
from ..sa import vg
from ..sa.facts import Broken, Program, walk
from ..sa.terms import *

NSP = "(const )?(boost|std)::(random::)?"
ENGINE = re.compile(NSP + r"(mersenne_twister|linear_congruential|subtract_with_carry|discard_block|\w*_engine|mt19937\w*|minstd_rand\w*|ranlux\w*|default_random_engine|taus88|ecuyer1988|lagged_fibonacci\w*)\b")
DIST = re.compile(NSP + r"(uniform_real|uniform_01|normal)(_distribution)?<")
GEN = re.compile(NSP + r"variate_generator<")


def kind(t):
    m = DIST.match(t)
    return {"uniform_01": "uniform", "uniform_real": "uniform", "normal": "normal"}[m.group(4)]


class Engine(vg.Engine):
    def model_ctor(self, n, st, fr):
        t = vg.bare(n.t)
        f = n.f
        copy = f is not None and (f.copyctor or f.movector)
        if not copy and ENGINE.match(t):
            a = [self.rv(x, st, fr) for x in n.a or () if x.k != "defarg"]
            return mk("seeded", *(a or [mk("default")]))
        if not copy and DIST.match(t):
            k = kind(t)
            a = [self.rv(x, st, fr) for x in n.a or ()]
            if len(a) < 2 and not all(vg.is_num(x) for x in a):
                return None
            a += [ZERO, ONE][len(a):]
            return vg.with_(mk(k), dict(p=a[0], q=a[1], spare=mk("none")))
        if not copy and GEN.match(t):
            a = n.a
            byref = re.search(r"variate_generator<.*?(&|\*), *(boost|std)::", t)
            eng = vg.ptr(self.lv(a[0], st, fr)) if byref else self.rv(a[0], st, fr)
            return vg.with_(mk("generator"), dict(eng=eng, dist=self.rv(a[1], st, fr)))
        return super().model_ctor(n, st, fr)


def engine_of(e, l, st):
    """the place of the engine a generator draws from"""
    v = e.load(st, vg.F(l, "eng"))
    return vg.deref(v) if v.op == "ptr" else vg.F(l, "eng")


def draw(e, dl, el, st):
    d, s = e.load(st, dl), e.load(st, el)
    if d.op != "with" or d.args[0].op not in ("uniform", "normal"):
        return None
    k = d.args[0].op
    f = dict(d.args[1])
    if k == "uniform":
        e.store(st, el, mk("next", s))
        return add(f["p"], mul(sub(f["q"], f["p"]), mk("draw", "uniform", s)))
    sp = f["spare"]
    e.store(st, el, mk("after", s, sp))
    e.store(st, vg.F(dl, "spare"), mk("spare", s, sp))
    return add(f["p"], mul(f["q"], mk("draw", "normal", s, sp)))


def model(e, n, st, fr):
    f = n.f
    if f.mine or n.o is None:
        return None
    t = vg.bare(n.o.t)
    if GEN.match(t):
        l = e.recv_loc(n, st, fr)
        if f.name == "operator()" and not n.a:
            v = draw(e, vg.F(l, "dist"), engine_of(e, l, st), st)
            return (v, False) if v is not None else None
        if f.name == "engine":
            return engine_of(e, l, st), True
        if f.name == "distribution":
            return vg.F(l, "dist"), True
    if ENGINE.match(t):
        l = e.recv_loc(n, st, fr)
        if f.name == "seed":
            a = [e.rv(x, st, fr) for x in n.a or () if x.k != "defarg"]
            e.store(st, l, mk("seeded", *(a or [mk("default")])))
            return VOID, False
    if DIST.match(t):
        l = e.recv_loc(n, st, fr)
        if f.name == "operator()" and len(n.a) == 1:
            v = draw(e, l, e.lv(n.a[0], st, fr), st)
            return (v, False) if v is not None else None
        if f.name == "reset":
            if vg.proj(e.load(st, l), "spare") is not mk("none"):
                e.store(st, vg.F(l, "spare"), mk("none"))
            return VOID, False
        if f.name in ("min", "a", "mean", "max", "b", "sigma", "stddev"):
            return e.load(st, vg.F(l, "p" if f.name in ("min", "a", "mean") else "q")), False
    return None


def statics(P):
    """objects that outlive a call"""
    out = []
    for f in P.functions():
        if f.mine and f.body is not None and re.search("random", f.rel or ""):
            for n in walk(f.body):
                if n.k == "decl":
                    out += [(v, v.d, f) for v in n.v or () if v.d is not None and v.d.staticlocal]
    return out


def functions(P):
    return [f for f in P.functions() if f.mine and f.q == "sm::random::" + f.name and f.body is not None and not f.dep]


def wide(t):
    t = vg.bare(t or "")
    return t not in ("int", "unsigned int", "short", "unsigned short", "char", "signed char", "unsigned char", "float", "std::int32_t", "std::uint32_t")


def r01(out):
    out.rule("Each function of the module returns exactly the documented function of one draw, drawn from the one engine all of them share, and advances that engine by that draw only; "
             "after seeding, the engine and whatever a distribution remembers are functions of the seed alone; the difference of the bounds is not computed in 32 bits; "
             "nothing the functions share is per thread.")
    P = Program([r"^sm_random/"])
    names = {f.name: f for f in functions(P)}
    want = ["normal", "randn", "uniform", "rand", "randLU", "randLUi", "seed"]
    for w in want:
        if w not in names:
            raise Broken("sm::random::%s is not defined" % w)
    # the objects that exist before any call, in an arbitrary later state
    e0 = Engine(P)
    e0.models = [model]
    st = vg.St()
    fr = vg.Frame(names["uniform"], None, None)
    for v, d, f in statics(P):
        if d.tls:
            out.violation("random.thread", f.q, f.where, "%s exists once per thread: seeding in one thread does not determine the draws of another" % d.name)
        if v.i is None:
            continue
        fr.fn = f
        l = mk("glob", d)
        if vg.isref(d.t):
            st.mem[l] = vg.ptr(e0.lv(v.i, st, fr))
        else:
            e0.construct(v.i, l, st, fr)
    for v, init in globals_(P):
        if v.tls:
            out.violation("random.thread", v.q or v.name, v.where, "%s exists once per thread: seeding in one thread does not determine the draws of another" % v.name)
        if init is not None:
            e0.construct(init, mk("glob", v), st, fr)
    state = {}
    for l in list(st.mem):
        st.mem[l] = arbitrary(st.mem[l], l, state)
    if not state:
        raise Broken("no generator found")
    res = {}
    for w in want:
        e = Engine(P)
        e.models = [model]
        e.nobj = e0.nobj
        r = e.root(names[w], st=st.copy())
        res[w] = (e, r)
    e, r = res["uniform"]
    used = {x for x in vg.order(r.value) if x.op == "state"}
    if len(used) != 1:
        out.violation("random.source", names["uniform"].q, names["uniform"].where, "draws from %d generators: %s" % (len(used), show(r.value, 4)))
        return
    S = used.pop()
    L = next(l for l, s in state.items() if s is S)
    U = mk("draw", "uniform", S)
    a, b = mk("arg", 0), mk("arg", 1)
    drawn = {x for w in want if w != "seed" for x in vg.order(res[w][1].value) if x.op == "state"}
    for w in want:
        e, r = res[w]
        f = names[w]
        out.analysed(functions=[f.q])
        for x in r.throws:
            if not x[0].dead:
                out.violation("random.throws", f.q, f.where, "may throw")
        if w == "seed":
            for l, s in state.items():
                if s not in drawn:
                    continue
                v = e.load(r.st, l)
                if any(t.op == "state" for t in vg.order(v)):
                    out.violation("random.seed", f.q, f.where, "after seeding, %s still depends on the draws made before: %s" % (show(l, 3), show(v, 5)))
                elif l is L and not any(t is a for t in vg.order(v)):
                    out.violation("random.seed", f.q, f.where, "the generator's state after seeding is %s" % show(v, 5))
            continue
        v = r.value
        other = {x for x in vg.order(v) if x.op == "state"} - {S} - {s for l, s in state.items() if s.args[0] == "spare"}
        if other:
            out.violation("random.source", f.q, f.where, "draws from %s, not from the generator of uniform()" % ", ".join(show(l, 3) for l, s in state.items() if s in other))
            continue
        for l, s in state.items():
            x = e.load(r.st, l)
            if s is S and x.op not in ("next", "after") or s is S and x.args[0] is not S:
                out.violation("random.advance", f.q, f.where, "leaves the generator as %s instead of one draw further" % show(x, 5))
            elif s.args[0] == "engine" and s is not S and x is not s:
                out.violation("random.advance", f.q, f.where, "changes another generator, %s" % show(l, 3))
        if w in ("normal", "randn"):
            ok = v.op == "draw" and v.args[0] == "normal" and v.args[1] is S
            what = "one draw from the standard normal distribution"
        elif w in ("uniform", "rand"):
            ok, what = e.numeq(v, U) is TRUE, "one draw from the uniform distribution on [0, 1)"
        elif w == "randLU":
            ok, what = e.numeq(v, add(a, mul(sub(b, a), U))) is TRUE, "lower + draw*(upper - lower)"
        else:
            ok, what = lower(v, a, b, U), "lower + floor(draw*(upper - lower))"
            narrow(out, P, f)
        if not ok:
            out.violation("random.value", f.q, f.where, "returns %s, which is not %s" % (show(v, 6)[:300], what))


def lower(v, a, b, U):
    """v == a + floor(U*(b-a)), with a < b"""
    x = mul(U, sub(b, a))
    if v.op == "ite":
        return lower(v.args[1], a, b, U) and lower(v.args[2], a, b, U)
    for k in range(2):
        if v.op == "trunc" and whole(v.args[0]):
            v = v.args[0]
    r = sub(v, a)
    return any(r is y for y in (mk("fn1", "floor", x), mk("trunc", x), mk("trunc", mk("fn1", "floor", x)), mk("trunc", mk("fn1", "trunc", x)), mk("fn1", "trunc", x)))


def whole(v):
    return all(t.op in ("arg", "trunc") or t.op == "fn1" and t.args[0] in ("floor", "trunc", "ceil", "round") for m, c in as_poly(v).items() for t, _ in m) \
        and all(c.denominator == 1 if hasattr(c, "denominator") else float(c).is_integer() for c in as_poly(v).values())


def narrow(out, P, f):
    """no sum or difference of bounds in 32 bits: their difference needs 33"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g in seen or g.body is None or not g.mine:
            continue
        seen.add(g)
        ints = ints_of(g)
        for n in walk(g.body):
            if n.k == "call" and n.f is not None and any(mentions(x, ints) for x in n.a or ()):
                todo.append(n.f)
            if n.k == "bin" and n.op in ("-", "+", "*") and not wide(n.t) and mentions(n.x, ints) and (mentions(n.y, ints) or draws(n.y)) or \
                    n.k == "bin" and n.op in ("-", "+", "*") and not wide(n.t) and mentions(n.y, ints) and draws(n.x):
                out.violation("random.narrow", g.q, g.where, "computes %s of the bounds in %s: it overflows for a wide interval" % ({"-": "the difference", "+": "a sum", "*": "a product"}[n.op], vg.bare(n.t)))


def ints_of(f):
    """variables of f that carry a bound"""
    ds = {p for p in f.ps or ()}
    for k in range(4):
        for n in walk(f.body):
            if n.k == "decl":
                for v in n.v or ():
                    if v.d is not None and v.i is not None and mentions(v.i, ds):
                        ds.add(v.d)
    return ds


def mentions(n, ds):
    return any(x.k == "ref" and x.d in ds for x in walk(n))


def draws(n):
    return any(x.k == "call" for x in walk(n))


def globals_(P):
    out = []
    for v in P.vars:
        if v.mine and re.search("random", v.rel or "") and not v.staticlocal and v.a.get("global"):
            out.append((v, v.a.get("init")))
    return out


def arbitrary(v, l, state):
    """whatever draws may have left behind"""
    if v.op == "with":
        d = {}
        for k, x in v.args[1]:
            if k == "spare" and v.args[0].op == "normal":
                d[k] = mk("state", "spare", l)
                state[vg.F(l, k)] = d[k]
            else:
                d[k] = arbitrary(x, vg.F(l, k), state)
        return vg.with_(v.args[0], d)
    if v.op == "seeded":
        s = mk("state", "engine", l)
        state[l] = s
        return s
    return v


CHECKS = {"R01": r01}
