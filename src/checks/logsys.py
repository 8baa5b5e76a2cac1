"""L03, L04, L06: severities, log statements, and which of them are enabled."""
import re
import sys
from ..sa import equiv, vg
from ..sa.facts import Broken, Program, walk
from ..sa.terms import *
from ..sa.vg import cat
sys.setrecursionlimit(20000)

ORDER = ["All", "Finest", "Verbose", "Finer", "Trace", "Fine", "Debug", "Info", "Warn", "Error", "Fatal"]
RESET = "\033[0m"


# ------------------------------------------------------------ text
def isiter(v):
    return v.op == "iter"


def textmodel(e, n, st, fr):
    """algorithms that rewrite a text in place"""
    f = n.f
    if f.mine:
        return None
    q = vg.shortq(f.q)
    if f.name == "transform" and n.o is None and len(n.a) == 4:
        a, b, d = [e.rv(x, st, fr) for x in n.a[:3]]
        g = e.rv(n.a[3], st, fr)
        if all(isiter(x) for x in (a, b, d)) and a.args[0] is b.args[0] is d.args[0] and a.args[1] is ZERO and d.args[1] is ZERO:
            l = a.args[0]
            e.store(st, l, mk("call", "transform", name_of(e, g, n.a[3]), e.load(st, l)))
            return b, False
        for x in (d,):
            if isiter(x):
                e.store(st, x.args[0], mk("call", "transform", e.load(st, x.args[0]), a, b, g))
                return d, False
    if f.name in ("to_lower", "to_upper") and n.o is None and n.a:
        l = e.lv(n.a[0], st, fr)
        e.store(st, l, mk("call", f.name, e.load(st, l)))
        return VOID, False
    if f.name in ("to_lower_copy", "to_upper_copy") and n.o is None and n.a:
        return mk("call", f.name[:-5], e.rv(n.a[0], st, fr)), False
    return None


def name_of(e, g, n):
    m = set()
    def called(d, depth=0):
        m.add(d.name)
        if d.body is not None and d.mine and depth < 3:
            for y in walk(d.body):
                if y.k == "call" and y.f is not None:
                    called(y.f, depth + 1)
    for x in vg.order(g):
        if x.op == "fn" or x.op == "lam":
            called(x.args[0])
    return mk("names", *sorted(m))


def texts(v):
    """the texts whose characters v depends on"""
    out = []
    for t in vg.order(v):
        if t.op in ("elem", "size") and t.args[0] not in out and t.args[0].op not in ("str",):
            if t.op == "size" or t.args[1].op == "num":
                out.append(t.args[0])
        if t.op == "eq" and any(a.op == "str" for a in t.args):
            out += [a for a in t.args if a.op != "str" and a not in out]
    return out


def reading(v, xs, s):
    """v when every text in xs reads s"""
    m = {}
    for t in vg.order(v):
        if t.op == "eq" and any(a in xs for a in t.args) and any(a.op == "str" for a in t.args):
            a = next(a for a in t.args if a.op == "str")
            m[t] = TRUE if a.args[0] == s else FALSE
        elif t.op == "size" and t.args[0] in xs:
            m[t] = num(len(s))
        elif t.op == "elem" and t.args[0] in xs and t.args[1].op == "num":
            i = int(t.args[1].args[0])
            if i < len(s):
                m[t] = num(ord(s[i]))
    return subst(v, m)


def l04(out):
    out.rule("The values of the severity functions, as gated values over the text or severity they are given, are read off at every severity and token name: the number used at compile time, the name parsed, the "
             "name printed, the token created and the item of the event it prints must be those of that severity or token; everything else parses as Info and stands for itself; the formatter writes the "
             "tokens in order between a colour and its reset, or without either.")
    unit = "witness/log_levels.cpp"
    P = Program([r"^sm_logging/src", r"witness/log_levels\.cpp"])
    enum = next((x for x in P.enums if x.q == "sm::logging::levels::Level"), None)
    if enum is None:
        raise Broken("no enumeration sm::logging::levels::Level")
    levels = {c.name: int(c.v) for c in enum.consts}
    count = levels.pop("Count", None)
    W = {f.name: f for f in P.functions() if f.rel and f.rel.endswith(unit)}
    where = enum.where

    def root(f, **kw):
        e = vg.Engine(P)
        e.models = [textmodel]
        r = e.root(f, **kw)
        return e, r
    # order and numbers
    have = sorted(levels, key=lambda n: levels[n])
    if [n for n in have if n in ORDER] != ORDER:
        out.violation("levels.order", enum.q, where, "the severities are ordered %s" % ", ".join(have))
    for n in ORDER + ["NONE"]:
        f = W["number_" + n.upper()]
        v = root(f)[1].value
        want = count if n == "NONE" else levels.get(n)
        if want is not None and v is not num(want):
            out.violation("levels.number", f.q, where, "SMCONSOLE_SEVERITY_%s is %s, but levels::%s is %d" % (n.upper(), show(v), "Count" if n == "NONE" else n, want))
        out.analysed(severities=[n])
    # parsing
    fs = P.by_q.get("sm::logging::levels::fromString")
    e, r = root(W["parse"])
    tgt = equiv.target(P, W["parse"])
    v = r.value
    xs = texts(v)
    if not xs:
        raise Broken("fromString does not depend on its text: " + show(v, 4))
    folded = [x for x in xs if re.search(r"tolower|toupper|to_lower|to_upper|iequals", show(x, 30))]
    raw = [x for x in xs if x not in folded]
    raw = [x for x in raw if not any(t.op == "mu" for t in vg.order(x)) and any(t.op == "eq" and x in t.args or t.op == "elem" and t.args[0] is x for t in vg.order(v))]
    if (raw or not folded) and not re.search(r"iequals|strcasecmp", show(v, 30)):
        out.violation("levels.case", tgt.q, tgt.where, "severity names are compared without regard to how letter case is folded: %s" % ", ".join(show(x, 4) for x in (raw or xs)[:2]))
    up = any(re.search(r"toupper|to_upper", show(x, 30)) for x in folded)
    fold = (lambda s: s.upper()) if up else (lambda s: s.lower())
    for n, k in sorted(levels.items(), key=lambda x: x[1]):
        x = reading(v, xs, fold(n))
        if x is not num(k):
            out.violation("levels.parse", tgt.q, tgt.where, "the text \"%s\" is read as %s instead of %s (%d)" % (n, show(x, 4), n, k))
    for n in ["", "x", "infos", "inf", "warning", "fatal ", " all", "finestfinest"] + [n[:-1] for n in levels] + [n + "s" for n in levels]:
        x = reading(v, xs, fold(n))
        if fold(n) not in map(fold, levels) and x is not num(levels["Info"]):
            out.violation("levels.unknown", tgt.q, tgt.where, "the text \"%s\", which names no severity, is read as %s instead of Info" % (n, show(x, 4)))
    # printing the severity
    classes = token_table(out, P, W, root)
    sev = classes.get("severity")
    if sev is not None:
        seen = {}
        for n, k in sorted(levels.items(), key=lambda x: x[1]):
            x = subst(sev[0], {t: num(k) for t in vg.order(sev[0]) if t is level_of(sev[1], vg.obj("p1"))})
            s = x.args[0] if x.op == "str" else None
            if s is None or s.strip() != n.upper()[:5] or s.strip() == "":
                out.violation("levels.print", sev[2].q, sev[2].where, "the severity %s prints as %s" % (n, show(x, 5)))
            elif s in seen:
                out.violation("levels.print", sev[2].q, sev[2].where, "the severities %s and %s print alike" % (seen[s], n))
            seen[s] = n
    # the formatter
    e, r = root(W["print"])
    tgt = equiv.target(P, W["print"])
    refs = []
    for f2 in [W[k] for k in sorted(W) if k.startswith("print_reference")]:
        e2, r2 = root(f2)
        refs.append((e2.load(r2.st, vg.obj("p2")), e2.load(r2.st, mk("var", f2.ps[3], r2.frame.uid))))
    lv = level_of(e, vg.obj("p1"))
    got = e.load(r.st, vg.obj("p2"))
    for n, k in sorted(levels.items(), key=lambda x: x[1]):
        g = subst(got, {lv: num(k)})
        cs = sorted({t for t in vg.order(g) if t.op == "str" and t.args[0].startswith("\033[")}, key=lambda t: t.id)
        if not any(equiv.same(g, subst(subst(want, {lv: num(k)}), {colour: c})) for want, colour in refs for c in cs):
            want, colour = refs[0]
            w, x, y = equiv.where_differ(g, subst(subst(want, {lv: num(k)}), {colour: cs[0] if cs else string(RESET)}))
            out.violation("format.print", tgt.q, tgt.where, "an event of severity %s is not written as colour, the tokens in order, reset, end of line: when %s: %s" % (n, w[:200], show(x, 8)[:400]))
            break
    for p in equiv.pairs(P, "log_levels.cpp"):
        equiv.decide(out, P, p)
    out.analysed(functions=[x.q for x in W.values()])


def level_of(e, l):
    for t in (e.load(vg.St(), vg.F(l, "sm::logging::LoggingEvent::level")),):
        return t


ITEMS = {"message": "message", "time": "timestring", "file": "file", "line": "line", "function": "function", "streamname": "streamName"}


def token_table(out, P, W, root):
    """{token: (value printed, engine, function)}"""
    e, r = root(W["token"])
    tgt = equiv.target(P, W["token"])
    v = r.value
    xs = [x for x in texts(v)]
    res = {}
    ev = vg.obj("p1")
    for name in ["severity", "message", "time", "thread", "file", "line", "function", "streamname", "other"]:
        x = reading(v, xs, name)
        if x.op != "ptr":
            raise Broken("cannot tell the token made for %s: %s" % (name, show(x, 4)))
        l = x.args[0]
        t = e.otype(l)
        f = next((f for f in P.functions() if f.name == "getString" and f.cls is not None and f.cls.q == t and f.body is not None), None)
        if f is None:
            raise Broken("no getString of " + str(t))
        e2 = vg.Engine(P)
        e2.objtype.update(e.objtype)
        st = r.st.copy()
        for k in list(st.mem):
            st.mem[k] = reading(st.mem[k], xs, name)
        fr = f
        r2 = e2.root(f, args={0: ev}, this=l, st=st)
        w = r2.value
        out.analysed(tokens=["%s: %s" % (name, t)])
        mine = {y for y in vg.order(w) if y.op == "init" and vg.root_of(y.args[0]) is ev}
        fields = sorted({y.args[0].args[1].split("::")[-1] for y in mine if y.args[0].op == "F"})
        if name == "severity":
            if fields != ["level"]:
                out.violation("format.token", f.q, f.where, "${severity} prints %s" % show(w, 4)[:300])
            else:
                res[name] = (w, e2, f)
        elif name == "thread":
            if fields or "get_id" not in show(w, 20):
                out.violation("format.token", f.q, f.where, "${thread} prints %s, not the calling thread" % show(w, 4)[:300])
        elif name == "other":
            mp = [y for y in vg.order(w) if y.op == "has" and y.args[1] in xs + [string("other")]]
            full = [y for y in vg.order(w) if y is string("${other}") or y.op == "cat" and y.args[0] is string("${") and y.args[-1] is string("}") and len(y.args) == 3 and y.args[1] in xs]
            found = [y for y in vg.order(w) if mp and y.op == "elem" and y.args[0] is mp[0].args[0] and y.args[1] is mp[0].args[1]]
            ok = len(set(mp)) == 1 and full and found and equiv.same(w, ite(mp[0], found[0], full[0]))
            if not ok:
                out.violation("format.token", f.q, f.where, "an unknown token ${other} prints %s instead of what the formatter's table has for it, or itself" % show(w, 5)[:300])
            elif vg.root_of(mp[0].args[0].args[0] if mp[0].args[0].op == "init" else mp[0].args[0]) is not vg.obj("p0"):
                out.violation("format.token", f.q, f.where, "an unknown token is looked up in %s, not in the formatter's table" % show(mp[0].args[0], 4))
        else:
            if fields != [ITEMS[name]]:
                out.violation("format.token", f.q, f.where, "${%s} prints %s instead of the event's %s" % (name, show(w, 4)[:300], ITEMS[name]))
            elif name == "line" and any(y.op in ("poly", "div", "neg", "mod", "cast") and any(z is m for m in mine for z in vg.order(y)) for y in vg.order(w)):
                out.violation("format.token", f.q, f.where, "${line} prints %s, not the event's line" % show(w, 4)[:300])
            elif name != "line" and not any(w is y for y in mine):
                out.violation("format.token", f.q, f.where, "${%s} prints %s, not just the event's %s" % (name, show(w, 4)[:300], ITEMS[name]))
    return res


def l06(out):
    out.rule("The functions that decide whether a log statement is enabled are compared, as value graphs, with their definition: enabled = level at least the current one and stream enabled or unnamed, for the one "
             "statement and for every registered statement after any change of level or stream. Both print functions must hand the logger exactly one event, unless shutting down or already printing, holding "
             "the stream name, level, file, line, function they were given and the whole message.")
    P = Program([r"^sm_logging/src", r"witness/log_sites\.cpp"])
    for p in equiv.pairs(P, "witness/log_sites.cpp"):
        ig = None
        if p.name.endswith("_other"):
            ig = lambda l: True
        elif p.name in ("start_level", "start_stream"):
            ig = lambda l: True
        equiv.decide(out, P, p, ignore=ig)
    fs = [f for f in P.functions() if f.q == "sm::logging::LoggingGlobals::print" and f.body is not None and not f.dep]
    if len(fs) < 2:
        raise Broken("no LoggingGlobals::print")
    for f in fs:
        printed(out, P, f)


def printed(out, P, f):
    snaps = []

    def hook(e, n, st, fr):
        if n.f.name == "logImplementation" and n.a:
            l = e.lv(n.a[0], st, fr)
            ev = {x: e.load(st, vg.F(l, "sm::logging::LoggingEvent::" + x)) for x in ("streamName", "level", "file", "line", "function", "message")}
            m = ev["message"]
            body = e.load(st, m.args[0].args[0]) if m.op == "ptr" and m.args[0].op == "E" else None
            snaps.append((st.pc, n.f, ev, body))
        return None
    e = vg.Engine(P)
    e.models = [hook]
    r = e.root(f)
    out.analysed(functions=[x.q for x in e.inlined if getattr(x, "mine", False)] + [f.q], events=[len(snaps)])

    def ok(t):      # nothing fails
        return subst(t, {x: FALSE for x in vg.order(t) if x.op == "throws"})
    bad = lambda key, msg: out.violation("print." + key, f.q, f.where, msg)
    if not snaps:
        bad("none", "no event is handed to the logger")
        return
    shut = e.load(vg.St(), vg.F(vg.THIS, "sm::logging::LoggingGlobals::_shutting_down"))
    pcs = [ok(p) for p, _, _, _ in snaps]
    busy = sorted({x for p in pcs for x in atoms_of(p) if "_printing_thread_id" in show(x, 6)}, key=lambda x: x.id)
    want = not_(shut)
    anyone = or_(*pcs) if len(pcs) > 1 else pcs[0]
    if len(busy) != 1:
        bad("guard", "the message is handed to the logger when %s" % show(anyone, 6)[:400])
        return
    same_thread = [w for w in (and_(want, busy[0]), and_(want, not_(busy[0]))) if equiv.same(anyone, w)]
    if not same_thread:
        bad("guard", "the message is handed to the logger when %s, not whenever the system is up and this thread is not printing" % show(anyone, 6)[:400])
    for i in range(len(pcs)):
        for j in range(i):
            if not equiv.same(and_(pcs[i], pcs[j]), FALSE):
                bad("twice", "an event is handed to the logger twice")
    stream = [i for i, p in enumerate(f.ps) if "vectorstream" in (p.t.q if hasattr(p.t, "q") else str(p.t))]
    order = ["streamName", "level", "file", "line", "function"]
    pos = [i for i in range(len(f.ps)) if i not in stream]
    for pc, g, ev, body in snaps:
        for x, i in zip(order, pos):
            if not equiv.same(ev[x], mk("arg", i), pc):
                bad("field", "the event's %s is %s, not the one given" % (x, show(ev[x], 5)[:200]))
        if body is None or not (ev["message"].args[0].args[1] is ZERO):
            bad("message", "the event's message is %s" % show(ev["message"], 5)[:200])
        elif stream:
            src = [t for t in vg.order(body) if t.op == "call" and vg.obj("p%d" % stream[0]) in vg.order(t)]
            if not src or body.op == "push" and body.args[1] is not ZERO or body in [mk("out", num(i), t) for t in src for i in range(2)] or "insert" not in show(body, 2) and "resize" not in show(body, 2) and body.op != "push":
                bad("message", "the event's message is %s, not the text of the stream and a terminating zero" % show(body, 5)[:300])
    if not stream:
        formatted(out, e, f, bad)


def formatted(out, e, f, bad):
    """the last vsnprintf on every path has room for the whole text"""
    calls = [x for x in e.events if x.fn is not None and getattr(x.fn, "name", "") in ("vsnprintf", "__builtin_vsnprintf")]
    if not calls:
        raise Broken("no vsnprintf in " + f.q)
    T = mk("total")
    fmt = mk("arg", len(f.ps) - 1)
    fits = FALSE
    used = {}
    for x in calls:
        if x.args[2] is not fmt:
            bad("format", "the message is formatted with %s, not the format given" % show(x.args[2], 4))
        for k, pc in used.items():
            if k is x.args[3] and not equiv.same(and_(pc, x.pc), FALSE):
                bad("arguments", "the message is formatted twice from the same va_list")
        used[x.args[3]] = x.pc
    tot = {t: T for x in calls for t in [x.term] if t is not None}

    def plain(t):
        for _ in range(3):
            m = dict(tot)
            for y in vg.order(t):
                if y.op == "call" and y.args[0] == "vsnprintf":
                    m[y] = T
            t = subst(t, m)
            m = {y: y.args[0].args[-1] for y in vg.order(t) if y.op == "size" and "resize" in show(y.args[0], 1)}
            t = subst(t, m)
        return t
    later = FALSE
    for x in reversed(calls):
        pc = and_(plain(x.pc), not_(later))
        room = lt(T, plain(x.args[1]), True)
        if not equiv.same(and_(pc, not_(room)), FALSE):
            w = equiv.where_differ(and_(pc, not_(room)), FALSE)[0]
            bad("truncated", "the message is formatted into %s characters, which may not hold all of it: when %s" % (show(plain(x.args[1]), 5), w[:300]))
        later = or_(later, plain(x.pc))
    out.analysed(calls=[len(calls)])


# ------------------------------------------------------------ the macros
EXT = ("arg", "c1", "c2", "slow", "name", "broken")
LOC = "sm::logging::LogLocation::"


class Site:
    """what the runs of one log statement do; LoggingGlobals is replaced by its contract (L06)"""

    def __init__(self, P, f):
        self.f, self.k = f, 0
        self.prints, self.asked, self.locs = [], [], []
        e = self.e = vg.Engine(P)
        e.models = [self.model]
        self.st = vg.St()
        fr = vg.Frame(f, None, None)
        for n in walk(f.body):
            if n.k == "decl":
                for v in n.v or ():
                    if v.d is not None and v.d.staticlocal and v.i is not None:
                        e.construct(v.i, mk("glob", v.d), self.st, fr)

    def field(self, st, l, x):
        return self.e.load(st, vg.F(l, LOC + x))

    def enabled(self, st, l):
        return lift(lambda lv, nm: node(mk("enabled", self.k, lv, nm), TRUE, FALSE), self.field(st, l, "_level"), self.field(st, l, "_streamName"))

    def model(self, e, n, st, fr):
        f = n.f
        cls = f.cls.q if f.cls is not None else ""
        if n.o is None and f.name in EXT and not n.a:
            self.asked.append((self.k, f.name, st.pc))
            if f.name in ("c1", "c2", "slow"):
                return node(mk("says", f.name, self.k), TRUE, FALSE), False
            return (VOID if f.name == "broken" else mk("says", f.name, self.k)), False
        if f.name == "currentTimeSecondsUtc":
            return mk("now", self.k), False
        if not cls.endswith("LoggingGlobals") and "LoggingGlobals" not in f.q:
            return None
        if f.name in ("initializeLogLocation", "setLogLocationLevel", "checkLogLocationEnabled"):
            l = vg.deref(e.rv(n.a[0], st, fr))
            a = [e.rv(x, st, fr) for x in n.a[1:]]
            if l not in self.locs:
                self.locs.append(l)
            if f.name == "setLogLocationLevel":
                e.store(st, vg.F(l, LOC + "_level"), a[0])
            elif f.name == "checkLogLocationEnabled":
                e.store(st, vg.F(l, LOC + "_loggerEnabled"), self.enabled(st, l))
            else:
                was = tobool(self.field(st, l, "_initialized"))
                s = st.copy()
                e.store(s, vg.F(l, LOC + "_streamName"), a[0])
                e.store(s, vg.F(l, LOC + "_level"), a[1])
                e.store(s, vg.F(l, LOC + "_loggerEnabled"), self.enabled(s, l))
                e.store(s, vg.F(l, LOC + "_initialized"), TRUE)
                for x in ("_streamName", "_level", "_loggerEnabled", "_initialized"):
                    q = vg.F(l, LOC + x)
                    e.store(st, q, ite(was, e.load(st, q), e.load(s, q)))
            return VOID, False
        if f.name == "print":
            pos = {}
            for i, p in enumerate(f.ps):
                pos["stream" if "vectorstream" in (p.t or "") else p.name] = i
            vals = []
            for i, x in enumerate(n.a):
                if i == pos.get("stream"):
                    vals.append(e.load(st, e.lv(x, st, fr)))
                else:
                    vals.append(e.rv(x, st, fr))
            stream = pos.get("stream")
            plain = [v for i, v in enumerate(vals) if i != stream]
            self.prints.append(dict(k=self.k, pc=st.pc, name=plain[0], level=plain[1], file=plain[2], line=plain[3], function=plain[4],
                                    text=[vals[stream]] if stream is not None else plain[5:], stream=stream is not None, at=n))
            return VOID, False
        return None

    def run(self, args):
        self.k += 1
        for l in self.locs:     # as the registry would have it by now
            q = vg.F(l, LOC + "_loggerEnabled")
            self.st.mem[q] = ite(tobool(self.field(self.st, l, "_initialized")), self.enabled(self.st, l), self.e.load(self.st, q))
        self.st.pc = TRUE
        r = self.e.root(self.f, args=args, st=self.st)
        self.st = r.st
        return r


def l03(out):
    out.rule("Every log macro is used in a function of its own and three successive executions are composed, with the registry of statements replaced by its contract (L06): the k-th execution must print exactly when the "
             "statement is enabled then and its condition holds / it has not printed before / its period has passed since it last printed, once, with its own severity, stream name, place and text; its arguments are "
             "evaluated exactly then, its condition only if enabled. With each minimum severity, the statements below it evaluate nothing at all and the others are complete.")
    import os
    from ..sa.facts import VERIF
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    gens = []
    try:
        for k in range(12):
            g = os.path.join(VERIF, "build", "log_macros.%d.%d.cpp" % (os.getpid(), k))
            gens.append(g)
            with open(g, "w") as fh:
                fh.write("#define SMCONSOLE_MIN_SEVERITY %d\n#define CONF conf%d\n#include \"%s/witness/log_macros.inc\"\n" % (k, k, VERIF))
        P = Program([r"^log macros "], extra=[("log macros %d" % k, g, []) for k, g in enumerate(gens)])
    finally:
        for g in gens:
            if os.path.exists(g):
                os.unlink(g)
    fs = {}
    for f in P.functions():
        m = re.match(r"conf(\d+)::(\w+)::(\w+)$", f.q or "")
        if m and f.body is not None:
            fs[int(m.group(1)), m.group(2), m.group(3)] = f
    sev = [n.upper() for n in ORDER]
    for (k, lv, var), f in sorted(fs.items()):
        out.analysed(statements=["%s.%s at minimum %d" % (lv, var, k)] if k == 0 else [], configurations=["%d" % k])
        own = sev.index(lv) if lv in sev else sev.index("INFO") if lv == "NAMES" else None
        if own is not None and own < k:
            calls = [n for n in walk(f.body) if n.k in ("call", "new", "ctor")]
            if calls:
                out.violation("macro.below", "SM_%s %s" % (lv, var), f.where, "with SMCONSOLE_MIN_SEVERITY at %d the statement still calls %s" % (k, calls[0].f.q if calls[0].f is not None else "something"))
        elif k == 0:
            if lv == "ASSERTS":
                asserted(out, P, f, var)
            else:
                statement(out, P, f, lv, var, own)
        elif own is not None:
            a, b = [[n.f.q for n in walk(x.body) if n.k == "call" and n.f is not None] for x in (f, fs[0, lv, var])]
            if a != b:
                out.violation("macro.configuration", "SM_%s %s" % (lv, var), f.where, "with SMCONSOLE_MIN_SEVERITY at %d the statement is not what it is without" % k)
    if (0, "INFO", "plain") not in fs:
        raise Broken("no log statements")


def statement(out, P, f, lv, var, own):
    s = Site(P, f)
    title = ("SM_%s" % lv if lv not in ("ANY", "NAMES") else "SM_LOG" if lv == "ANY" else "SM_INFO") + " %s" % var
    bad = lambda key, msg: out.violation("macro." + key, title, f.where, msg)
    levels = next(x for x in P.enums if x.q == "sm::logging::levels::Level")
    num_of = {c.name: num(int(c.v)) for c in levels.consts}
    named = "named" in var or lv == "ANY"
    printed_before = FALSE
    last = num(0)
    stream1 = None
    for k in (1, 2, 3):
        args = {i: mk("given", p.name, k) for i, p in enumerate(f.ps)}
        for i, p in enumerate(f.ps):
            if vg.bare(p.t) == "bool":
                args[i] = node(mk("given", p.name, k), TRUE, FALSE)
        s.run(args)
        if stream1 is None:
            nm = mk("says", "name", 1)
            stream1 = nm if lv == "ANY" else cat(string("sm."), nm) if named else string("sm")
        level = ite(args[0], num_of["Warn"], num_of["Finest"]) if lv == "ANY" else num_of[ORDER[own]]
        E = lift(lambda l: node(mk("enabled", k, l, stream1), TRUE, FALSE), level)
        if "cond" in var:
            c = args[0] if lv == "NAMES" else or_(node(mk("says", "c1", k), TRUE, FALSE), node(mk("says", "c2", k), TRUE, FALSE))
            want = and_(E, c)
        elif "once" in var:
            want = and_(E, not_(printed_before))
        elif "throttle" in var:
            rate = num(100) if lv == "NAMES" else ite(node(mk("says", "slow", k), TRUE, FALSE), num(100), num(2))
            now = mk("now", k)
            due = lift(lambda l, r: not_(lt(now, add(l, r))), last, rate)
            want = and_(E, due)
            last = ite(want, now, last)
        else:
            want = E
        printed_before = or_(printed_before, want)
        pr = [p for p in s.prints if p["k"] == k]
        anyone = FALSE
        for p in pr:
            if not equiv.same(and_(anyone, p["pc"]), FALSE):
                bad("twice", "execution %d prints twice" % k)
            anyone = or_(anyone, p["pc"])
        if not equiv.same(anyone, want):
            w, x, y = equiv.where_differ(anyone, want)
            bad("when", "execution %d of the statement, when %s: prints = %s instead of %s" % (k, w[:500], show(x, 4), show(y, 4)))
            return
        for p in pr:
            if not equiv.same(p["level"], level, p["pc"]):
                bad("severity", "prints with severity %s instead of %s" % (show(p["level"], 4), show(level, 4)))
            if not equiv.same(p["name"], stream1, p["pc"]):
                bad("stream", "prints on stream %s instead of %s" % (show(p["name"], 5), show(stream1, 5)))
            if p["stream"] != ("stream" in var):
                raise Broken("cannot tell the text printed by " + title)
            val = mk("says", "arg", k) if lv != "NAMES" else args[len(f.ps) - 1]
            text = p["text"]
            if p["stream"]:
                inside = [t for t in vg.order(text[0])]
                ok = val in inside and any(t.op == "str" and t.args[0] == "n" or t is num(ord("n")) for t in inside)
            else:
                ok = len(text) == 2 and text[0] is string("%d") and text[1] is val
            if not ok:
                bad("text", "prints %s instead of its arguments" % ", ".join(show(t, 6)[:200] for t in text))
            if p["line"] is not num(int(f.where.rsplit(":", 1)[1])) and p["line"].op == "num":
                bad("place", "prints line %s instead of %s" % (show(p["line"]), f.where.rsplit(":", 1)[1]))
            if p["file"].op == "str" and not p["file"].args[0].endswith("log_macros.inc"):
                bad("place", "prints file %s" % show(p["file"]))
        asked = [(n, pc) for kk, n, pc in s.asked if kk == k]
        if lv != "NAMES":
            pcs = [pc for n, pc in asked if n == "arg"]
            t = FALSE
            for pc in pcs:
                if not equiv.same(and_(t, pc), FALSE):
                    bad("evaluated", "execution %d evaluates an argument twice" % k)
                t = or_(t, pc)
            if not equiv.same(t, want):
                bad("evaluated", "execution %d evaluates the arguments when %s, not exactly when the message is printed" % (k, show(t, 6)[:300]))
        for n, pc in asked:
            if n in ("c1", "c2", "slow") and not equiv.same(and_(pc, not_(E)), FALSE):
                bad("evaluated", "execution %d evaluates its condition or period when the statement is disabled" % k)
        cs = [pc for n, pc in asked if n == "c1"]
        if len(cs) > 1 and any(not equiv.same(and_(cs[0], x), FALSE) for x in cs[1:]):
            bad("evaluated", "execution %d evaluates its condition twice" % k)


def asserted(out, P, f, var):
    s = Site(P, f)
    title = {"command": "SM_ASSERT_CMD", "plain": "SM_ASSERT", "message": "SM_ASSERT_MSG"}[var]
    c = or_(node(mk("says", "c1", 1), TRUE, FALSE), node(mk("says", "c2", 1), TRUE, FALSE))
    r = s.run({})
    acts = [pc for k, n, pc in s.asked if n == "broken"] if var == "command" else [p["pc"] for p in s.prints]
    t = FALSE
    for x in acts:
        t = or_(t, x)
    if var != "command":        # whether it is printed is up to the log statement
        en = {a: TRUE for a in atoms_of(t) if a.op == "enabled"}
        t = cof_all(t, en)
    if not equiv.same(t, not_(c)):
        w, x, y = equiv.where_differ(t, not_(c))
        out.violation("assert.when", title, f.where, "when %s: acts = %s instead of %s" % (w[:300], show(x, 3), show(y, 3)))
    if len([1 for k, n, pc in s.asked if n == "c1"]) != 1:
        out.violation("assert.evaluated", title, f.where, "the condition is not evaluated exactly once")


def cof_all(t, m):
    return subst(t, {a: v for a, v in m.items()})


CHECKS = {"L03": l03, "L04": l04, "L06": l06}
