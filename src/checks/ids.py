"""C01: identifier types, decided as equalities of gated values."""
import re
from ..sa import equiv, vg
from ..sa.facts import Broken, Program, body_nodes
from ..sa.narrow import narrowing
from ..sa.terms import *
from ..sa.terms import subterms

RULE = ("Each pair of witness functions names an operation of an identifier built from a value (lhs) and what it must yield in terms of that value (rhs); "
        "their gated values must be the same terms. A hash must be a term over nothing but the identifier's value and constants.")


def c01(out):
    out.rule(RULE)
    P = Program([r"witness/eq_ids\.cpp", r"^sm_common/src/hash_id"])
    for p in equiv.pairs(P, "eq_ids.cpp"):
        out.analysed(pairs=[p.name])
        equiv.decide(out, P, p)
    for f in P.functions():
        if f.name and f.name.startswith("drawn_") and (f.rel or "").endswith("eq_ids.cpp"):
            fresh(out, P, f)
        if f.name and f.name.startswith("val_") and (f.rel or "").endswith("eq_ids.cpp"):
            out.analysed(hashes=[f.name[4:]])
            r = equiv.run(P, f)
            for t in subterms(r.value):
                why = None
                if t.op == "undef":
                    why = "a value that was never set"
                elif t.op in ("ptr", "it"):
                    why = "an address"
                elif t.op == "init":
                    x = t.args[0]
                    while x.op in ("F", "E"):
                        x = x.args[0]
                    if x.op == "glob" and not (x.args[0].t or "").startswith("const "):
                        why = "the variable " + x.args[0].q
                    elif x.op == "in":
                        why = show(x)
                elif t.op == "call" and not re.search(r"hash", str(t.args[0])):
                    why = "a call of " + str(t.args[0])
                if why:
                    g = equiv.target(P, f)
                    out.violation("hash.inputs", g.q, g.where, "%s: the hash depends on %s" % (f.name[4:], why))
                    break


# ------------------------------------------------------------ hexadecimal text
HEX = "0123456789abcdefABCDEF"


def parts(v):
    return [y for x in v.args for y in parts(x)] if v.op == "cat" else [v]


def fold(t, m):
    """t with m substituted, and what is then constant computed"""
    t = subst(t, m)
    for _ in range(6):
        k = {}
        for x in vg.order(t):
            a = x.args
            if x.op == "call" and isinstance(a[0], str) and len(a) == 2 and getattr(a[1], "op", "") == "num":
                c = int(a[1].args[0]) & 255
                n = a[0].split("::")[-1]
                if n in ("isxdigit", "isdigit", "isalpha", "isupper", "islower", "isalnum"):
                    ch = chr(c) if c < 128 else "\0"
                    v = dict(isxdigit=ch in HEX, isdigit=ch.isdigit(), isalpha=ch.isalpha(), isupper=ch.isupper(), islower=ch.islower(), isalnum=ch.isalnum())[n]
                    k[x] = num(1 if v else 0)
                elif n in ("tolower", "toupper"):
                    ch = chr(c) if c < 128 else "\0"
                    k[x] = num(ord(ch.lower() if n == "tolower" else ch.upper()) if c < 128 else c)
            elif x.op.startswith("op") and all(getattr(y, "op", "") == "num" for y in a) and len(a) == 2:
                p, q = [int(y.args[0]) for y in a]
                o = x.op[2:]
                if o in ("&", "|", "^", "<<", ">>"):
                    k[x] = num({"&": p & q, "|": p | q, "^": p ^ q, "<<": p << q, ">>": p >> q}[o])
            elif x.op == "idiv" and all(getattr(y, "op", "") == "num" for y in a):
                k[x] = num(int(a[0].args[0]) // int(a[1].args[0]))
            elif x.op == "irem" and all(getattr(y, "op", "") == "num" for y in a):
                k[x] = num(int(a[0].args[0]) % int(a[1].args[0]))
            elif x.op == "elem" and a[0].op == "chr" and a[1] is ZERO:
                k[x] = a[0].args[0]
            elif x.op == "elem" and a[0].op == "cat" and a[1].op == "num":
                flat = parts(a[0])
                if all(y.op in ("chr", "str") for y in flat):
                    cs = [c for y in flat for c in ([y.args[0]] if y.op == "chr" else [num(ord(c)) for c in y.args[0]])]
                    if a[1].args[0] < len(cs):
                        k[x] = cs[int(a[1].args[0])]
            elif x.op == "elem" and a[0].op == "str" and a[1].op == "num":
                i = int(a[1].args[0])
                k[x] = num(ord(a[0].args[0][i]) if i < len(a[0].args[0]) else 0)
        if not k:
            break
        t = subst(t, k)
    return t


def c03(out):
    out.rule("The two functions are unrolled over the bytes into gated values. Each character written must be a function of its own half byte that yields that hexadecimal digit for all values; the bytes read, from "
             "text of 32 characters only, must each be the number their own two digits spell, behind a test that refuses every other character, before which nothing is changed and nothing can throw.")
    P = Program([r"witness/hash_hex\.cpp", r"^sm_common/src/hash_id"])
    W = {f.name: f for f in P.functions() if (f.rel or "").endswith("hash_hex.cpp")}
    h, text = vg.obj("p0"), mk("init", vg.obj("p1"))

    F = e_fields(P)

    def byte(e, st, i):
        return e.load(st, vg.E(vg.F(vg.F(h, F[0]), F[1]), num(i)))
    start = [byte(vg.Engine(P), vg.St(), i) for i in range(16)]
    # writing
    e = vg.Engine(P)
    r = e.root(W["encode"])
    tgt = equiv.target(P, W["encode"])
    out.analysed(functions=[tgt.q])
    v = r.value
    chars = [vg.elem(v, num(i)) for i in range(32)]
    if any(start[i] not in vg.order(chars[2 * i]) and start[i] not in vg.order(chars[2 * i + 1]) for i in range(16)) and not any(b in vg.order(v) for b in start):
        raise Broken("cannot follow " + tgt.q + ": " + show(v, 4))
    case = None
    for k in range(32):
        b = start[k // 2]
        out.analysed(digits=["character %d" % k])
        for x in range(256):
            d = (x >> 4) if k % 2 == 0 else x & 15
            t = fold(chars[k], {b: num(x)})
            c = chr(int(t.args[0])) if t.op == "num" and 0 <= t.args[0] < 128 else None
            if c is not None and c.isalpha():
                case = case or ("u" if c.isupper() else "l")
            if c is None or c not in HEX or int(c, 16) != d or c.isalpha() and case != ("u" if c.isupper() else "l"):
                out.violation("hex.encode", tgt.q, tgt.where, "when byte %d is 0x%02x, character %d of the text is %s" % (k // 2, x, k, repr(c) if c else show(t, 5)))
                break
    # reading
    e = vg.Engine(P)
    r = e.root(W["decode"])
    tgt = equiv.target(P, W["decode"])
    out.analysed(functions=[tgt.q])
    bad = lambda key, msg: out.violation("hex." + key, tgt.q, tgt.where, msg)
    v = tobool(r.value)
    size = mk("size", text)
    right = e.numeq(size, num(32))
    w = and_(v, not_(right))
    if w is not FALSE:
        bad("length", "text of another length is accepted when %s" % show(w, 5)[:300])
        return
    after = [byte(e, r.st, i) for i in range(16)]
    for i in range(16):
        if not equiv.same(after[i], start[i], not_(v)):
            x = equiv.where_differ(after[i], start[i], not_(v))
            bad("partial", "byte %d is changed although the text is refused: when %s" % (i, x[0][:400]))
            break
    for s in r.throws:
        if s[0].pc is not FALSE:
            bad("throws", "ends with an exception when %s" % show(s[0].pc, 5)[:300])
            break
    V = subst(v, {size: num(32)})
    V = subst(V, {t: FALSE for t in atoms_of(V) if t.op == "throws"})
    els = {i: vg.elem(text, num(i)) for i in range(32)}
    conv = [x for x in e.events if x.fn is not None and re.match(r"(std::)?(sto\w+|strto\w+|ato\w|sscanf)$", getattr(x.fn, "q", "") or "")]
    for x in conv:
        if "sto" in x.fn.name and not x.fn.name.startswith("str") and not equiv.same(and_(x.pc, not_(v)), FALSE) and not any(t.op == "throws" for t in atoms_of(v)):
            bad("unguarded", "%s is called with text that is not known to be hexadecimal: it throws, or takes signs and blanks" % x.fn.q)
            break
    checked = validator(V)
    if checked is not None:
        if set(checked) != set(HEX):
            wrong = sorted(set(checked) ^ set(HEX))
            bad("digits", "the characters accepted are not exactly the hexadecimal digits: %s" % " ".join(wrong))
    elif V is TRUE or not any(t is text for t in vg.order(V)):
        bad("unchecked", "any text of 32 characters is accepted")
    elif any(x in vg.order(V) for x in els.values()):
        ok = {x: num(ord("0")) for x in els.values()}
        for i in range(32):
            one = subst(V, {x: c for x, c in ok.items() if x is not els[i]})
            for c in range(256):
                t = tobool(fold(one, {els[i]: num(c)}))
                if t not in (TRUE, FALSE):
                    t2 = tobool(fold(one, {els[i]: num(c - 256)})) if c > 127 else t
                    if t2 not in (TRUE, FALSE):
                        raise Broken("cannot tell which characters %s accepts: %s" % (tgt.q, show(t, 5)[:300]))
                    t = t2
                if (t is TRUE) != (c < 128 and chr(c) in HEX):
                    bad("digits", "character %s is %s at position %d" % (repr(chr(c)), "accepted" if t is TRUE else "refused", i))
                    break
            else:
                continue
            break
    for i in range(16):
        t = subst(constrain(after[i], v), {size: num(32)}) if v is not FALSE else after[i]
        out.analysed(digits=["byte %d" % i])
        want = [mk("call", n, vg.substr(text, num(2 * i), num(2)), z, num(16)) for n in ("std::stoul",) for z in (ZERO,)]
        if any(t is x for x in want):
            continue
        sub = [x for x in vg.order(t) if x.op == "call" and isinstance(x.args[0], str) and re.search(r"sto\w+$", x.args[0])]
        if sub:
            x = sub[0]
            if x.args[1] is not vg.substr(text, num(2 * i), num(2)) or x.args[-1] is not num(16):
                bad("decode", "byte %d is read as %s, not from its own two digits" % (i, show(t, 6)))
                break
            continue
        a, b = els[2 * i], els[2 * i + 1]
        if a not in vg.order(t) and b not in vg.order(t):
            if t is start[i] or not any(y is text for y in vg.order(t)) :
                bad("decode", "byte %d becomes %s, whatever its digits are" % (i, show(t, 6)))
                break
            continue
        for c in HEX:
            for d in HEX:
                y = fold(t, {a: num(ord(c)), b: num(ord(d))})
                if y.op == "num" and int(y.args[0]) & 255 != int(c + d, 16) or y.op != "num" and not any(z.op in ("call", "init", "unk") for z in vg.order(y)):
                    bad("decode", "byte %d is %s when its digits are %s" % (i, show(y, 4), c + d))
                    break
            else:
                continue
            break
        else:
            continue
        break


def e_fields(P):
    for r in P.records:
        if r.q == "sm::HashId":
            f = next((x for x in r.fields if "HashVal" in (x.t or "")), None)
            u = next((x for x in P.records if x.q == "sm::HashId::HashVal"), None)
            if f is not None and u is not None:
                c = next((x for x in u.fields if "char" in x.t), None)
                if c is not None:
                    return f.q, c.q
    raise Broken("no bytes in sm::HashId")


def validator(V):
    """the characters a test of the whole text lets pass, if it is one"""
    for t in atoms_of(V):
        for x in vg.order(t):
            if x.op == "call" and isinstance(x.args[0], str) and x.args[0].endswith("find_first_not_of"):
                s = [y for y in x.args[1:] if getattr(y, "op", "") == "str"]
                if s and V is not FALSE:
                    pos = x.args[3] if len(x.args) > 3 else ZERO
                    return s[0].args[0] if pos is ZERO else s[0].args[0] + "?"
    if "isxdigit" in show(V, 30) and not any(t.op == "elem" and t.args[1].op == "num" for t in vg.order(V)):
        return HEX
    return None


# ------------------------------------------------------------ text helpers
def fresh(out, P, f):
    """both halves of a random identifier are draws, each one of its own, whatever it was before"""
    r = equiv.run(P, f)
    g = equiv.target(P, f)
    out.analysed(obligations=1)
    halves = [vg.proj(r.value, k) for k in ("first", "second")]
    for k, h in zip(("first", "second"), halves):
        ts = list(subterms(h))
        if not any(t.op == "call" and str(t.args[0]).endswith("operator()") for t in ts):
            out.violation("id.random", g.q, g.where, "%s: the %s half is %s, which no random generator was asked for" % (f.name[6:], k, show(h, 6)[:200]))
        elif any(t.op in ("undef", "init") and show(t).find("p0") >= 0 for t in ts):
            out.violation("id.random", g.q, g.where, "%s: the %s half depends on what the identifier was before" % (f.name[6:], k))
    draws = [{t for t in subterms(h) if t.op == "call" and str(t.args[0]).endswith("operator()")} for h in halves]
    if draws[0] & draws[1]:
        out.violation("id.random", g.q, g.where, "%s: both halves are the same draw" % f.name[6:])


SETTINGS = {"precision": "precision", "width": "width", "fill": "fill"}
MANIPULATORS = {"setprecision": "precision", "setw": "width", "setfill": "fill"}


def formats(e, n, st, fr):
    """settings of a stream commute, the last one of a kind holds"""
    f = n.f
    if f is None or f.mine:
        return None
    q, a = vg.shortq(f.q or ""), n.a or []
    l = kind = None
    if n.o is not None and f.name in SETTINGS and len(a) == 1 and re.match(r"(std::)?(ios_base|basic_ios)", q):
        l, kind, v = e.recv_loc(n, st, fr), SETTINGS[f.name], e.rv(a[0], st, fr)
        kind, v = (kind, v)
    elif n.o is not None and f.name == "setf" and len(a) == 2 and re.match(r"(std::)?ios_base", q):
        l, kind, v = e.recv_loc(n, st, fr), "floatfield", mk("flags", e.rv(a[0], st, fr), e.rv(a[1], st, fr))
    elif n.o is not None and f.name == "operator<<" and len(a) == 1:
        v = e.rv(a[0], st, fr) if "ios_base &(" in (a[0].t or "").replace("std::", "") else None
        w = re.search(r"fn\((?:std::)?(fixed|scientific)\)", show(v)) if v is not None else None
        if w is None:
            return None
        l, kind, v = e.recv_loc(n, st, fr), "floatfield", mk("floats", w.group(1))
    elif n.o is None and f.name == "operator<<" and len(a) == 2 and re.search(r"std::_Set(w|precision|fill<char>)$", vg.bare(a[1].t or "")):
        v = e.rv(a[1], st, fr)
        if v.op != "call" or len(v.args) != 2:
            return None
        l, kind, v = e.lv(a[0], st, fr), MANIPULATORS[str(v.args[0]).split("<")[0].split("::")[-1]], v.args[1]
    if l is None:
        return None
    if v.op == "flags":
        t = show(v.args[0]) + " " + show(v.args[1])
        w = {"4 260": "fixed", "256 260": "scientific"}.get(t)
        v = mk("floats", w) if w else v
    t = e.load(st, l)
    chain = []
    while t.op == "setting":
        chain.append(t)
        t = t.args[1]
    vals = {c.args[0]: c.args[2] for c in reversed(chain)}
    vals[kind] = v
    for k in sorted(vals):
        t = mk("setting", k, t, vals[k])
    e.store(st, l, t)
    return (l, True) if f.name == "operator<<" else (mk("x", "former", kind), False)


def c02(out):
    out.rule("Each helper must be the same value as one of several spellings of its definition, all of whose loops move on by at least one character per round: the gated values of text, position and remaining skips "
             "after each round, and of the result after the last, are compared as terms.")
    P = Program([r"witness/text_helpers\.cpp"])
    W = {f.name: f for f in P.functions() if (f.rel or "").endswith("text_helpers.cpp")}
    any_spelling(out, P, "text_helpers.cpp", dict(models=[formats]))


def any_spelling(out, P, unit, options):
    """each helper equals its definition rhs_NAME or one of the other spellings alt<k>_NAME of it"""
    W = {f.name: f for f in P.functions() if (f.rel or "").endswith(unit)}
    of = options if callable(options) else lambda p: options
    for p in equiv.pairs(P, unit):
        options = of(p)
        out.analysed(helpers=[p.name])
        for n, f in sorted(W.items()):
            if re.match(r"alt\d+_%s$" % p.name, n):
                t = Trial()
                equiv.decide(t, P, equiv.Pair(P, p.name, p.lhs, f), **options)
                if not t.bad:
                    out.analysed(obligations=1)
                    break
        else:
            equiv.decide(out, P, p, **options)


def c04(out):
    out.rule("Each pair of witness functions names a numeric helper (lhs) and its definition, or one of several spellings of it (rhs): the returned values, the conditions "
             "of normal return and the exceptions must be the same terms. No conversion in these functions is to a type that does not hold every value of the result.")
    out.assumption("floating-point rounding is not modelled; the arguments are not NaN where an ordering is compared")
    P = Program([r"witness/numbers\.cpp"])
    any_spelling(out, P, "numbers.cpp", dict(throws=True, callbacks=True))
    for f in P.functions():
        if not re.search(r"sm_common/include/sm/(round|maths|numerical_comparisons)\.hpp$", f.rel or "") or f.dep:
            continue
        out.analysed(functions=[f.q])
        types = [vg.bare(x.t or "") for x in f.params or ()]
        for n, a, b in narrowing(f):
            if b == "float" and "float" in types or b != "float" and vg.bare(f.rt or "") not in ("long", "long long"):
                continue
            out.violation("number.width", f.q, f.where, "a value is converted from %s to %s, which does not hold every value of the result" % (a, b))
        if vg.bare(f.rt or "") in ("long", "long long"):
            for n in body_nodes(f):
                if n.k == "cast" and n.ck == "IntegralCast" and n.e is not None and n.e.k == "call" and vg.bare(n.e.t or "") == "int":
                    out.violation("number.width", f.q, f.where, "the result passes through a function that returns int, which does not hold every value of it")


class Trial:
    def __init__(self):
        self.bad = False

    def analysed(self, **k):
        pass

    def violation(self, *a, **k):
        self.bad = True


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}
