"""S02: objects in files. The file system is a list of what was done to it; a stream is good or not depending on that list."""
import re
import sys
from ..sa import equiv, vg
from ..sa.facts import Broken, Program
from ..sa.terms import *
sys.setrecursionlimit(20000)

DONE = vg.obj("filesystem")
STREAM = re.compile(r"(const )?(std::(__cxx11::)?basic_([io]?)fstream<.*>|std::([io]?)fstream|boost::filesystem::(basic_)?([io]?)fstream(<.*>)?)$")
ARCHIVE = re.compile(r"(const )?boost::archive::(\w+?)_([io])archive$")


def did(st, *item):
    old = st.mem.get(DONE, mk("did"))
    st.mem[DONE] = lift(lambda o, *vs: mk("did", *o.args, mk(*item[:1], *vs)), old, *[x if isinstance(x, T) else mk("word", x) for x in item[1:]])


def direction(m):
    d = next((g for g in (m.group(4), m.group(5), m.group(7)) if g is not None), "")
    return {"i": "in", "o": "out"}.get(d, "inout")


def model(e, n, st, fr):
    f = n.f
    q = f.q or ""
    if "filesystem" in q and re.search(r"::path::(string|native|c_str|generic_string)$", q) or re.search(r"::basic_string<.*::(c_str|data)$", q) and n.o is not None \
            and "filesystem" in vg.bare(n.o.t or ""):
        return e.load(st, e.recv_loc(n, st, fr)), False
    if re.search(r"serialization::make_nvp(<.*>)?$", q):
        return mk("nvp", e.rv(n.a[0], st, fr), e.lv(n.a[1], st, fr)), False
    if n.o is None and not (f.name or "").startswith("operator"):
        return None
    o = n.o
    t = vg.bare(o.t) if o is not None else ""
    while o is not None and not ARCHIVE.match(t) and not STREAM.match(t) and o.k in ("cast", "paren", "impl") and o.e is not None:
        o = o.e
        t = vg.bare(o.t)
    m = ARCHIVE.match(t)
    if m and f.name in ("operator<<", "operator>>", "operator&"):
        l = e.recv_loc(n, st, fr)
        a = n.a[0]
        v = e.rv(a, st, fr)
        tag = mk("untagged")
        x = e.lv(a, st, fr)
        if v.op == "nvp":
            tag, x = v.args
        if (f.name == "operator>>") != (m.group(3) == "i") and f.name != "operator&":
            did(st, "wrongway")
        elif m.group(3) == "o":
            did(st, "put", e.load(st, l), tag, e.load(st, x))
        else:
            # boost does not compare the outermost tag with the one read
            did(st, "get", e.load(st, l), "named" if v.op == "nvp" else "unnamed")
            e.store(st, x, lift(lambda d: mk("stored", d), st.mem[DONE]))
        return l, True
    m = STREAM.match(t)
    if m:
        if f.name in ("good", "is_open", "operator bool", "operator!", "fail", "bad"):
            e.recv_loc(n, st, fr)
            ok = lift(lambda d: node(mk("call", "good", d), TRUE, FALSE), st.mem.get(DONE, mk("did")))
            return (not_(ok) if f.name in ("operator!", "fail", "bad") else ok), False
        if f.name in ("flush", "close", "sync"):
            l = e.recv_loc(n, st, fr)
            flushed(st)
            return (l, True) if f.name == "flush" else (VOID, False)
        if f.name == "open":
            l = e.recv_loc(n, st, fr)
            opened(e, n, n.a, direction(m), l, st, fr)
            return VOID, False
        raise Broken("%s of a file stream is not modelled" % f.name)
    return None


def flushed(st):
    old = st.mem.get(DONE, mk("did"))
    if any(d.args and d.args[-1].op != "flush" for d in leafset(old)):
        st.mem[DONE] = lift(lambda o: o if o.args and o.args[-1].op == "flush" else mk("did", *o.args, mk("flush")), old)


def bits(v):
    """the openmode that a term stands for: app 1, ate 2, binary 4, in 8, out 16, trunc 32"""
    if v.op == "num":
        return int(v.args[0])
    if v.op == "call" and str(v.args[0]).startswith("std::operator|"):
        xs = [bits(x) for x in v.args[1:] if isinstance(x, T)]
        if None not in xs:
            r = 0
            for x in xs:
                r |= x
            return r
    return None


def opened(e, n, args, way, l, st, fr):
    a = [x for x in args if x.k != "defarg"]
    p = e.rv(a[0], st, fr)
    mode = mk("word", "plain")
    if len(a) > 1:
        v = e.rv(a[1], st, fr)
        b = bits(v)
        # there is no difference between binary and text files here, and an output file is truncated in any case
        mode = v if b is None else mk("word", "plain" if not b & ~(4 | {"in": 8, "out": 16 | 32}.get(way, 0)) else "mode %d" % (b & ~4))
    did(st, "open", way, p, mode)
    e.store(st, l, lift(lambda d: mk("stream", d), st.mem[DONE]))


def made(e, n, l, st, fr):
    t = vg.bare(n.t)
    m = STREAM.match(t)
    if m:
        if [x for x in n.a if x.k != "defarg"]:
            opened(e, n, n.a, direction(m), l, st, fr)
        else:
            e.store(st, l, mk("stream", mk("closed")))
        return True
    m = ARCHIVE.match(t)
    if m:
        s = e.load(st, e.lv(n.a[0], st, fr))
        flags = [e.rv(x, st, fr) for x in n.a[1:] if x.k != "defarg"]
        flags = [x for x in flags if x is not ZERO]
        did(st, "begin", m.group(2) + "_" + m.group(3), s, *flags)
        e.store(st, l, lift(lambda d: mk("archive", d), st.mem[DONE]))
        return True
    return False


def ended(e, d, l, st, fr):
    t = vg.bare(d.t or "")
    m = ARCHIVE.match(t)
    if m and m.group(3) == "o":
        did(st, "end", m.group(2) + "_" + m.group(3))
    m = STREAM.match(t)
    if m and direction(m) == "out":
        flushed(st)


model.made = made
model.ended = ended


def s02(out):
    out.rule("The file system is a list of what was done to it: files opened, archives of a kind begun on a stream and ended, objects put with a tag, buffers flushed. "
             "A stream is good or not depending on that list, and an object read is determined by it. For every object, path and tag, each function must do what its counterpart in the "
             "witness does: the same list under the same conditions, the same outcome when a stream is not good, and the object read stored in the caller's.")
    P = Program([r"witness/object_files\.cpp"])
    for p in equiv.pairs(P, "object_files.cpp"):
        out.analysed(pairs=[p.name])
        equiv.decide(out, P, p, models=[model], throws=True)


CHECKS = {"S02": s02}
