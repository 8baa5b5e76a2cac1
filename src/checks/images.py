"""S03: images and key points saved to an archive."""
import os
import re
from ..sa import equiv, facts, vg
from ..sa.facts import Broken, Program, walk
from ..sa.terms import *
from . import serial
from .ids import any_spelling

MAT = "cv::Mat::"
NEW = [0]


def F(l, name):
    return vg.F(l, MAT + name if name in ("rows", "cols", "flags", "dims") else name)


def esz(t):
    return mk("call", "bytes of a pixel", t)


def fresh(e, st, l, rows, cols, typ):
    """storage of its own"""
    NEW[0] += 1
    e.store(st, F(l, "rows"), rows)
    e.store(st, F(l, "cols"), cols)
    e.store(st, F(l, "type"), typ)
    e.store(st, F(l, "continuous"), TRUE)
    e.store(st, F(l, "step"), mul(cols, esz(typ)))
    e.store(st, F(l, "present"), TRUE)
    e.store(st, F(l, "pixels"), mk("unset", num(NEW[0])))


def get(e, st, l, name):
    if l.op == "ite":
        return ite(l.args[0], get(e, st, l.args[1], name), get(e, st, l.args[2], name))
    v = e.load(st, F(l, name))
    return tobool(v) if name in ("continuous", "present") else v


def stepof(e, st, l):
    """a single row counts as continuous whatever the distance to the next row of the image it is a part of"""
    whole = and_(get(e, st, l, "continuous"), not_(e.numeq(get(e, st, l, "rows"), ONE)))
    return ite(whole, mul(get(e, st, l, "cols"), esz(get(e, st, l, "type"))), get(e, st, l, "step"))


FIELDS = ("rows", "cols", "type", "continuous", "step", "present", "pixels")


def copy(e, st, src, dst):
    for k in FIELDS:
        e.store(st, F(dst, k), get(e, st, src, k))


def base(l):
    """the image that a part belongs to"""
    return l.args[0] if l.op == "F" else None


class Images:
    """what the members of cv::Mat do"""

    def __init__(self):
        self.blocks = []

    def made(self, e, n, l, st, fr):
        if vg.bare(n.t or "") != "cv::Mat":
            return False
        a = n.a or ()
        if len(a) == 0:
            e.store(st, F(l, "rows"), ZERO)
            e.store(st, F(l, "cols"), ZERO)
            e.store(st, F(l, "present"), FALSE)
            return True
        if len(a) == 3:
            fresh(e, st, l, *[e.rv(x, st, fr) for x in a])
            return True
        if len(a) == 1 and vg.bare(a[0].t) == "cv::Mat":
            copy(e, st, e.lv(a[0], st, fr), l)
            return True
        return False

    def __call__(self, e, n, st, fr):
        f = n.f
        q = vg.shortq(f.q)
        if q.endswith("serialization::make_binary_object"):
            p, size = e.rv(n.a[0], st, fr), e.rv(n.a[1], st, fr)
            l = vg.deref(p)
            m = base(l)
            self.blocks.append((st.pc, m, size, st.copy(), fr.where(n)))
            return mk("arraywrap", l, size), False
        cls = vg.bare(f.cls.ty or f.cls.q) if f.cls is not None else ""
        if cls not in ("cv::Mat", "cv::MatStep", "cv::MatData") or n.o is None:
            return None
        a = n.a or ()
        o = e.recv_loc(n, st, fr)
        if cls == "cv::MatData":
            return vg.ptr(F(base(o), "pixels")), False
        if cls == "cv::MatStep":
            if f.name == "operator[]" and e.rv(a[0], st, fr) is not ZERO:
                return None
            return stepof(e, st, base(o)), False
        if f.name == "operator=" and len(a) == 1:
            copy(e, st, e.lv(a[0], st, fr), o)
            return o, True
        if f.name == "clone":
            t = e.temp(mk("new", "cv::Mat"), st)
            copy(e, st, o, t)
            pix = get(e, st, o, "pixels")
            fresh(e, st, t, *[get(e, st, o, k) for k in FIELDS[:3]])
            e.store(st, F(t, "pixels"), pix)
            return t, True
        if f.name == "copyTo" and len(a) == 1 and vg.bare(a[0].t) == "cv::Mat":
            d = e.lv(a[0], st, fr)
            self.create(e, st, d, [get(e, st, o, k) for k in FIELDS[:3]])
            e.store(st, F(d, "pixels"), get(e, st, o, "pixels"))
            return VOID, False
        if f.name == "create" and len(a) == 3:
            self.create(e, st, o, [e.rv(x, st, fr) for x in a])
            return VOID, False
        if f.name == "release":
            e.store(st, F(o, "rows"), ZERO)
            e.store(st, F(o, "cols"), ZERO)
            e.store(st, F(o, "present"), FALSE)
            return VOID, False
        v = {"isContinuous": "continuous", "type": "type"}.get(f.name)
        if v:
            return get(e, st, o, v), False
        if f.name in ("depth", "channels", "elemSize1"):
            return mk("call", f.name + " of", get(e, st, o, "type")), False
        if f.name == "elemSize":
            return esz(get(e, st, o, "type")), False
        if f.name == "total":
            return mul(get(e, st, o, "rows"), get(e, st, o, "cols")), False
        if f.name == "empty":
            return e.numeq(mul(get(e, st, o, "rows"), get(e, st, o, "cols")), ZERO), False
        if f.name == "ptr" and (not a or a[0].k == "defarg" or e.rv(a[0], st, fr) is ZERO):
            return vg.ptr(F(o, "pixels")), False
        return None

    @staticmethod
    def create(e, st, l, dims):
        """an image that already has this size and type keeps its storage"""
        kept = get(e, st, l, "present")
        for k, v in zip(FIELDS, dims):
            kept = and_(kept, e.numeq(get(e, st, l, k), v))
        old = {k: get(e, st, l, k) for k in FIELDS}
        fresh(e, st, l, *dims)
        if kept is not FALSE:
            for k in FIELDS[3:]:
                e.store(st, F(l, k), ite(kept, old[k], get(e, st, l, k)))


def s03(out):
    out.rule("Saving an image or a key point to an archive - a list that yields what was appended in the order appended, with tag and type - and loading it into another: afterwards rows, columns, type "
             "and pixels (or all members of the key point) are those of the source, nothing is left in the archive, and every block of pixels that is written or read is one contiguous piece of memory of "
             "exactly rows*cols*bytes per pixel. Equality is the same gated value as the comparison of size, type and every byte.")
    out.assumption("OpenCV, which is not installed, is represented by a header whose cv::Mat behaves as documented: create keeps the storage of an image of that size and type, clone makes it continuous; images have two dimensions")
    src = os.path.join(facts.VERIF, "witness/images.cpp")
    fl = ["-I" + facts.REPO + "/sm_opencv/include", "-I" + facts.REPO + "/sm_common/include", "-I" + facts.VERIF + "/witness/stubs"]
    P = Program([r"^$"], extra=[("witness/images.cpp", src, fl)])
    n = 0
    for f in P.functions():
        if not (f.rel and f.rel.endswith("images.cpp") and re.match("round_", f.name or "")):
            continue
        n += 1
        out.analysed(pairs=[f.name], obligations=1)
        im = Images()
        r = equiv.run(P, f, models=[im, serial.model])
        e, st0 = r.engine, vg.St()
        a, b = vg.obj("p0"), vg.obj("p1")
        loads = [x for x in walk(f.body) if x.k == "call" and x.f is not None and x.f.mine and x.f.name in ("load", "serialize")]
        tgt = loads[-1].f

        def bad(key, msg):
            out.violation(key, tgt.q, tgt.where, "%s: %s" % (f.name, msg))
        if not equiv.same(r.pc, TRUE):
            bad("image.refused", "loading what was saved fails when " + show(not_(r.pc), 5)[:300])
            continue
        if f.name == "round_mat":
            for k in ("rows", "cols", "type", "pixels"):
                v, w = get(e, r.st, b, k), get(e, st0, a, k)
                if not equiv.same(v, w, r.pc):
                    c, x, y = equiv.where_differ(v, w, r.pc)
                    bad("image.value", "when %s: the loaded %s are %s instead of %s" % (c[:300], k, show(x, 6)[:300], show(y)))
            if not im.blocks:
                raise Broken("no block of pixels is saved")
            for pc, m, size, st, where in im.blocks:
                if m is None:
                    continue
                c = get(e, st, m, "continuous")
                w = mul(mul(get(e, st, m, "rows"), get(e, st, m, "cols")), esz(get(e, st, m, "type")))
                if not equiv.same(c, TRUE, pc):
                    u, x, y = equiv.where_differ(c, TRUE, pc)
                    out.violation("image.block", tgt.q, where, "when %s: the rows of the image are not adjacent in memory, but are treated as one block" % u[:300])
                elif not equiv.same(size, w, pc):
                    u, x, y = equiv.where_differ(size, w, pc)
                    out.violation("image.block", tgt.q, where, "when %s: %s bytes instead of %s" % (u[:300], show(x, 6)[:200], show(y, 6)[:200]))
        else:
            rec = e.rec_of(vg.bare(f.ps[1].t))
            for g in serial.fields_of(rec):
                v, w = e.load(r.st, vg.F(b, g.q)), e.load(st0, vg.F(a, g.q))
                parts = serial.fields(e, g.t, vg.F(b, g.q))
                for x, y in zip(parts, serial.fields(e, g.t, vg.F(a, g.q))):
                    v, w = e.load(r.st, x), e.load(st0, y)
                    if not equiv.same(v, w):
                        bad("image.member", "the loaded %s is %s" % (show(x), show(v, 5)[:300]))
        serial.left(r.st.mem.get(serial.TAPE, mk("tape")), r.pc, bad)
    if n < 3:
        raise Broken("witnesses missing in images.cpp")
    any_spelling(out, P, "images.cpp", dict(models=[Images()], ignore=lambda l: vg.root_of(l).op == "glob"))


CHECKS = {"S03": s03}
