"""K01-K08: rotations, quaternions, transformations and their uncertainties, decided as algebraic identities of coefficient terms."""
import re
import sys
from ..sa import equiv, mathpairs, ranges
from ..sa.facts import Broken, Program
from ..sa.terms import FALSE, show
sys.setrecursionlimit(20000)

LIB = [r"^sm_kinematics/src/"]

RULE = ("Each pair of witness functions names a library computation (lhs) and the expression it must equal (rhs). Both bodies, with every library function "
        "they reach inlined, are evaluated over symbolic coefficients into one term per matrix coefficient and path; the coefficients must be equal as "
        "algebraic expressions (polynomials in the inputs, their sines, cosines and roots, reduced by sin^2+cos^2=1, root^2=radicand and the norms stated for the inputs), "
        "and both sides must return normally under the same conditions.")


def program(unit):
    return Program(LIB + [r"witness/" + unit.replace(".", r"\.")])


def identities(out, *units, sel=None):
    out.rule(RULE)
    out.assumption("arithmetic is exact: rounding, overflow and the values of invalid (non-finite) inputs are outside the identities")
    for u in units:
        mathpairs.decide_all(out, program(u), u, sel)


def k01(out):
    identities(out, "kin_rotations.cpp")


def k02(out):
    out.assumption("cases below a switching threshold (an angle smaller than 1/100) are left out of the pairs named general_; K08 decides them")
    identities(out, "kin_quaternions.cpp")


def k03(out):
    identities(out, "kin_transformations.cpp")


def k09(out):
    identities(out, "kin_points.cpp")
    P, n = program("kin_points.cpp"), 0
    for f in P.functions():
        if (f.name or "").startswith("refused_") and f.rel and f.rel.endswith("kin_points.cpp"):
            n += 1
            out.analysed(obligations=1, functions=[f.name])
            r = mathpairs.run(P, f)
            if r.pc is not FALSE:
                t = equiv.target(P, f)
                out.violation("point.refused", t.q, t.where, "%s: a column that is no point is accepted when %s" % (f.name, show(r.pc, 4)[:300]))
    if not n:
        raise Broken("witnesses missing in kin_points.cpp")


ROTATION_FILES = r"sm_kinematics/(src|include/sm/kinematics(/implementation)?)/"


def k07(out):
    out.rule("Every call of asin and acos in the library is reached from the functions a user can call, with symbolic matrices, quaternions and vectors; "
             "the argument, as a term gated by the conditions on the path to the call, must be confined to [-1,1] by those conditions: for every leaf, "
             "assuming it above one (or below minus one) must contradict the linear consequences of the path. In the same functions and in r2quat the radicand of every "
             "square root must not be negative.")
    out.assumption("four-component arguments are quaternions whose norm is within 0.001 of one; matrices are arbitrary")
    P = Program(LIB)
    inside = lambda d: re.match(ROTATION_FILES, d.rel)
    own, reach, callers = ranges.reaches(P, ranges.TRIG, inside)
    if not own:
        raise Broken("no call of asin or acos in the library")
    roots, todo, done = set(), list(own), set()
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        if f.hdr or not callers.get(f):
            roots.add(f)
        else:
            todo += callers[f]
    visited = {}
    for f in sorted(roots, key=lambda f: (f.q, f.where)) + [f for f in P.functions(lambda d: d.mine and inside(d)) if f.name == "r2quat"]:
        seen, bad = ranges.check(P, f, ranges.TRIG + ("sqrt",))
        out.analysed(functions=["%s (%s)" % (f.q, f.where)], obligations=len(seen))
        for name, pc, arg, n, fr in seen:
            visited.setdefault((name, fr.where(n)), 0)
        for name, n, where, path, leaf in bad:
            out.violation("%s:%s" % (name, f.q), f.q, where, "the argument of %s is %s, not confined to %s, when %s"
                          % (name, show(leaf, 5)[:300], "[0,inf)" if name == "sqrt" else "[-1,1]", mathpairs.pathtext(path)), None)
    for f in own:
        for n in ranges.sites(P, f):
            w = "%s:%s" % (f.rel, n.l)
            if not any(x[1] == w for x in visited):
                raise Broken("call of %s at %s not reached from any root" % (ranges.callee(n), w))
    out.analysed(sites=["%s at %s" % k for k in sorted(visited)])


def k06(out):
    out.assumption("parameters lie in the open principal range of the convention, angles marked so in the witness")
    identities(out, "kin_extract.cpp")


def k08(out):
    out.rule("For each function with a branch for small angles, its argument is r times a unit vector. Every case below a threshold must be reachable only for "
             "|r| below 1/50; its terms, as a series in r, must equal those of the case above the threshold in every order the branch carries; "
             "and the first terms it leaves out must be negligible at the threshold (1e-10 of the leading term, or 1e-10 absolutely).")
    out.assumption("arithmetic is exact")
    mathpairs.decide_all(out, program("kin_switches.cpp"), "kin_switches.cpp")


def k04(out):
    out.rule("val_/jac_ pairs establish the derivative of each operation's mean; the covariance of the result must be the sum of J*P*J^T over the uncertain operands, as an identity in the means and "
             "the covariances, and the mean must be that of the certain operation.")
    identities(out, "kin_uncertain.cpp")


def k05(out):
    out.rule("For each Jacobian the library returns or fills, jac_X names it and val_X the value it accompanies. Both bodies, with every library function they reach inlined, "
             "are evaluated over symbolic inputs; the coefficients of the value are differentiated symbolically and must equal those of the Jacobian, on every pair of paths. "
             "Names starting with at0_ differentiate along a line through the point.")
    out.assumption("cases below a switching threshold (an angle smaller than 1/100) are left to K08; derivatives at the poles of the unit sphere are not defined")
    identities(out, "kin_jacobians.cpp")


CHECKS = {"K01": k01, "K02": k02, "K03": k03, "K09": k09, "K04": k04, "K05": k05, "K06": k06, "K07": k07, "K08": k08}
