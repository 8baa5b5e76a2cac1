"""E02, P06: numerics of sm_eigen, and vectors and poses read from a property tree, decided as identities of coefficient terms."""
import re
from ..sa import mathpairs
from ..sa.facts import Program
from ..sa.terms import *
from .kinematics import RULE


COUNT = mk("in", "draws")


def draw(e, n, st, fr):
    """every draw is another unknown"""
    if n.f is None or not re.match(r"sm::random::\w+$", n.f.q or "") or n.a:
        return None
    k = e.load(st, COUNT)
    k = k if k.op == "num" else num(0)
    e.store(st, COUNT, add(k, num(1)))
    return mk("x", n.f.name, k), False


def e02(out):
    out.rule(RULE)
    out.rule("Eigen's LDLT is taken to factor A into P'LDL'P with unknown unit lower triangular L, diagonal D and permutation P; the function under differentiation is unknown.")
    out.assumption("arithmetic is exact, except that rounding may make a pivot of a singular matrix negative: such a pivot counts as zero")
    mathpairs.decide_all(out, Program([r"^sm_eigen/src/", r"witness/eigen_numerics\.cpp"]), "eigen_numerics.cpp", models=[draw])


def p06(out):
    out.rule(RULE)
    out.rule("The property tree is opaque: its getters are unknown functions of the tree and the key.")
    mathpairs.decide_all(out, Program([r"^sm_kinematics/src/", r"witness/pose_from_tree\.cpp"]), "pose_from_tree.cpp")


CHECKS = {"E02": e02, "P06": p06}
