"""A01, A02: assertion macros, decided as equalities of gated values."""
import os
from ..sa import equiv, facts
from ..sa.facts import Program
from ..sa.terms import *
from .ids import any_spelling

RULE = ("Each pair of witness functions states an assertion macro (lhs) and the relation it is named for (rhs), with plain, conditional and bitwise "
        "expressions as arguments. In gated value form both must return normally under the same condition, throw the same exception type under the same "
        "condition, and, when they return, have made the same calls in evaluating their arguments.")


# a NaN operand of an order assertion is left open: neither order holds
ORDER = ("POSITIVE", "NONNEGATIVE", "NEGATIVE", "NONPOSITIVE", "LT", "LE", "GT", "GE")


def unit(out, main, where):
    P = Program([r"witness/" + main + r"\.cpp"])
    for p in equiv.pairs(P, where):
        out.analysed(pairs=[main + ":" + p.name])
        equiv.decide(out, P, p, throws=True, callbacks=False, calls=r"(^|::)(look|note|real|where|mat)$", calls_on_return=True,
                     key="relation", anchor=macro(p), nan=not p.name.startswith(ORDER))


class macro:
    """what a pair is about: a macro has no function of its own"""
    def __init__(self, p):
        m = p.name.split("_once")[0]
        self.q = "SM_ASSERT_" + m if not p.name.startswith(("THROW", "mat", "view", "function")) else p.name
        self.where = "sm_eigen/include/sm/eigen/assert_macros.hpp" if p.name in ("mat", "view", "MAT") else "sm_common/include/sm/assert_macros.hpp"


def a01(out):
    out.rule(RULE)
    out.assumption("floating point arguments are real numbers or NaN (an order assertion: real numbers); rounding and the difference of two infinities are outside the analysis")
    unit(out, "eq_assert", "assert_relations.inc")
    unit(out, "eq_assert_mat", "assert_matrix.inc")


def a02(out):
    out.rule(RULE + " The debug macros are analysed with debug assertions active, forced on in release (both spellings), and compiled out; compiled out, "
             "no argument may be evaluated.")
    for k in ("dbg", "dbg_forced", "dbg_forced_old"):
        unit(out, "eq_assert_" + k, "assert_relations.inc")
        unit(out, "eq_assert_mat_" + k, "assert_matrix.inc")
    unit(out, "eq_assert_off", "eq_assert_off.cpp")


def a03(out):
    out.rule("Each pair of witness functions calls a comparison helper on matrices with every entry unknown, of equal and of different sizes (lhs), and states which entries must agree how (rhs): whether "
             "a failure is reported, and the error handed out, must be the same gated value, for real numbers and NaN alike.")
    out.assumption("googletest is represented by a header whose assertions report a failure exactly if their documented relation does not hold; the helpers are instantiated with matrices of two and three rows and columns")
    src = os.path.join(facts.VERIF, "witness/test_helpers.cpp")
    P = Program([r"^$"], extra=[("witness/test_helpers.cpp", src, ["-I" + facts.VERIF + "/witness/stubs"])])
    any_spelling(out, P, "test_helpers.cpp", lambda p: dict(nan=True, effects=False, anchor=matrices, models=[unknown]) if p.name.startswith("all") else
                 dict(nan=True, effects=False))


def unknown(e, n, st, fr):
    """ASSERT_DOUBLE_MX_EQ agrees with compareRelative, whatever that says"""
    if n.f is not None and n.f.name == "compareRelative":
        return tobool(mk("accepted", *[e.rv(a, st, fr) for a in n.a[:3]])), False


class matrices:
    q = "ASSERT_DOUBLE_MX_EQ"
    where = "sm_eigen/include/sm/eigen/gtest.hpp"


CHECKS = {"A01": a01, "A02": a02, "A03": a03}
