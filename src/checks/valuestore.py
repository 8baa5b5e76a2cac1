"""V01, V02, V04: value stores, decided as equalities of gated values."""
import sys
from ..sa import equiv
from ..sa.facts import Program
sys.setrecursionlimit(20000)

LIB = [r"^sm_value_store/src/", r"^sm_property_tree/src/"]


def pairs(out, unit, lib=LIB, only=None, **kw):
    P = Program(lib + [r"witness/" + unit.replace(".", r"\.")])
    for p in equiv.pairs(P, unit):
        if only and not only(p.name):
            continue
        out.analysed(pairs=[p.name])
        equiv.decide(out, P, p, **kw)


RULE = ("Each pair of witness functions names an operation (lhs) and the composition of operations of the wrapped object it must equal (rhs). "
        "Both bodies, with every library function they reach inlined and virtual calls resolved by the class of the object, are put into gated value form; "
        "the conditions of normal return, the returned values, the callbacks made and the final state of everything reachable from the parameters must be the same terms.")


def v01(out):
    out.rule(RULE)
    out.assumption("unresolved virtual calls on the wrapped store are functions of their receiver and arguments")
    pairs(out, "eq_valuestore.cpp")


def v02(out):
    out.rule(RULE)
    out.assumption("layers are decided for stores of none to three layers, null layers included")
    pairs(out, "eq_layered.cpp")


def v04(out):
    out.rule(RULE)
    out.assumption("lists of up to four alternatives")
    pairs(out, "eq_alternatives.cpp", callbacks=True)


CHECKS = {"V01": v01, "V02": v02, "V04": v04}
