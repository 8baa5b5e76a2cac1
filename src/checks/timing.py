"""T01: conversions between units of time, decided as equalities of their values in seconds."""
import sys
from ..sa import equiv
from ..sa.eigen import Unmodelled
from ..sa.facts import Broken, Program
from .hull import same_segment
from ..sa.narrow import narrowing
import re
sys.setrecursionlimit(20000)

LIB = [r"^sm_timing/src/", r"^sm_boost/src/"]


def widths(out, P, files):
    """no count of nanoseconds or seconds goes through a type that cannot hold it"""
    for f in P.functions():
        if f.rel and re.search(files, f.rel) and not f.dep:
            out.analysed(functions=[f.q])
            for n, a, b in narrowing(f):
                out.violation("time.width", f.q, f.where, "a time is converted from %s to %s: times of the present day do not fit, or lose digits" % (a, b))


def t01(out):
    out.rule("Each pair of witness functions names a conversion of the library (lhs) and the conversion of the standard library it must equal (rhs); "
             "spans and points of time are terms for their value in seconds, scaled by the ratio in their type and truncated where a cast truncates. "
             "The returned values, the conditions of normal return, the value handed to the timer's statistics and the final state must be the same terms. "
             "No conversion in these functions narrows a time to fewer than 64 bits.")
    out.assumption("64-bit nanosecond counts do not overflow; floating point rounding is not modelled")
    unit = "time_units.cpp"
    P = Program(LIB + [r"witness/" + unit.replace(".", r"\.")])
    for p in equiv.pairs(P, unit):
        out.analysed(pairs=[p.name])
        equiv.decide(out, P, p, callbacks=True)
    widths(out, P, r"NsecTimeUtilities")


class Pending:
    """violations that are not reported yet"""

    def __init__(self, out):
        self.out, self.found = out, []

    def analysed(self, **kw):
        self.out.analysed(**kw)

    def violation(self, *a, **kw):
        self.found.append((a, kw))

    def report(self):
        for a, kw in self.found:
            self.out.violation(*a, **kw)


def agree(kind):
    try:
        return same_segment(kind)
    except (Broken, Unmodelled) as e:
        return False


def t03(out):
    out.rule("Each pair of witness functions names an operation of the corrector (lhs) and what it must equal (rhs), for integral and floating times and "
             "arbitrary state: the segment remembered after a sample is the one the search in the current points yields, or the first one while there are two; "
             "a reset leaves neither points nor a pending corrector; the estimate is formed from that segment's two points and refused below two points; "
             "the exception for a time that is not later is thrown exactly when it is not later, with the state unchanged. "
             "Values, conditions of normal return and final states must be the same terms; loops are compared by their recurrence. "
             "No conversion in these functions narrows a time to fewer than 64 bits.")
    out.assumption("the midpoint of the first and last remote time lies after the first point and not after the last (remote times increase, which the check on entry enforces)")
    unit = "time_corrector.cpp"
    P = Program(LIB + [r"witness/" + unit.replace(".", r"\.")])
    for p in equiv.pairs(P, unit):
        out.analysed(pairs=[p.name])
        if p.name.startswith("segment"):
            # the search may be written in other ways: then it is compared case by case
            o = Pending(out)
            equiv.decide(o, P, p)
            if o.found and not agree("D" if p.name.endswith("Double") else "L"):
                o.report()
            continue
        equiv.decide(out, P, p, only_throws="TimeWentBackwards" if p.name.startswith("refused_") else None)
    widths(out, P, r"TimestampCorrector")


def t04(out):
    out.rule("Each pair of witness functions names a timer or statistics operation (lhs) and its definition over the tables of handles and accumulators (rhs): "
             "a handle is the tag's entry or the next free index, a statistic is the extractor of that name applied to the record of the handle (of the tag's handle), "
             "start and stop are refused in the wrong state, stop adds the seconds since the start to the record of the timer's own handle. Values, conditions of "
             "normal return, exceptions with the state they leave behind, and final states must be the same terms; loops are compared by their recurrence.")
    out.assumption("boost::accumulators computes the statistic its extractor names; fewer than 2^31 hours fit the printed time")
    unit = "timer_stats.cpp"
    P = Program([r"witness/" + unit.replace(".", r"\.")])
    for p in equiv.pairs(P, unit):
        out.analysed(pairs=[p.name])
        equiv.decide(out, P, p, throws=True, callbacks=True)


CHECKS = {"T01": t01, "T03": t03, "T04": t04}
