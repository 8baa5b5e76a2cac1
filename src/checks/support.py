"""C05: type utilities, source positions, progress."""
import os
import re
import subprocess
from ..sa import equiv, facts
from ..sa.facts import Broken, Program


def types(out):
    src = os.path.join(facts.VERIF, "witness/type_support.cpp")
    cmd = ["clang++", "-std=gnu++14", "-fsyntax-only", "-ferror-limit=0", "-fno-color-diagnostics", "-fno-caret-diagnostics", "-w",
           "-I" + facts.REPO + "/sm_common/include", "-isystem", "/usr/include/eigen3", src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    with open(src) as f:
        text = f.read()
    n = 0
    for name, reps in (("ALL", text.count("\nALL(")),):
        n += reps * len(re.findall(r"\b(?:IS|HAS)\(\w+, ", text))
    n += len(re.findall(r"\bSAME\((?!a,)", text)) + len(re.findall(r"^TYPE\(", text, re.M))
    bad = {}
    where = None
    for line in r.stderr.splitlines():
        m = re.match(r"(.*?):(\d+):\d+: (error|fatal error|note): (.*)", line)
        if not m:
            continue
        rel = os.path.relpath(m.group(1), facts.REPO)
        if m.group(3) != "note":
            s = re.search(r'static assertion failed[^:]*: (.*)', m.group(4))
            t = s.group(1).strip('"') if s else m.group(4)
            where = (t, "%s:%s" % (rel, m.group(2)))
            bad[where[0]] = where[1]
        elif where and rel.startswith("sm_") and not bad[where[0]].startswith("sm_"):
            bad[where[0]] = "%s:%s" % (rel, m.group(2))
    if r.returncode and not bad:
        raise Broken("the type witness cannot be compiled: " + r.stderr[:300])
    for t, w in bad.items():
        m = re.match(r"(\w+)<", t)
        header = "aligned_allocation.h" if not m else "typetraits.hpp"
        out.violation("type", m.group(1) if m else "aligned_allocation", w if w.startswith("sm_") else "sm_common/include/sm/" + header, t)
    out.analysed(obligations=n)


def c05(out):
    out.rule("Type-level witnesses: each trait, container and smart pointer alias is instantiated with types with and without const, reference and pointer, and static assertions require exactly the "
             "type or truth its name states; arguments that can only be moved must pass through. Source positions and progress: returned values, conditions of return and the sequence of "
             "outputs are the same terms as those of the definition.")
    out.assumption("progress is not NaN")
    types(out)
    P = Program([r"witness/support_values\.cpp", r"sm_common/src/progress_info\.cpp"])
    for p in equiv.pairs(P, "support_values.cpp"):
        out.analysed(functions=[p.name])
        equiv.decide(out, P, p, effects=True)


CHECKS = {"C05": c05}
