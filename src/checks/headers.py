"""H01: public headers compile on their own, define nothing twice, and promise nothing that is not there."""
import concurrent.futures
import os
import re
import subprocess
from ..sa import facts
from ..sa.facts import Broken, Program, REPO, VERIF


def headers():
    """[(path, include name)]; what lies in an implementation directory belongs to the header that includes it"""
    out = []
    for p in facts.SRC_PACKAGES + ["sm_deprecation"]:
        top = "%s/%s/include" % (REPO, p)
        for r, d, fs in os.walk(top):
            out += [(os.path.join(r, x), os.path.relpath(os.path.join(r, x), top)) for x in fs if x.endswith((".hpp", ".h")) and not re.search(r"/(implementation|detail|internal)(/|$)", r)]
    return sorted(out)


def alone(h):
    """does a file that includes nothing but this header compile?"""
    r = subprocess.run(["clang++", "-fsyntax-only", "-x", "c++"] + facts.base_flags() + ["-"], input="#include <%s>\n" % h[1], capture_output=True, text=True)
    e = [x for x in r.stderr.splitlines() if re.search(r"\berror:", x)]
    return h, r.returncode, e[:1]


def hidden(d):
    """declared for overload resolution only"""
    return bool(re.search(r"\b(internal\w*|detail\w*|impl)::", " ".join([d.q or "", d.t or ""])))


def unmakeable(P):
    """classes none of whose objects can be made: they serve overload resolution"""
    made, declared = set(), set()
    for d in P.funcs:
        if d.ctor and d.cls is not None and not d.copyctor and not d.movector:
            (made if d.body is not None or d.inits or d.defaulted or not (d.dep or d.inst) else declared).add(d.cls.q)
    return declared - made


def h01(out):
    out.rule("Each public header compiles as the only content of a source file. No function or variable a public header defines has strong external linkage (a second file including it would define it again). "
             "Each non-template function a public header declares has a body in a built source or header; each function template it declares has one too, and when that lies in a source, explicit instantiations of it.")
    hs = headers()
    if len(hs) < 20:
        raise Broken("only %d headers found" % len(hs))
    broken = False
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for h, rc, e in ex.map(alone, hs):
            out.analysed(headers=[h[1]])
            if rc != 0:
                broken = True
                m = re.match(re.escape(REPO) + r"/([^:]*):(\d+):\d+: (?:fatal )?error: (.*)", e[0]) if e else None
                out.violation("header.alone", h[1], "%s:%s" % (m.group(1), m.group(2)) if m else os.path.relpath(h[0], REPO), "cannot be included on its own: %s" % (m.group(3) if m else (e or ["does not compile"])[0]))
    if broken:
        return
    gen = os.path.join(VERIF, "build", "headers.%d.cpp" % os.getpid())
    os.makedirs(os.path.dirname(gen), exist_ok=True)
    with open(gen, "w") as f:
        f.write("".join("#include <%s>\n" % h[1] for h in hs))
    try:
        P = Program([r"^sm_"], extra=[("all public headers", gen, [])])
    finally:
        os.unlink(gen)
    n = 0
    bodies, explicit = set(), {}
    for d in P.funcs:
        if d.body is not None or d.defaulted or d.inits:
            bodies.add(d.q)
        if d.explinst:
            explicit.setdefault(d.q, set()).add(d.t)
    for d in P.funcs + P.vars:
        if not public(d):
            continue
        n += 1
        if d.strong:
            out.violation("header.twice", d.q or d.name, d.where, "is defined in a header with external linkage and neither inline nor a template: two source files that include the header cannot be linked together")
    ghosts = unmakeable(P)
    for d in P.funcs:
        if d.cls is not None and d.cls.q in ghosts or any(re.search(r"\b%s\b" % re.escape(g), p.t or "") for g in ghosts for p in d.ps or ()):
            continue
        if not public(d) or d.body is not None or d.inits or d.pure or d.deleted or d.defaulted or d.linkext is False or hidden(d) or "(lambda" in (d.q or ""):
            continue
        if d.access in (2,) or d.implicit:
            continue            # declared private and not defined: not to be used
        if d.inst:
            continue            # judged by its pattern
        if d.dep:
            if d.q not in bodies and not re.search("<", d.q or ""):
                out.violation("header.undefined", d.q, d.where, "is declared as a template but defined nowhere")
            elif not re.search("<", d.q or ""):
                bs = [x for x in P.by_q.get(d.q, ()) if x.dep and x.body is not None]
                if bs and all(not public(x) for x in bs) and d.cls is None and not explicit.get(d.q):
                    out.violation("header.undefined", d.q, d.where, "is a template defined in %s only and instantiated explicitly for no type" % bs[0].rel)
            continue
        if d.defctor and d.cls is not None and d.where == d.cls.where:
            continue
        out.violation("header.undefined", d.q, d.where, "is declared by a public header but defined nowhere in the library")
    # a template instantiated for one scalar is instantiated for the other
    insts = {}
    for d in P.funcs:
        if d.explinst and d.targs and d.cls is None and d.hdr:
            insts.setdefault(d.q, {})[(d.targs, d.t)] = d
    for q, ts in sorted(insts.items()):
        for (g, t), d in sorted(ts.items(), key=lambda x: x[0]):
            for a, b in (("double", "float"), ("float", "double")):
                sw = lambda s: re.sub(r"\b%s\b" % a, b, s)
                if re.search(r"\b%s\b" % a, g) and not re.search(r"\b%s\b" % b, g + t) and (sw(g), sw(t)) not in ts:
                    out.violation("header.scalars", q, d.where, "is instantiated for %s but not for %s" % (a, b))
    out.analysed(declarations=["%d declarations of public headers" % n], instantiations=sorted(explicit))


def public(d):
    return d.mine and re.search(r"/include/", d.rel or "") is not None


CHECKS = {"H01": h01}
