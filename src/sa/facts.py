"""Facts: the resolved program of the repository, dumped by tool/smx and merged over all units."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.normpath(os.path.join(HERE, "..", ".."))
REPO = os.environ.get("SM_REPO", "/repo")
SMX = os.path.join(VERIF, "build", "smx")
PACKAGES = ["sm_common", "sm_random", "sm_boost", "sm_eigen", "sm_kinematics", "sm_logging",
            "sm_property_tree", "sm_timing", "sm_value_store", "sm_matrix_archive",
            "sm_deprecation", "sm_opencv"]
SRC_PACKAGES = [p for p in PACKAGES if p not in ("sm_opencv", "sm_deprecation")]


class Broken(Exception):
    """The analysis cannot decide (exit 2): vanished anchor, unit that does not parse, ..."""


class Node(dict):
    __slots__ = ()

    def __getattr__(self, k):
        return self.get(k)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


class Decl:
    __slots__ = ("a", "tu", "__weakref__")

    def __init__(self, a, tu):
        self.a = a
        self.tu = tu

    def __getattr__(self, k):
        return self.a.get(k)

    def __repr__(self):
        return "<%s %s @%s:%s>" % (self.a.get("k"), self.a.get("q") or self.a.get("n"), os.path.basename(self.a.get("f") or ""), self.a.get("l"))

    @property
    def name(self):
        return self.a.get("n")

    @property
    def file(self):
        return self.a.get("f") or ""

    @property
    def rel(self):
        f = self.file
        return f[len(REPO) + 1:] if f.startswith(REPO + "/") else f

    @property
    def where(self):
        return "%s:%s" % (self.rel, self.a.get("l"))

    @property
    def isfunc(self):
        return self.a.get("k") in FUNC_KINDS


FUNC_KINDS = {"Function", "CXXMethod", "CXXConstructor", "CXXDestructor", "CXXConversion"}


def base_flags():
    inc = ["-I%s/%s/include" % (REPO, p) for p in PACKAGES]
    return ["-std=gnu++14", "-fno-caret-diagnostics", "-Wno-everything", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"] + inc + ["-isystem", "/usr/include/eigen3"]


def units():
    """[(key, path, extra flags)]"""
    us = []
    for p in SRC_PACKAGES:
        for f in sorted(glob.glob("%s/%s/src/**/*.cpp" % (REPO, p), recursive=True)):
            if os.path.basename(f).startswith("export") or "/python/" in f:
                continue
            fl = ["-include", "boost/bind.hpp"] if p in ("sm_property_tree",) else []
            us.append((os.path.relpath(f, REPO), f, fl))
    for f in sorted(glob.glob(VERIF + "/witness/*.cpp")):
        fl = []
        with open(f) as fh:
            m = re.search(r"//\s*FLAGS:\s*(.*)", fh.read())
        if m:
            fl = m.group(1).split()
        us.append(("witness/" + os.path.basename(f), f, fl))
    return us


def built_sources():
    """Sources the repository's own build files list (the rest is not part of the build)."""
    res = set()
    for p in SRC_PACKAGES:
        cm = "%s/%s/CMakeLists.txt" % (REPO, p)
        if not os.path.exists(cm):
            continue
        txt = re.sub(r"#[^\n]*", "", open(cm).read())
        for m in re.finditer(r"([\w/.+-]+\.cpp)", txt):
            res.add("%s/%s" % (p, m.group(1)))
    return res


def _ensure_tool():
    r = subprocess.run(["sh", os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(SMX):
        raise Broken("cannot build the fact extractor: " + r.stderr[-2000:])


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        with open(os.path.join(VERIF, "tool", "smx.cpp"), "rb") as f:
            h.update(f.read())
        for fn in sorted(glob.glob(os.path.join(VERIF, "witness", "*.inc"))):
            with open(fn, "rb") as f:
                h.update(f.read())
        for p in PACKAGES + ["sm_python"]:
            for root, dirs, files in os.walk("%s/%s" % (REPO, p)):
                dirs.sort()
                for fn in sorted(files):
                    if fn.endswith((".cpp", ".hpp", ".h", ".c", ".txt")):
                        fp = os.path.join(root, fn)
                        h.update(fp.encode())
                        with open(fp, "rb") as f:
                            h.update(f.read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def extract(us):
    _ensure_tool()
    cache = os.path.join(VERIF, "build", "cache")
    os.makedirs(cache, exist_ok=True)
    def age(fn):
        try:
            return os.path.getmtime(fn)
        except OSError:
            return 0
    old = sorted(glob.glob(os.path.join(cache, "*.json")), key=age)
    for fn in old[:-800]:
        try:
            os.unlink(fn)
        except OSError:
            pass

    def one(u):
        key, path, fl = u
        flags = base_flags() + fl
        h = hashlib.sha256()
        h.update(tree_hash().encode())
        h.update(" ".join(flags).encode())
        h.update(path.encode())
        with open(path, "rb") as f:
            h.update(f.read())
        out = os.path.join(cache, h.hexdigest()[:32] + ".json")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([SMX, tmp, path, REPO + "/:" + VERIF + "/witness/", "--"] + flags,
                               capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(tmp):
                return key, None, (r.stderr or r.stdout)[-1500:]
            os.rename(tmp, out)
        with open(out) as f:
            return key, json.load(f), ""

    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(one, us))


class Program:
    def __init__(self, pats=None, files=None, extra=()):
        us = units()
        built = built_sources()
        us = [u for u in us if u[0].startswith("witness/") or u[0] in built]
        if pats is not None:
            us = [u for u in us if any(re.search(p, u[0]) for p in pats)]
        us = us + list(extra)      # generated units: (name, path, flags)
        self.units = [u[0] for u in us]
        self.errors = {}
        self.index = {}
        self.funcs = []
        self.records = []
        self.vars = []
        self.enums = []
        self.alldecls = []
        for key, js, err in extract(us):
            if js is None:
                self.errors[key] = err
                continue
            self._merge(key, js)
        bad = [k for k in self.errors if not k.startswith("witness/opt_")]
        if bad:
            raise Broken("unit does not parse: %s: %s" % (bad[0], self.errors[bad[0]]))
        self.by_q = {}
        for d in self.funcs:
            self.by_q.setdefault(d.q, []).append(d)
        self.rec_by_q = {}
        for d in self.records:
            self.rec_by_q.setdefault(d.q, []).append(d)
        self.overriders = {}
        for d in self.funcs:
            for o in d.ov or ():
                self.overriders.setdefault(id(o), []).append(d)

    @staticmethod
    def _key(a, types, files):
        k = a["k"]
        fn = a.get("f")
        fn = files[fn] if isinstance(fn, int) and fn >= 0 else fn
        q = a.get("q")
        if not q or a.get("local") or a.get("param"):
            return None
        if "(lambda at" in q or "(anonymous" in q and False:
            return None
        if k in FUNC_KINDS:
            loc = "" if a.get("linkext", True) else "%s" % fn
            ext = "%s:%s" % (fn, a.get("l")) if (a.get("inst") or a.get("dep")) else ""
            return ("F", q, types[a["t"]], a.get("targs"), loc, ext if a.get("dep") else "")
        if k in ("CXXRecord", "ClassTemplateSpecialization", "ClassTemplatePartialSpecialization"):
            return ("R", q, types[a["ty"]] if "ty" in a else "", fn, a.get("l"))
        if k == "Field":
            return ("f", q, fn, a.get("l"), a.get("idx"))
        if k in ("Var", "VarTemplateSpecialization"):
            return ("V", q, "" if a.get("linkext", True) else fn)
        if k in ("EnumConstant", "Enum"):
            return ("E", q, fn, a.get("l"))
        return None

    def _merge(self, tu, js):
        types = js["types"]
        files = js["files"]
        raw = js["decls"]
        objs = [None] * len(raw)
        fresh = []
        for i, a in enumerate(raw):
            if a is None:
                continue
            k = self._key(a, types, files)
            if k is not None and k in self.index:
                o = self.index[k]
                # keep the richer one
                if ("body" in a and "body" not in o.a) or ("init" in a and "init" not in o.a) or ("methods" in a and "methods" not in o.a):
                    old = o.a
                    o.a = a
                    o.tu = tu
                    fresh.append((o, True))
                elif k[0] == "R" and "methods" in a:
                    # union of instantiated members
                    o.a.setdefault("_more", []).extend((tu, m) for m in a["methods"])
                    fresh.append((o, "more"))
                objs[i] = o
            else:
                o = Decl(a, tu)
                objs[i] = o
                if k is not None:
                    self.index[k] = o
                fresh.append((o, False))
                kk = a["k"]
                if kk in FUNC_KINDS:
                    self.funcs.append(o)
                elif kk in ("CXXRecord", "ClassTemplateSpecialization", "ClassTemplatePartialSpecialization"):
                    self.records.append(o)
                elif kk == "Var" and a.get("global"):
                    self.vars.append(o)
                elif kk == "Enum":
                    self.enums.append(o)
        self.alldecls.extend(o for o in objs if o is not None)

        def conv(x):
            if isinstance(x, dict):
                n = Node()
                for k, v in x.items():
                    if k == "t" or k == "at" or k == "ct":
                        n[k] = types[v] if isinstance(v, int) and v >= 0 else v
                    elif k in ("d", "f", "field") and isinstance(v, int):
                        n[k] = objs[v] if v >= 0 else None
                    elif k == "base" and isinstance(v, int):
                        n[k] = types[v]
                    else:
                        n[k] = conv(v)
                return n
            if isinstance(x, list):
                return [conv(y) for y in x]
            return x

        for o, mode in fresh:
            a = o.a
            if mode == "more":
                ms = a.pop("_more", [])
                have = set(id(m) for m in a["methods"])
                for t, m in ms:
                    if t == tu and id(objs[m]) not in have:
                        a["methods"].append(objs[m])
                        have.add(id(objs[m]))
                continue
            if a.get("_done"):
                continue
            a["_done"] = True
            for k in ("t", "rt", "ty"):
                if isinstance(a.get(k), int):
                    a[k] = types[a[k]] if a[k] >= 0 else ""
            if isinstance(a.get("f"), int):
                a["f"] = files[a["f"]]
            for k in ("ps", "fields", "bases", "methods", "ov", "consts", "statics"):
                if k in a:
                    a[k] = [objs[i] if isinstance(i, int) else i for i in a[k]]
            for k in ("cls", "enum"):
                if isinstance(a.get(k), int):
                    a[k] = objs[a[k]] if a[k] >= 0 else None
            if a["k"] in ("CXXRecord", "ClassTemplateSpecialization", "ClassTemplatePartialSpecialization") and isinstance(a.get("dtor"), int):
                a["dtor"] = objs[a["dtor"]]
            for k in ("body", "inits", "init", "defs"):
                if k in a and a[k] is not None:
                    a[k] = conv(a[k])

    # ---- queries -------------------------------------------------
    def functions(self, pred=None, body=True):
        for d in self.funcs:
            if body and d.body is None and not (d.ctor and d.inits):
                continue
            if d.dep:
                continue
            if pred is None or pred(d):
                yield d

    def find(self, q, body=True, need=True):
        """functions by qualified-name regex (full match)"""
        r = re.compile(q)
        res = [d for d in self.funcs if d.q and r.fullmatch(d.q) and not d.dep and (not body or d.body is not None)]
        if need and not res:
            raise Broken("anchor vanished: no function matches %s" % q)
        return res

    def record(self, q, need=True):
        r = re.compile(q)
        res = [d for d in self.records if d.q and r.fullmatch(d.q) and not d.dep and d.fields is not None]
        if need and not res:
            raise Broken("anchor vanished: no class matches %s" % q)
        return res

    def methods(self, rec):
        return [m for m in rec.methods or () if m is not None]

    def bases_closure(self, rec):
        out = []
        st = list(rec.bases or ())
        while st:
            b = st.pop()
            if b is None or b in out:
                continue
            out.append(b)
            st.extend(b.bases or ())
        return out


def walk(n):
    """all nodes below n (pre-order), not descending into lambda operators"""
    if isinstance(n, dict):
        yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def body_nodes(fn):
    if fn.inits:
        for i in fn.inits:
            yield from walk(i)
    if fn.body is not None:
        yield from walk(fn.body)


def strip(n, casts=True):
    while n is not None:
        if casts and n.k == "cast":
            n = n.e
        elif n.k in ("defarg", "definit"):
            n = n.e
        else:
            return n
    return n


def callee_name(n):
    return n.f.q if n.f is not None else None
