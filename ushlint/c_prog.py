"""Whole-program queries: mutable globals (C21), external dependencies (C23), configuration matrix (C25)."""
import itertools
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import model, entries, llvm
from .interp import Broken
from .steps import Entry
from .dom import Ptr, Region, NULLB, cst
from .c_mem import system, guarded, decide, obligations

WORKERS = max(2, min(8, os.cpu_count() or 2))

# ---------------------------------------------------------------------------------------------- what may be called
# pure functions over caller-provided memory: no heap, no stream, no clock, no hidden static state
PURE = {"strlen", "strnlen", "strcpy", "strncpy", "strcat", "strncat", "strcmp", "strncmp", "strcasecmp", "strncasecmp",
        "strchr", "strrchr", "strstr", "strspn", "strcspn", "strpbrk", "strtok_r", "strtol", "strtoul", "strtoll",
        "strtoull", "atoi", "atol", "stpcpy", "stpncpy", "strlcpy", "strlcat", "strchrnul", "rawmemchr",
        "memcpy", "memmove", "memset", "memcmp", "memchr", "memrchr", "memccpy", "mempcpy", "bcmp",
        "isalpha", "isdigit", "isalnum", "isspace", "isxdigit", "isprint", "isgraph", "iscntrl", "ispunct", "isupper",
        "islower", "isblank", "toupper", "tolower", "abs", "labs",
        "snprintf", "vsnprintf", "sprintf", "vsprintf", "sscanf", "bsearch"}
CTYPE = {"__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc"}
# only what the POSIX configuration's assertion macro needs
ASSERT = {"fprintf", "fputs", "fwrite", "stderr", "exit", "_exit", "_Exit", "abort", "__assert_fail", "__assert"}
WRITERS = {"strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "memcpy": 0, "memmove": 0, "memset": 0, "snprintf": 0,
           "vsnprintf": 0, "sprintf": 0, "vsprintf": 0, "stpcpy": 0, "stpncpy": 0, "strtok": 0, "strtok_r": 0,
           "llvm.memcpy.p0.p0.i64": 0, "llvm.memset.p0.i64": 0, "llvm.memmove.p0.p0.i64": 0, "mempcpy": 0}
FORBIDDEN = {"malloc": "heap", "calloc": "heap", "realloc": "heap", "free": "heap", "aligned_alloc": "heap",
             "strdup": "heap", "strndup": "heap", "alloca": "stack", "asprintf": "heap", "vasprintf": "heap",
             "strtok": "hidden static state", "rand": "hidden static state", "srand": "hidden static state",
             "setlocale": "global state", "printf": "stream output", "puts": "stream output", "putchar": "stream output",
             "time": "clock", "clock": "clock", "getenv": "environment", "errno": "global state"}


def site(fn, I):
    return "%s:%s %s" % (os.path.basename(I.file or fn.file or "?"), I.line, fn.name)


def refs(v):
    """globals mentioned by an operand"""
    if v and v[0] == 'g':
        return [v[1]]
    return []


def operands(I):
    for v in I.ops:
        yield v
    if I.incoming:
        for _, v in I.incoming:
            yield v
    if I.gep:
        yield I.gep[0]
        for v, _ in I.gep[2]:
            yield v
    if I.callee:
        yield I.callee


# ---------------------------------------------------------------------------------------------- C23
def externals(m):
    """external symbol -> [use sites]"""
    out = {}
    for f in m.functions.values():
        if f.decl:
            continue
        for b in f.blocks:
            for I in b.insts:
                for v in operands(I):
                    for g in refs(v):
                        d = m.functions.get(g) or m.globals.get(g)
                        if d is not None and d.decl:
                            out.setdefault(g, []).append(site(f, I))
    for G in m.globals.values():
        for _, v, _ in G.init or ():
            for g in refs(v):
                d = m.functions.get(g) or m.globals.get(g)
                if d is not None and d.decl:
                    out.setdefault(g, []).append("initialiser of " + G.name)
    return out


def approved(name, posix):
    if name.startswith("llvm.") or name in PURE or name in CTYPE:
        return True
    return posix and name in ASSERT


def c23(c):
    R = c.rule("external symbols", "every external function or variable the library refers to belongs to the pure "
               "string/memory/formatting set (the assertion macro of the POSIX platform may also report and stop)", 5)
    A = c.rule("assertion only", "stream and termination functions of the POSIX platform are reached only in the failing "
               "branch of an assertion, and end the program", 0)
    F = c.rule("freestanding platform", "the platform without assertions needs no stream, termination or ctype-table symbol", 1)
    G = c.rule("no generated calls", "no inline assembly, indirect branch, or atomics that need a runtime", 1)
    seen = {}
    for cfg in ("arduino", "posix"):
        m, _ = model.get(cfg)
        ex = externals(m)
        for n, where in sorted(ex.items()):
            seen.setdefault(n, set()).add(cfg)
            if approved(n, cfg == "posix"):
                c.ok(R, "%s (%s): %d uses" % (n, cfg, len(where)))
            else:
                c.bad(R, where[0], "%s configuration depends on %s (%s)" % (cfg, n, FORBIDDEN.get(n, "outside of the approved set")),
                      where)
        nasm = 0
        for f in m.functions.values():
            if f.decl:
                continue
            for b in f.blocks:
                for I in b.insts:
                    if I.op in ("indirectbr", "invoke") or (I.op == 'call' and I.callee and I.callee[0] == 'other'):
                        c.bad(G, site(f, I), "inline assembly or indirect branch")
                        nasm += 1
        c.ok(G, "%s: %d functions" % (cfg, len([f for f in m.functions.values() if not f.decl])))
        if cfg == "arduino":
            c.ok(F, "%d external symbols" % len(ex))
        else:
            for f in m.functions.values():
                if f.decl:
                    continue
                for b in f.blocks:
                    for I in b.insts:
                        for v in operands(I):
                            for g in refs(v):
                                if g in ASSERT:
                                    t = b.insts[-1]
                                    fatal = t.op == 'unreachable' or g in ("exit", "_exit", "_Exit", "abort", "__assert_fail")
                                    c.expect(A, fatal, site(f, I), "%s is used on a path that continues (not an assertion)" % g)
    c.extra["external_symbols"] = {n: sorted(v) for n, v in sorted(seen.items())}
    c.functions |= {f.name for f in model.get("arduino")[0].functions.values() if not f.decl}
    # the translation units compiled under other feature selections
    M = matrix()
    n = 0
    for (unit, combo), r in sorted(M.units.items()):
        for g in r.undef:
            if g in M.internal_names:
                continue
            n += 1
            if approved(g, combo[0] == "posix"):
                c.ok(R)
            else:
                c.bad(R, unit, "with %s the file depends on %s (%s)" % (show(combo), g, FORBIDDEN.get(g, "outside of the approved set")))
    c.extra["feature_selections_compiled"] = len(M.units)


# ---------------------------------------------------------------------------------------------- C21
def param_writes(m):
    """function -> set of parameter indices it may write through (transitively)"""
    w = {f.name: set() for f in m.functions.values()}
    ch = True
    while ch:
        ch = False
        for f in m.functions.values():
            if f.decl:
                continue
            for i in range(len(f.params)):
                if i in w[f.name]:
                    continue
                if writes_through(m, f, ('a', i), w):
                    w[f.name].add(i)
                    ch = True
    return w


def writes_through(m, f, root, w):
    """may f store through a pointer derived from operand root? -> instruction or None"""
    ids = {root}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for I in b.insts:
                me = ('i', I.id)
                if me in ids:
                    continue
                if I.op in ('gep',) and I.gep and root_in(I.gep[0], ids):
                    ids.add(me)
                    ch = True
                elif I.op == 'phi' and any(root_in(v, ids) for _, v in I.incoming):
                    ids.add(me)
                    ch = True
                elif I.op in ('select', 'bitcast', 'freeze') and any(root_in(v, ids) for v in I.ops):
                    ids.add(me)
                    ch = True
    for b in f.blocks:
        for I in b.insts:
            if I.op == 'store' and root_in(I.ops[1], ids):
                return I
            if I.op in ('atomicrmw', 'cmpxchg', 'atomiccmpxchg') and root_in(I.ops[0], ids):
                return I
            if I.op == 'call':
                cal = I.callee
                for k, v in enumerate(I.ops):
                    if not root_in(v, ids):
                        continue
                    if cal and cal[0] == 'g':
                        if cal[1] in WRITERS and WRITERS[cal[1]] == k:
                            return I
                        if any(cal[1].startswith(x) for x in ("llvm.memcpy", "llvm.memset", "llvm.memmove")) and k == 0:
                            return I
                        if k in w.get(cal[1], ()):
                            return I
    return None


def root_in(v, ids):
    if v in ids:
        return True
    return v and v[0] == 'g' and any(r[0] == 'g' and r[1] == v[1] for r in ids)


ALLOWED = {"self": "the session object", "node": "a node or command set", "INBUF": "the input buffer",
           "OUTBUF": "the output buffer", "stack": "a local variable", "arg": "the text of the current line",
           "wbuf": "the output buffer", "garbage": "the session object"}


def c21(c):
    R = c.rule("no mutable globals", "no variable of static storage duration (file scope or function static) is ever the "
               "target of a store, block copy or formatted write, directly or through a callee; constants are ignored", 1)
    n = nc = 0
    seen = set()
    for cfg in ("arduino", "posix"):
        m, _ = model.get(cfg)
        w = param_writes(m)
        for g in sorted(m.globals.values(), key=lambda g: g.name):
            if g.decl:
                continue
            if g.const:
                nc += 1
                continue
            n += 1
            bad = None
            for f in m.functions.values():
                if f.decl:
                    continue
                I = writes_through(m, f, ('g', g.name, 0), w)
                if I is not None:
                    bad = (f, I)
                    break
            if bad and (g.name, cfg) not in seen:
                seen.add((g.name, cfg))
                c.bad(R, site(*bad), "writes the variable %s, which every session shares" % g.name)
            elif not bad:
                c.ok(R, "%s is never written" % g.name)
    c.ok(R, "%d constant tables and strings, %d variables of static storage" % (nc, n))
    c.functions |= {f.name for f in model.get("arduino")[0].functions.values() if not f.decl}
    S = c.rule("store targets", "every store of the library reaches only the session object, its buffers, nodes and command "
               "sets handed to it, the current line's arguments, or locals", 60)
    es = system(c)
    st = {}
    for E in es:
        for k, cnt in E.M.stores.items():
            st[k] = st.get(k, 0) + cnt
    tab = {}
    for (file, line, fn, cls, nm), cnt in sorted(st.items(), key=repr):
        tab.setdefault(cls.split(":")[0], set()).add((file, line))
        if cls in ALLOWED or cls.startswith("local:") or cls in ("larr", "vla", "argvec"):
            c.ok(S, "%s:%s %s -> %s" % (os.path.basename(file or "?"), line, fn, ALLOWED.get(cls, "a local array")))
        elif cls in ("rostr", "file", "desc", "io", "fn"):
            c.ok(S)            # constant data: property C22
        else:
            c.bad(S, "%s:%s %s" % (os.path.basename(file or "?"), line, fn),
                  "store into %s (%s), which does not belong to the session" % (nm, cls))
    c.extra["stores_by_target"] = {k: len(v) for k, v in sorted(tab.items())}


# ---------------------------------------------------------------------------------------------- C25
class Unit:
    def __init__(self):
        self.ok = True
        self.diag = ""
        self.defs = {}       # symbol -> (signature, linkage)
        self.undef = {}      # symbol -> signature
        self.tables = []     # [[names of a descriptor table]]


class Matrix:
    pass


def switches():
    """feature switches of the platform configuration files"""
    out = None
    for p in ("posix", "arduino"):
        f = os.path.join(model.repo(), "src/config/%s/ush_config.h" % p)
        if not os.path.exists(f):
            raise Broken("anchor vanished: %s" % f)
        t = subprocess.run([model.BIN + "clang", "-E", "-dM", "-x", "c", "-I" + os.path.join(model.repo(), "src"), f],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        s = set(re.findall(r"#define (USH_CONFIG_ENABLE_\w+) ", t))
        out = s if out is None else out & s
    if not out:
        raise Broken("anchor vanished: feature switches USH_CONFIG_ENABLE_*")
    return sorted(out)


def show(combo):
    off = [k.replace("USH_CONFIG_ENABLE_", "") for k, v in combo[1] if not v]
    return "%s%s" % (combo[0], (" without " + " ".join(off)) if off else "")


PLATDEF = {"posix": "-DUSH_CONFIG_PLATFORM_POSIX", "arduino": "-DARDUINO"}


def custom_header(d, combo, tag):
    """the platform's configuration with the given switches"""
    return model.config_header(os.path.join(d, "cfg_%s.h" % tag), combo[0], combo[1])


def mentions(src, sw):
    """switches that can change this file: those named by it or by any header it includes"""
    inc = set()
    todo = [src]
    names = set()
    base = os.path.join(model.repo(), "src")
    while todo:
        f = todo.pop()
        if f in inc or not os.path.exists(f):
            continue
        inc.add(f)
        t = open(f, errors="replace").read()
        if "ush_config.h" not in f:
            names |= {s for s in sw if s in t}
        for h in re.findall(r'#\s*include\s*["<]([^">]+)[">]', t):
            for cand in (os.path.join(base, h), os.path.join(os.path.dirname(f), h)):
                todo.append(os.path.normpath(cand))
    return sorted(names)


_mx = {}


def matrix():
    if "m" in _mx:
        return _mx["m"]
    X = Matrix()
    X.switches = switches()
    X.sources = model.lib_sources()
    X.units = {}
    X.by = {}
    jobs = []
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix="ushcfg.")
    try:
        n = 0
        for src in X.sources:
            ms = mentions(src, X.switches)
            X.by[src] = ms
            for plat in ("posix", "arduino"):
                for vals in itertools.product((1, 0), repeat=len(ms)):
                    combo = (plat, tuple(zip(ms, vals)))
                    h = custom_header(d, combo, str(n))
                    jobs.append((src, combo, h, os.path.join(d, "u%d.ll" % n)))
                    n += 1

        def work(j):
            src, combo, h, o = j
            inc = ["-I" + os.path.join(model.repo(), "src"), '-DUSH_CONFIG_CUSTOM_FILE="%s"' % h, PLATDEF[combo[0]]]
            p = subprocess.run(["gcc", "-S", "-O0", "-Wall", "-Wextra", "-Werror", "-Wno-unused-function"] + inc +
                               [src, "-o", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return j, p.stdout
            p = subprocess.run([model.BIN + "clang", "-S", "-emit-llvm", "-O0", "-w", "-g0"] + inc + [src, "-o", o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return j, p.stdout if p.returncode else ""
        with ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(work, jobs))
        for (src, combo, h, o), diag in res:
            U = Unit()
            rel = os.path.relpath(src, os.path.join(model.repo(), "src"))
            X.units[(rel, combo)] = U
            if diag:
                U.ok = False
                U.diag = diag
                continue
            scan(U, o)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    X.internal_names = set()
    for U in X.units.values():
        X.internal_names |= set(U.defs)
    _mx["m"] = X
    return X


SIG = re.compile(r"^(define|declare) (.*?)@([\w.$]+)\((.*)\)")


def scan(U, path):
    """symbols of one translation unit, with their types"""
    m = llvm.load(path)
    used = set()
    for f in m.functions.values():
        if f.decl:
            continue
        for b in f.blocks:
            for I in b.insts:
                for v in operands(I):
                    used.update(refs(v))
    for g in m.globals.values():
        for _, v, _ in g.init or ():
            used.update(refs(v))
    for f in m.functions.values():
        if f.name.startswith("llvm."):
            continue
        if not f.decl:
            if f.linkage not in (8, 9):
                U.defs[f.name] = f.fty
        elif f.name in used:
            U.undef[f.name] = f.fty
    for g in m.globals.values():
        if not g.decl:
            if g.linkage not in (8, 9):
                U.defs[g.name] = "data %s" % ("const" if g.const else "mutable")
        elif g.name in used:
            U.undef[g.name] = "data"
    U.mod = {g.name: (g.size, g.string, g.init) for g in m.globals.values() if not g.decl}


def full(combo, unit_switches):
    d = dict(combo[1])
    return (combo[0], tuple((k, d[k]) for k in unit_switches))


def compatible(a, b):
    """does a definition's type satisfy a use?  (data: anything)"""
    return a == b or b == "data"


def c25(c):
    X = matrix()
    sw = X.switches
    c.extra["switches"] = sw
    c.extra["platforms"] = ["posix", "arduino"]
    C_ = c.rule("compiles", "every translation unit compiles without diagnostics (-Wall -Wextra -Werror) under every "
                "combination of the switches it can see", 100)
    L = c.rule("links", "in every configuration each symbol a unit refers to is defined exactly once in the library or is an "
               "approved external function", 1000)
    T = c.rule("signatures", "a unit that declares a library function declares the type its definition has", 100)
    for (u, combo), U in sorted(X.units.items()):
        if U.ok:
            c.ok(C_, "%s: %s" % (u, show(combo)))
        else:
            c.bad(C_, u, "does not compile for %s" % show(combo), U.diag.splitlines()[:12])
    srcs = [(os.path.relpath(s, os.path.join(model.repo(), "src")), X.by[s]) for s in X.sources]
    reported = set()
    nconf = 0
    for plat in ("posix", "arduino"):
        for vals in itertools.product((1, 0), repeat=len(sw)):
            combo = (plat, tuple(zip(sw, vals)))
            nconf += 1
            defs, first = {}, {}
            us = []
            for u, ms in srcs:
                U = X.units.get((u, full(combo, ms)))
                if U is None or not U.ok:
                    continue
                us.append((u, U))
                for n, s in U.defs.items():
                    if n in defs:
                        if ("dup", n) not in reported:
                            reported.add(("dup", n))
                            c.bad(L, u, "%s is defined twice for %s (also in %s)" % (n, show(combo), first[n]))
                    defs[n] = s
                    first[n] = u
            good = 0
            for u, U in us:
                for n, s in U.undef.items():
                    if n in defs:
                        good += 1
                        if not compatible(defs[n], s):
                            if ("sig", n, u) not in reported:
                                reported.add(("sig", n, u))
                                c.bad(T, u, "declares %s as '%s', but it is defined as '%s' in %s" % (n, s, defs[n], first[n]),
                                      key="signature|%s|%s" % (os.path.basename(u), n))
                    elif approved(n, plat == "posix"):
                        good += 1
                    elif ("undef", n, u) not in reported:
                        reported.add(("undef", n, u))
                        c.bad(L, u, "refers to %s, which is not defined for %s" % (n, show(combo)))
            c.ok(L, show(combo), good)
    c.extra["configurations"] = nconf
    for (u, combo), U in X.units.items():
        for n, s in U.undef.items():
            if n in X.internal_names and ("sig", n, u) not in reported:
                c.ok(T, "%s uses %s" % (u, n))
    headers(c, X)
    tables(c, X)
    startup(c, X)


def ctype(q):
    """function type as clang spells it, without attributes"""
    return re.sub(r"__attribute__\(\(.*?\)\)", "", q).strip()


def ast_functions(header, defs, lang="c"):
    """functions and variables a header declares: name -> (kind, type)"""
    cmd = [model.BIN + "clang", "-fsyntax-only", "-x", lang, "-w", "-I" + os.path.join(model.repo(), "src"),
           "-Xclang", "-ast-dump=json"] + defs + [header]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        return None, p.stderr
    t = json.loads(p.stdout)
    out = {}

    def walk(ns, cur):
        for n in ns:
            loc = n.get("loc", {})
            l = loc.get("expansionLoc", loc)
            if "file" in l:
                cur[0] = l["file"]
            k = n.get("kind")
            if k == "LinkageSpecDecl":
                walk(n.get("inner", []), cur)
            elif k in ("FunctionDecl", "VarDecl") and "src/" in (cur[0] or "") and model.repo() in os.path.abspath(cur[0]):
                if k == "FunctionDecl" and not any(x.get("kind") == "CompoundStmt" for x in n.get("inner", [])):
                    out[n["name"]] = (k, ctype(n["type"]["qualType"]), n.get("mangledName", n["name"]),
                                      os.path.relpath(cur[0], os.path.join(model.repo(), "src")))
                elif k == "VarDecl" and n.get("storageClass") == "extern":
                    out[n["name"]] = (k, ctype(n["type"]["qualType"]), n.get("mangledName", n["name"]),
                                      os.path.relpath(cur[0], os.path.join(model.repo(), "src")))
    walk(t.get("inner", []), [None])
    return out, ""


def header_switches(sw):
    base = os.path.join(model.repo(), "src/inc")
    names = set()
    for f in sorted(os.listdir(base)):
        t = open(os.path.join(base, f), errors="replace").read()
        names |= {s for s in sw if s in t}
    return sorted(names)


def headers(c, X):
    """public and internal headers against the definitions, C and C++"""
    import tempfile
    import shutil
    H = c.rule("declared means defined", "every function and variable declared by a header of a configuration is defined in "
               "that configuration, and the definition has the declared type", 40)
    P = c.rule("usable from C++", "the public headers compile as C++ (no diagnostics) and every declaration there has C "
               "linkage", 10)
    S = c.rule("self-contained", "each public header compiles on its own", 5)
    hs = header_switches(X.switches)
    base = os.path.join(model.repo(), "src")
    inc = sorted(f for f in os.listdir(os.path.join(base, "inc")) if f.endswith(".h"))
    tops = [f for f in sorted(os.listdir(base)) if f.endswith(".h")]
    if not inc:
        raise Broken("anchor vanished: public headers")
    d = tempfile.mkdtemp(prefix="ushhdr.")
    try:
        jobs = []
        for plat in ("posix", "arduino"):
            for vals in itertools.product((1, 0), repeat=len(hs)):
                combo = (plat, tuple((k, dict(zip(hs, vals)).get(k, 1)) for k in X.switches))
                h = custom_header(d, combo, "h%s%s" % (plat, "".join(map(str, vals))))
                cdef = ['-DUSH_CONFIG_CUSTOM_FILE="%s"' % h, PLATDEF[plat]]
                jobs.append((combo, cdef, "all", None))
                for f in ["inc/" + x for x in inc] + tops:
                    jobs.append((combo, cdef, "one", f))
        allh = os.path.join(d, "all.h")
        with open(allh, "w") as f:
            for x in inc:
                f.write('#include "inc/%s"\n' % x)
            for x in tops:
                f.write('#include "%s"\n' % x)

        def work(j):
            combo, cdef, kind, f = j
            if kind == "all":
                a, e1 = ast_functions(allh, cdef)
                b, e2 = ast_functions(allh, cdef, "c++")
                return j, a, b, e1 + e2
            r = []
            for lang, cc in (("c", "gcc"), ("c++", "g++")):
                p = subprocess.run([cc, "-fsyntax-only", "-x", lang, "-Wall", "-Wextra", "-Werror", "-I" + base] + cdef +
                                   ["-include", os.path.join(base, f), "/dev/null"], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                r.append(p.stdout if p.returncode else "")
            return j, r, None, ""
        with ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(work, jobs))
        done = set()
        for (combo, cdef, kind, f), a, b, err in res:
            if kind == "one":
                c.expect(S, not a[0], f, "does not compile on its own for %s" % show(combo), a[0].splitlines()[:6],
                         good=f)
                c.expect(P, not a[1], f, "does not compile as C++ for %s" % show(combo), a[1].splitlines()[:6], good=f)
                continue
            if a is None or b is None:
                c.bad(P, "headers", "do not compile for %s" % show(combo), err.splitlines()[:8])
                continue
            defs = {}
            types = {}
            for s in X.sources:
                u = os.path.relpath(s, base)
                U = X.units.get((u, full(combo, X.by[s])))
                if U is not None and U.ok:
                    defs.update(U.defs)
            for n, (k, q, mg, where) in sorted(a.items()):
                if not where.startswith(("inc/", "microshell")):
                    continue
                if n in defs:
                    c.ok(H, "%s (%s)" % (n, where))
                elif (n, where) not in done:
                    done.add((n, where))
                    c.bad(H, where, "declares %s, which is not defined for %s" % (n, show(combo)))
            for n, (k, q, mg, where) in sorted(b.items()):
                if n in a:
                    c.expect(P, mg == n, where, "%s does not have C linkage when used from C++ (%s)" % (n, mg), good=n)
        # declared type = defined type: the definition is type checked in a unit that also sees the headers
        for s in X.sources:
            u = os.path.relpath(s, base)
            tu = os.path.join(d, "t_%s.c" % os.path.basename(s))
            with open(tu, "w") as f:
                f.write('#include "%s"\n#include "%s"\n' % (allh, s))
            for plat in ("posix", "arduino"):
                combo = (plat, tuple((k, 1) for k in X.switches))
                h = custom_header(d, combo, "t" + plat)
                p = subprocess.run([model.BIN + "clang", "-fsyntax-only", "-w", "-I" + base,
                                    '-DUSH_CONFIG_CUSTOM_FILE="%s"' % h, PLATDEF[plat], tu],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                c.expect(H, p.returncode == 0, u, "a definition contradicts the headers", p.stdout.splitlines()[:8], good=u)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tables(c, X):
    """built-in command table of every selection"""
    B = c.rule("selected commands", "the table of built-in commands holds exactly the commands whose switch is on, each once, "
               "with a name, a description, a help text and an exec function that is defined", 200)
    pre = "USH_CONFIG_ENABLE_COMMAND_"
    feat = "USH_CONFIG_ENABLE_FEATURE_COMMANDS"
    m, Pr = model.get("arduino")
    fs = Pr["sizeof"]["ush_file_descriptor"]
    off = {n: Pr["off"][("ush_file_descriptor", n)] for n in model.FILE_F}
    found = 0
    for (u, combo), U in sorted(X.units.items()):
        if not U.ok or entries.TABLE not in U.mod:
            continue
        found += 1
        size, _, init = U.mod[entries.TABLE]
        d = dict(combo[1])
        want = sorted(k[len(pre):].lower() for k in X.switches if k.startswith(pre) and d.get(k, 1))
        got = []
        for i in range(size // fs):
            row = {}
            for n in model.FILE_F:
                v = next((v for o, v, sz in init or () if o == i * fs + off[n]), None)
                row[n] = v
            nm = U.mod.get(row["name"][1]) if row["name"] and row["name"][0] == 'g' else None
            got.append(nm[1][:-1].decode() if nm and nm[1] else "?")
            for n in ("description", "help", "exec"):
                c.expect(B, row[n] and row[n][0] == 'g', u, "%s: command %s has no %s" % (show(combo), got[-1], n),
                         good="%s has a %s" % (got[-1], n))
        c.expect(B, sorted(got) == want, u, "%s: the table holds %s, selected are %s" % (show(combo), got, want),
                 good="%s: %s" % (show(combo), got))
        c.expect(B, d.get(feat, 1) == 1, u, "%s: a table exists although commands are disabled" % show(combo))
    if not found:
        raise Broken("anchor vanished: built-in command table")


PRE = "USH_CONFIG_ENABLE_COMMAND_"
FEAT = "USH_CONFIG_ENABLE_FEATURE_COMMANDS"


def selections(sw):
    """command selections on which the start of a session is analysed"""
    cmds = [s for s in sw if s.startswith(PRE)]
    out = [tuple((k, 1) for k in cmds), tuple((k, 0) for k in cmds), ((FEAT, 0),)]
    out += [tuple((k, int(k == x)) for k in cmds) for x in cmds]
    out += [tuple((k, int(k != x)) for k in cmds) for x in cmds]
    return out


def node_cell(o, name):
    """field of the session's own command set after the call (None: never written)"""
    M = o.M
    v = o.st.cells.get((M.SELF, M.bc + M.foff[("node", name)]))
    return None if v is None else o.st.nv(v)


def init_entry(cfg):
    def f():
        E = Entry("ush_init() for %s" % show(cfg), config=cfg)
        E.kind, E.api = "api", "ush_init"
        try:
            E.run("ush_init", [Ptr(E.M.SELF), Ptr(E.M.DESC)])
        except Broken:
            # every path ends in a failing assertion: the obligations say so
            if not any(o["bad"] for o in obligations([E]).values()):
                raise
        return E
    return entries.memo(("ush_init", cfg), f)


def startup(c, X):
    """ush_init() in configurations with different command selections"""
    R = c.rule("session start", "initialising a session registers exactly the table of selected built-in commands (none when "
               "there is nothing to register) and reaches no failing assertion", 10)
    for sel in selections(X.switches):
        cfg = ("posix", sel)
        E = guarded(c, "ush_init for " + show(cfg), lambda: init_entry(cfg))
        if E is None:
            continue
        c.use(E)
        decide(c, [E], R, lambda o: o["kind"] in ("assert", "bound", "null", "uninit"))
        M = E.M
        d = dict(sel)
        tab = M.mod.globals.get(entries.TABLE)
        want = len([k for k in d if k.startswith(PRE) and d[k]]) if d.get(FEAT, 1) else 0
        for o in E.outcomes:
            st = o.st
            head = o.get("commands")
            head = st.np(head) if isinstance(head, Ptr) else head
            if want == 0:
                empty = isinstance(head, Ptr) and head.base is NULLB
                if not empty and isinstance(head, Ptr) and head.base is M.SELF:
                    n = node_cell(o, "file_list_size")
                    empty = n is not None and cst(n) == 0
                c.expect(R, empty, "%s %s" % (E.fn, "; ".join(o.trail()[-2:])),
                         "%s: a command set is registered although no command is selected" % show(cfg), good=show(cfg))
                continue
            ok = isinstance(head, Ptr) and head.base is M.SELF and cst(head.off) == M.bc
            fl = node_cell(o, "file_list")
            n = node_cell(o, "file_list_size")
            n = None if n is None else cst(n)
            good = ok and isinstance(fl, Ptr) and isinstance(fl.base, Region) and fl.base.name == "glob:" + entries.TABLE \
                and cst(fl.off) == 0 and n == want
            c.expect(R, good, "%s %s" % (E.fn, "; ".join(o.trail()[-2:])),
                     "%s: %d commands are selected, the session starts with %s" % (show(cfg), want, n if ok else "another set"),
                     good="%s: %d commands" % (show(cfg), want))


CHECKS = {"C21": c21, "C23": c23, "C25": c25}
