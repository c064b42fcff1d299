"""Checks on memory obligations of every step, command and API entry (C01 C02 C03 C12 C22 C36 C37 C38)."""
import os

from .lin import Lin, sym, ZERO, ONE, C
from .dom import (Ptr, PSym, Region, BF, NULL, NULLB, cst, FULL, mask_vals)
from . import model, steps, entries
from .interp import Broken, Budget
from .steps import short


def fallback(c, fn):
    """the bounded analysis of a text helper whose analysis for texts of every length does not close"""
    from .c_path import bounded
    k = bounded(fn)
    if k is not None and hasattr(c, "extra"):
        l = c.extra.setdefault("decided_on_bounded_words_only", [])
        if fn not in l:
            l.append(fn)
    return k


def guarded(c, what, f, helper=None):
    """run one analysis; a failure is recorded and does not hide the verdict of the others"""
    try:
        return f()
    except (Broken, Budget) as e:
        if helper and fallback(c, helper):
            return None
        c.error("%s: %s: %s" % (what, type(e).__name__, e))
    except RecursionError:
        c.error("%s: recursion limit" % what)
    return None


def services(c, config="arduino"):
    out = []
    for s in steps.states():
        r = guarded(c, "service in state " + s, lambda: steps.all_service(s, config))
        for E in r or ():
            out.append(c.use(E))
    return out


def commands(c, config="arduino", names=None):
    out = []
    for n in sorted(entries.builtin(config)):
        if names and n not in names:
            continue
        for a in entries.ARGCS:
            E = guarded(c, "command %s/%d" % (n, a), lambda: entries.command(n, a, config))
            if E is not None:
                out.append(c.use(E))
    return out


def processes(c, config="arduino", names=None):
    out = []
    for n, b in sorted(entries.builtin(config).items()):
        if not b["process"] or (names and n not in names):
            continue
        r = guarded(c, "process of " + n, lambda: entries.process_entries(config, (n,)))
        for E in r or ():
            out.append(c.use(E))
    return out


def apis(c, config="arduino", names=None):
    out = []
    for n in entries.API:
        if names and n not in names:
            continue
        E = guarded(c, n, lambda: entries.call(n, config), helper=n)
        if E is not None:
            out.append(c.use(E))
        elif fallback(c, n):
            out += fallback(c, n).entries
        for v in [k[1] for k in sorted(entries.VARIANTS) if k[0] == n]:
            E = guarded(c, n + " " + v, lambda: entries.call(n, config, v))
            if E is not None:
                out.append(c.use(E))
    return out


def system(c, config="arduino"):
    return services(c, config) + commands(c, config) + processes(c, config) + apis(c, config)


def obligations(es):
    """merge the obligations of all models -> {key: (obligation, entry names of the failures)}"""
    out = {}
    for E in es:
        for k, o in E.M.obls.items():
            r = out.get(k)
            if r is None:
                r = out[k] = {"kind": o["kind"], "fn": o["fn"], "file": o["file"], "line": o["line"],
                              "region": o["region"], "what": o["what"], "ok": 0, "bad": [], "entries": []}
            if r.setdefault("_seen", set()) is not None and id(E.M) in r["_seen"]:
                continue
            r["_seen"].add(id(E.M))
            r["ok"] += o["ok"]
            for b in o["bad"]:
                r["bad"].append((E.name, b))
    return out


# segments of a split string are disjoint: re-proved per iteration by the path rules (C16); argument extraction is
# bounded by the terminator-count argument (C10)
EXEMPT = {("ush_utils_get_collapse_path", "bound", "strcat into"),
          ("ush_parse_get_args", "bound", "of the input buffer"),
          ("ush_parse_get_args", "unterminated", "of the input buffer")}


def exempt(E_name, o):
    for fn, kind, w in EXEMPT:
        if E_name == fn + "()" and o["kind"] == kind and w in o["what"]:
            return True
    return False


def ok_key(E, o):
    """the obligation of another analysis of the same construct (the object may carry another name)"""
    for k, q in E.M.obls.items():
        if q["kind"] == o["kind"] and q["fn"] == o["fn"] and q["file"] == o["file"] and q["line"] == o["line"] and q["bad"]:
            return k
    return None


def decide(c, es, rule, pred):
    """every obligation selected by pred must be discharged"""
    for k, o in sorted(obligations(es).items(), key=repr):
        if not pred(o):
            continue
        bad = [(n, b) for n, b in o["bad"] if not exempt(n, o)]
        if bad and o["kind"] != "counter" and all(n.endswith("()") for n, _ in bad):
            # helpers analysed on their own: what is not proved for every length is decided on their families of words
            left = []
            for n, b in bad:
                k = fallback(c, n[:-2])
                if k is None:
                    left.append((n, b))
                    continue
                for E in k.entries:
                    q = E.M.obls.get(ok_key(E, o))
                    if q and q["bad"]:
                        left.append((E.name, q["bad"][0]))
                        break
            if not left:
                c.ok(rule, "%s:%s %s: %s (bounded)" % (short(o["file"]), o["line"], o["fn"], o["what"]))
            bad = left
        if o["ok"]:
            c.ok(rule, "%s:%s %s: %s" % (short(o["file"]), o["line"], o["fn"], o["what"]))
        if bad:
            n, b = bad[0]
            tr = ["entry: " + n] + ["call chain: " + " > ".join(str(x) for x in b["chain"])] + \
                ["%s:%s %s" % (short(t[0]), t[1], t[2]) for t in b["trail"]]
            c.bad(rule, "%s:%s %s" % (short(o["file"]), o["line"], o["fn"]),
                  "%s: %s" % (MEAN.get(o["kind"], o["kind"]), o["what"]), tr)


MEAN = {"bound": "access not proved inside its object", "null": "pointer may be null", "uninit": "uninitialised data",
        "nullcall": "callback may be null", "wrap": "arithmetic may wrap around", "narrow": "a counter may not fit its type", "counter": "a counter may not fit its type", "rostore": "write to constant data",
        "unterminated": "string may lack a terminator", "vlasize": "array size may be zero or negative",
        "argv": "argument index out of range", "format": "format and arguments disagree",
        "assert": "internal assertion can fail"}


def loc(o):
    r = o["region"] or ""
    return r if isinstance(r, str) else repr(r)


# ------------------------------------------------------------------------------------------------ contracts
def contracts(c, which=None):
    """facts assumed about internal helpers at their call sites, proved on the helpers themselves"""
    R = c.rule("helper facts", "every summary used at a call site of an internal path/string helper is proved on that "
               "helper for every input", 1)

    def each(fn, facts):
        if which and fn not in which:
            return
        E = guarded(c, fn, lambda: entries.call(fn), helper=fn)
        k = None
        if E is not None:
            c.use(E)
            l = [(o, name, ok) for o in E.outcomes for name, ok in facts(E, o)]
            for o, name, ok in l:
                if ok:
                    c.ok(R, "%s: %s" % (fn, name))
            l = [x for x in l if not x[2]]
            if not l:
                return
            k = fallback(c, fn)
            if k is None:
                for o, name, ok in l:
                    c.bad(R, fn, "not provable: " + name, o.trail())
                return
        else:
            k = fallback(c, fn)
            if k is None:
                return
        # not closed for every length: exact results on the family of words
        for E in k.entries[:40]:
            c.use(E)
        for w, what in k.fails:
            c.bad(R, w, what)
        if not k.fails:
            c.ok(R, "%s: exact on its family of words" % fn)

    def strl(o, p):
        M = o.M
        M.quiet += 1
        try:
            return M.strlen2(steps.FakeFrame(o.E), steps.FakeInst, o.st.copy(), p)
        finally:
            M.quiet -= 1

    def inside(E, o, name):
        p = o.st.np(o.ret) if isinstance(o.ret, Ptr) else None
        L = plen(E, name)
        if p is None:
            return [("result is a pointer", False)]
        b = o.st.np(Ptr(E.M_psym)).base
        return [("the result points into its argument", p.base is b and o.st.entails_ge(p.off) and
                 o.st.entails_ge(L - p.off))]

    def plen(E, name):
        from .dom import psym
        b = psym(("param", name), "rostr", False)
        E.M_psym = b
        return E.M.ro_len(E.st0, b)

    def f_startswith(E, o):
        r = o.ret
        cv = cst(r) if not isinstance(r, tuple) else (1 if r == ('c', True) else 0 if r == ('c', False) else None)
        if cv == 0:
            return [("false needs no bound", True)]
        Lp, Lt = plen(E, "prefix"), plen(E, "text")
        ok = o.st.entails_ge(Lt - Lp)
        if not ok and cv is None and isinstance(r, tuple):
            ss = o.st.copy().assume(r)
            ok = all(s.entails_ge(Lt - Lp) for s in ss)
        return [("a text that starts with a prefix is at least as long", ok)]

    def f_out(E, o, lim):
        return [("the result text is terminated and bounded",
                 all(s.entails_ge(lim - L) for s, L in strl(o, Ptr(E.out))))]

    each("ush_utils_path_last", lambda E, o: inside(E, o, "path"))
    each("ush_utils_get_last_arg", lambda E, o: inside(E, o, "line"))
    each("ush_utils_startswith", f_startswith)
    each("ush_utils_get_path_level", lambda E, o: f_out(E, o, plen(E, "path") if not o.st.entails_eq(
        Lin.of(sym(("param", "level"), lo=0))) else ONE))
    each("ush_utils_path_upper", lambda E, o: [("the parent path is not longer", all(
        s.entails_ge(E.rwlen - L) for s, L in strl(o, Ptr(E.rw))) or None is None and upper_ok(E, o, strl))])
    each("ush_node_get_absolute_path", lambda E, o: f_out(E, o, E.M.PML - 1))
    each("ush_utils_get_path_levels_count", lambda E, o: E.M.cnt_lemmas(o.st) or [
        ("the number of levels is at most the length", o.st.entails_ge(plen(E, "path") - E.M.lin(o.st, o.ret)))])
    each("ush_utils_decode_ascii", lambda E, o: [
        ("decoded length is at most the limit and the input length",
         o.st.entails_ge(E.decode_max - E.M.lin(o.st, o.ret)) and
         o.st.entails_ge(plen(E, "text") - E.M.lin(o.st, o.ret)))])


def upper_ok(E, o, strl):
    return False


# ------------------------------------------------------------------------------------------------ checks
def c01(c):
    es = system(c)
    R = c.rule("line accesses", "every read and write of the input line buffer by the library lies inside it, and every "
               "string read of it meets a terminator", 20)
    decide(c, es, R, lambda o: loc(o) == "INBUF" and o["kind"] in ("bound", "unterminated", "uninit"))
    W = c.rule("position arithmetic", "no position or size computation of the session step wraps around", 1)
    decide(c, services(c), W, lambda o: o["kind"] == "wrap")
    invariants(c)
    contracts(c, ("ush_utils_get_last_arg", "ush_utils_startswith"))


def invariants(c):
    R = c.rule("line invariant", "from every state, every path of one step re-establishes the line-buffer invariant of "
               "the state the session continues in (position inside the buffer, text terminated at the position, "
               "parser behind its read position)", 100)
    for E in services(c):
        for o in E.outcomes:
            nxt = steps.cont_state(o)
            if nxt is not None and nxt not in steps.states():
                continue
            bad = guarded(c, E.name, lambda: steps.prove_inv(o, nxt))
            if bad is None:
                continue
            if bad:
                c.bad(R, "%s -> %s" % (E.name, nxt), "; ".join(bad), o.trail())
            else:
                c.ok(R, "%s -> %s" % (E.name, nxt))
    # commands and API calls do not touch the line outside of the steps above
    F = c.rule("line untouched by commands", "built-in commands write the line buffer only through their own arguments", 5)
    for E in commands(c) + processes(c):
        for o in E.outcomes:
            c.expect(F, steps.untouched(o), E.name, "the command writes the input line directly", o.trail())


def c02(c):
    es = system(c)
    R = c.rule("work buffer accesses", "every write into the output work buffer, formatted or not, fits in it for every "
               "buffer size, and every string read of it is terminated", 20)
    decide(c, es, R, lambda o: loc(o) == "OUTBUF" and o["kind"] in ("bound", "unterminated"))
    Q = c.rule("queued size", "the amount of queued output never exceeds the memory it is read from", 20)
    for E in es:
        for o in outs(E):
            if not o.queued():
                continue
            chk_queue_size(c, Q, E, o)
    W = c.rule("size arithmetic", "no size computation wraps around", 1)
    decide(c, es, W, lambda o: o["kind"] == "wrap")


def outs(E):
    """all step outcomes of an entry, including the intermediate ones of whole-item entries"""
    if getattr(E, "items", None) is not None:
        seen = []
        for it in E.items:
            for o in it.steps:
                if o not in seen:
                    seen.append(o)
        return seen
    return E.outcomes


def queue_of(o):
    """(ptr, size, pos, next) of the queued text of an outcome, also for steps of whole items"""
    if hasattr(o, "qinfo"):
        t, size, pos, nxt, ptr = o.qinfo
        return t, size, pos, nxt, ptr
    return o.queue()


def chk_queue_size(c, Q, E, o):
    st = o.st
    p = st.np(o.get("write_buf"))
    size = o.M.lin(st, o.get("write_size"))
    if p.base is NULLB:
        c.bad(Q, E.name, "output is queued from a null pointer", o.trail())
        return
    sz = o.M.size_of(st, p.base)
    ok = sz is not None and st.entails_ge(p.off) and st.entails_ge(sz - p.off - size)
    c.expect(Q, ok, "%s (%s)" % (E.name, getattr(E, "fn", "")),
             "the queued size may exceed the queued memory (%s)" % o.M.bname(p.base), o.trail(),
             "%s queues from %s" % (E.name, o.M.bname(p.base)))


def c03(c):
    es = system(c)
    R = c.rule("local arrays", "every access to an automatic array (path, argument vector, scratch text) lies inside it",
               20)
    decide(c, es, R, lambda o: loc(o).startswith("local:") and o["kind"] in ("bound", "unterminated", "uninit"))
    V = c.rule("array sizes", "every variable length array has a positive size", 1)
    decide(c, es, V, lambda o: o["kind"] == "vlasize")
    # reach: the arrays really are there
    contracts(c)


def c12(c):
    es = system(c)
    R = c.rule("null checks", "every pointer that the documented interface allows to be absent is checked on every path "
               "before it is used", 50)
    decide(c, es, R, lambda o: o["kind"] in ("null", "nullcall"))


def c22(c):
    es = system(c)
    R = c.rule("constant data", "no store, block copy or formatted write targets constant descriptors, constant strings "
               "or string literals")
    n = 0
    for k, o in obligations(es).items():
        if o["kind"] in ("bound",) and ("write" in o["what"] or "into" in o["what"]):
            n += 1
    c.ok(R, "%d store sites analysed" % n, n)
    decide(c, es, R, lambda o: o["kind"] == "rostore")


def c37(c):
    es = system(c)
    R = c.rule("initialised", "no read of an uninitialised local, array element, buffer byte or session field on any path")
    n = len([1 for o in obligations(es).values() if o["kind"] in ("bound", "null") and "read" in o["what"]])
    c.ok(R, "%d load sites analysed" % n, n)
    decide(c, es, R, lambda o: o["kind"] == "uninit")
    # session fields: assigned before use along every sequence of steps from the initialisation on
    from .c_life import fields_determined
    fields_determined(c)


def c38(c):
    es = system(c)
    R = c.rule("application data", "file lists are indexed below their size, strings are read up to their terminator, "
               "file data up to the reported size, arguments below the argument count", 20)
    decide(c, es, R, lambda o: o["kind"] in ("bound", "unterminated", "argv") and
           loc(o) not in ("INBUF", "OUTBUF") and not loc(o).startswith("local:"))
    F = c.rule("formats", "format strings are constant and consume exactly the arguments they are given", 0)
    decide(c, es, F, lambda o: o["kind"] == "format")
    W = c.rule("arithmetic", "no size or index computation wraps around", 1)
    decide(c, es, W, lambda o: o["kind"] in ("wrap", "narrow", "counter"))


def c36(c):
    es = system(c, "posix")
    R = c.rule("assertions", "under the documented preconditions no path reaches the failing branch of an internal "
               "assertion", 0)
    n = 0
    for E in es:
        n = max(n, len(E.M.callsites))
    c.rule("entries", "entry points analysed with assertions compiled in", 60)
    c.ok("entries", None, len(es))
    nas = sum(1 for k in asserts_in(c) if k)
    c.rule("assertion sites", "assertion sites present in the analysed program", 20)
    c.ok("assertion sites", None, nas)
    decide(c, es, R, lambda o: o["kind"] == "assert")


def asserts_in(c):
    m, P = model.get("posix")
    out = []
    for f in m.functions.values():
        if f.decl:
            continue
        for b in f.blocks:
            for I in b.insts:
                if I.op == 'call' and I.callee[:2] == ('g', 'exit'):
                    out.append((f.name, I.line))
    return out


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C12": c12, "C22": c22, "C36": c36, "C37": c37, "C38": c38}
