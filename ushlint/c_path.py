"""Path arithmetic (C16): every path helper is analysed on abstract paths.  An abstract path is a word of separators and
unknown component bytes, each unknown byte standing for all values except the separator and the terminator; the analysis
splits a byte only where the code distinguishes it.  Each abstract result is compared with the reference result as a word
of separators, dots and input bytes."""
import itertools

from .lin import Lin, sym, ZERO, ONE, C, fresh_id
from .dom import IDT, Ptr, Region, BF, Buf, cst, psym, FULL, mask_vals, mask_of
from . import steps, entries, model
from .interp import Broken
from .c_mem import guarded
from .c_cmd import contents

SLASH, DOT = ord('/'), ord('.')
ANY = FULL & ~1 & ~(1 << SLASH)              # a component byte
NAME = ANY & ~(1 << DOT)                     # a component byte that is not a dot


class Cls:
    """unknown byte of a pattern"""
    def __init__(self, mask, ch):
        self.mask, self.ch = mask, ch


X, N = Cls(ANY, "?"), Cls(NAME, "n")


def word(t):
    return tuple(X if ch == '?' else N if ch == 'n' else ord(ch) for ch in t)


def buf(name, size):
    return Region("array:%s" % name, "larr", size if isinstance(size, Lin) else C(size), kind="buf", meta={"esz": 1})


def put(E, i, ver, pat):
    M, st = E.M, E.st0
    for j, ch in enumerate(pat):
        b = M.byte_sym(st, ver, C(j))
        if isinstance(ch, Cls):
            st.add_set(b, ch.mask)
            E.syms[i, j] = b
        else:
            st.add_set(b, 1 << ch)
    M.reg_zero(st, ver, ZERO, C(len(pat)))


def text_run(fn, spec, slack=8, special=DOT):
    """spec: list of ('text', pattern) modifiable text | ('ro', pattern) constant text | ('out', size) | ('int', value)"""
    def f():
        E = steps.Entry("%s(%s)" % (fn, ", ".join(describe(x) for x in spec)), contracts=())
        E.kind, E.api = "api", fn
        E.special = special
        M, st = E.M, E.st0
        args, E.regs, E.syms, E.pats = [], [], {}, {}
        longest = 0
        for i, (k, v) in enumerate(spec):
            r = None
            if k == 'text':
                r = buf("text%d" % i, len(v) + 1)
                st.bufs[r] = Buf(("in", i), (), None, False)
                put(E, i, ("in", i), v)
                longest += len(v)
                args.append(Ptr(r))
            elif k == 'ro':
                r = psym(("param", "text%d" % i), "rostr", False)
                put(E, i, M.ver0(r), v)
                longest += len(v)
                args.append(Ptr(r))
            elif k == 'out':
                r = buf("out%d" % i, v)
                st.bufs[r] = Buf(("new", "out%d" % i, fresh_id()), (), None, True)
                args.append(Ptr(r))
            else:
                args.append(C(v))
            if k in ('text', 'ro'):
                E.pats[i] = v
            E.regs.append(r)
        M.unroll = longest + slack
        E.run(fn, args)
        return E
    return entries.memo(("text", fn, tuple(spec), special), f)


def describe(x):
    return show(x[1]) if x[0] in ('text', 'ro') else str(x[1])


def show(t):
    return '"%s"' % "".join(ch.ch if isinstance(ch, Cls) else '?' if isinstance(ch, tuple) else chr(ch) for ch in t)


def classes(E, st):
    """the ways the unknown bytes of the outcome can be dots or other bytes: dicts (reg, pos) -> token"""
    keys, opts = [], []
    for k, b in sorted(E.syms.items()):
        m = st.sets.get(b, FULL)
        keys.append(k)
        d = E.special
        opts.append(([d] if m >> d & 1 else []) + ([k] if m & ~(1 << d) else []))
    for combo in itertools.product(*opts):
        yield dict(zip(keys, combo))


def judge(c, R, E, want):
    """want(texts) -> dict(reg index -> word (terminated text), 'ret' -> int | ('at', reg index, offset))"""
    c.use(E)
    done = set()
    for o in E.outcomes:
        cache = {}
        okk = True
        for pick in classes(E, o.st):
            done.add(tuple(pick[k] == E.special for k in sorted(pick)))
            texts = {i: tuple(pick[i, j] if isinstance(ch, Cls) else ch for j, ch in enumerate(p))
                     for i, p in E.pats.items()}
            for k, x in want(texts).items():
                if k == 'ret':
                    good = ret_is(o, E, x)
                    x = x if isinstance(x, int) else "offset %d" % x[2]
                else:
                    n = len(x) + 1
                    if (k, n) not in cache:
                        cache[(k, n)] = contents(o, E.regs[k], n)
                    good = all(same(E, s2, vals, x + (0,)) for s2, vals in cache[(k, n)])
                    x = show(x)
                if not good:
                    c.bad(R, "%s (%s)" % (E.api, (o.trail() or ["?"])[-1]), "%s with %s gives something else than %s" %
                          (E.name, " and ".join(show(t) for t in texts.values()), x), o.trail())
                    okk = False
                    break
            if not okk:
                break
        if okk:
            c.ok(R, E.name)
    n = 1
    for b in E.syms.values():
        n *= 2 if E.st0.sets.get(b, FULL) >> E.special & 1 else 1
    if len(done) < n:
        c.bad(R, E.api, "%s gives no result for some paths" % E.name)


def same(E, st, vals, want):
    for x, w in zip(vals, want):
        if isinstance(w, tuple):
            b = E.syms[w]
            if not (isinstance(x, BF) and x.s is b and
                    all(x.tbl[i] & 255 == i for i in mask_vals(st.sets.get(b, FULL) & ~(1 << E.special)))):
                # a byte known exactly
                m = st.sets.get(b, FULL) & ~(1 << E.special)
                if not (m & (m - 1) == 0 and cst(x) is not None and m == 1 << (cst(x) & 255)):
                    return False
            continue
        k = cst(x)
        if k is None and isinstance(x, BF):
            m = st.sets.get(x.s, FULL)
            if w == E.special and m >> w & 1 and x.s in E.syms.values():
                m = 1 << w
            vs = {x.tbl[i] & 255 for i in mask_vals(m)}
            k = vs.pop() if len(vs) == 1 else None
        if k is None or k & 255 != w:
            return False
    return True


def ret_is(o, E, x):
    r = o.ret
    if isinstance(x, tuple):
        return isinstance(r, Ptr) and o.st.np(r) == o.st.np(Ptr(E.regs[x[1]], C(x[2])))
    return not isinstance(r, tuple) and cst(o.st.nv(r)) == x


# ------------------------------------------------------------------------------------------------ families of paths
def paths(maxlen, mid="?"):
    """the canonical absolute paths: words of separators and component bytes without empty components"""
    yield word("/")
    for n in range(1, maxlen):
        for r in itertools.product("/" + mid, repeat=n):
            t = "/" + "".join(r)
            if "//" not in t and not t.endswith("/"):
                yield word(t)


LONG = [word("/n/n/n/n/n/n/n/n/n/n/n/n"), word("/n/n/../n/./n/../../nn/n"), word("/" + "n" * 140 + "/" + "n" * 140),
        word("/.../..n/.n/n../n."), word("/../../../n/.."), word("/n/../../n/./../n/n/.."), word("/nn/nn/??/nn/??/nn/??"),
        word("/n" * 260 + "/..")]


def split(t):
    out, cur = [], []
    for ch in t:
        if ch == SLASH:
            out.append(tuple(cur))
            cur = []
        else:
            cur.append(ch)
    return [x for x in out + [tuple(cur)] if x]


def join(cs):
    return sum(((SLASH,) + x for x in cs), ()) or (SLASH,)


def ref_collapse(t):
    out = []
    for x in split(t):
        if x == (DOT, DOT):
            del out[-1:]
        elif x != (DOT,):
            out.append(x)
    return join(out)


def rfind(t):
    return max(i for i, ch in enumerate(t) if ch == SLASH)


def ref_upper(t):
    return () if t in ((), (SLASH,)) else (t[:rfind(t)] or (SLASH,))


def ref_last(t):
    return 0 if t == (SLASH,) else rfind(t) + 1


def ref_level(t, n):
    return join(split(t)[:n])


def c16(c):
    def rule(n, text, m):
        return c.rule(n, text, m)
    R = {"collapse": rule("collapse", "'.' components vanish and '..' removes the preceding component, never above the root; "
                          "everything else is kept in order", 20),
         "upper": rule("parent path", "the parent path is the path without its last component", 20),
         "last": rule("last component", "the last component starts behind the last separator", 20),
         "count": rule("component count", "the number of components is exact", 20),
         "level": rule("prefix", "the first components are copied exactly", 20),
         "join": rule("join", "joining puts one separator between the parts", 20)}

    for key in R:
        family(c, R[key], key)
    from .c_mem import decide
    N = rule("any length", "no counter of a path helper wraps, however long the path or name", 6)
    es = []
    for fn, key in sorted(FAMILY.items()):
        if key in R:
            E = guarded(c, fn, lambda: entries.call(fn), helper=fn)
            if E is not None:
                es.append(c.use(E))
            c.ok(N, fn)
    decide(c, es, N, lambda o: o["kind"] == "counter")


def family(c, R, key):
    """one helper against its reference on all words of its family"""
    def go(fn, spec, want, **kw):
        E = guarded(c, fn, lambda: text_run(fn, spec, **kw))
        if E is not None:
            judge(c, R, E, want)
        return E is not None
    words = list(paths(MAXLEN)) + LONG
    if key == "collapse":
        for p in words:
            if not go("ush_utils_get_collapse_path", (('text', p), ('out', max(2, len(p) + 1))),
                      lambda t: {1: ref_collapse(t[0])}):
                break
    elif key == "upper":
        for p in words + [()]:
            go("ush_utils_path_upper", (('text', p),), lambda t: {0: ref_upper(t[0])})
    elif key == "last":
        for p in words:
            go("ush_utils_path_last", (('ro', p),), lambda t: {'ret': ('at', 0, ref_last(t[0]))})
    elif key == "count":
        for p in words + [()]:
            go("ush_utils_get_path_levels_count", (('ro', p),), lambda t: {'ret': len(split(t[0]))})
    elif key == "level":
        for p in words:
            for lv in sorted({0, 1, 2, 3, len(split(p))}):
                if lv <= len(p):
                    go("ush_utils_get_path_level", (('int', lv), ('ro', p), ('out', len(p) + 2)),
                       lambda t: {2: ref_level(t[1], lv)})
    elif key == "join":
        for p in list(paths(4)) + LONG:
            for nm in ((), word("?"), word("????"), word("n" * 40)):
                go("ush_utils_join_path", (('ro', p), ('ro', nm), ('out', len(p) + len(nm) + 2)),
                   lambda t: {2: t[0] + (() if t[0] == (SLASH,) else (SLASH,)) + t[1]})
    elif key == "word":
        # the word behind the last blank of the line
        L = Cls(FULL & ~1, "?")
        for n in range(9):
            go("ush_utils_get_last_arg", (('ro', (L,) * n),), lambda t: {'ret': ('at', 0, ref_word(t[0]))}, special=32)
        N2 = Cls(FULL & ~1 & ~(1 << 32), "n")
        go("ush_utils_get_last_arg", (('ro', (N2,) * 300 + (32,) + (N2,) * 300),),
           lambda t: {'ret': ('at', 0, ref_word(t[0]))}, special=32)
    elif key == "startswith":
        L = Cls(FULL & ~1, "?")
        for n in range(6):
            for m in range(6):
                spec = (('ro', (L,) * n), ('ro', (L,) * m))
                E = guarded(c, "startswith", lambda: text_run("ush_utils_startswith", spec, special=1))
                if E is not None:
                    judge_prefix(c, R, E, n, m)


def ref_word(t):
    return max([-1] + [i for i, ch in enumerate(t) if ch == 32]) + 1


def byte(b):
    return BF(b, IDT, 8)


def judge_prefix(c, R, E, n, m):
    from .c_fsm import truth
    c.use(E)
    for o in E.outcomes:
        t = truth(o, o.ret) if isinstance(o.ret, tuple) else None if cst(o.st.nv(o.ret)) is None else \
            cst(o.st.nv(o.ret)) != 0
        pairs = [(E.syms[0, j], E.syms[1, j]) for j in range(min(n, m))]
        d = [o.st.nl(E.M.bytes_eq(E.M.lin(o.st, byte(a)) - E.M.lin(o.st, byte(b)))) for a, b in pairs]
        if t is True:
            good = m <= n and all(o.st.entails_eq(x) for x in d)
        elif t is False:
            good = m > n or any(o.st.entails_ne(x, ZERO) for x in d)
        else:
            good = False
        c.expect(R, good, "%s (%s)" % (E.api, (o.trail() or ["?"])[-1]), "a text of %d and a prefix of %d bytes: the answer %s is "
                 "wrong" % (n, m, t), o.trail(), good=E.name)


# ------------------------------------------------------------------------------------------------ bounded second tier
class Collector:
    """collects the verdict of a family without reporting it"""
    def __init__(self):
        self.entries, self.fails, self.errors = [], [], []

    def use(self, E):
        if E not in self.entries:
            self.entries.append(E)
        return E

    def rule(self, n, text="", m=0):
        return n

    def ok(self, *a, **k):
        pass

    def bad(self, r, where, what, *a, **k):
        self.fails.append((where, what))

    def expect(self, r, cond, where, what, *a, **k):
        if not cond:
            self.bad(r, where, what)
        return cond

    def error(self, what):
        self.errors.append(what)


FAMILY = {"ush_utils_get_collapse_path": "collapse", "ush_utils_path_upper": "upper", "ush_utils_path_last": "last",
          "ush_utils_get_path_levels_count": "count", "ush_utils_get_path_level": "level", "ush_utils_join_path": "join",
          "ush_utils_get_last_arg": "word", "ush_utils_startswith": "startswith", "ush_utils_decode_ascii": "decode"}


def bounded(fn):
    """the helper on its family of abstract texts, or None; used where the proof for texts of every length does not close"""
    if fn not in FAMILY:
        return None

    def f():
        k = Collector()
        if fn == "ush_utils_decode_ascii":
            from .c_cmd import c26_decode
            c26_decode(k)
        else:
            family(k, "bounded", FAMILY[fn])
        return k
    k = entries.memo(("bounded", fn), f)
    return None if k.errors else k


MAXLEN = 10
CHECKS = {"C16": c16}
