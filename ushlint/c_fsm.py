"""Checks on the session state machine (C04-C11, C24, C31-C33)."""
import itertools
from .lin import Lin, sym, ZERO, ONE, C
from .dom import (State, Ptr, PSym, Region, BF, IDT, NULL, NULLB, cst, psym, FULL, mask_vals, mask_of)
from . import model, steps, entries
from .interp import Broken, Budget
from .steps import short, veq
from .c_mem import (guarded, services, commands, processes, apis, system, outs, queue_of, obligations, chk_queue_size)

POS = ("in_pos", "out_pos", "args_count", "escape_flag", "ansi_escape_state")
FSM = ("state", "write_next_state", "prompt_next_state")
QUEUE = ("write_buf", "write_size", "write_pos")


# ------------------------------------------------------------------------------------------------- small helpers
def truth(o, v):
    """truth value of a result on this outcome: True / False / None (undetermined)"""
    st = o.st
    if isinstance(v, tuple):
        return st.decide(v)
    v = st.nv(v)
    c = cst(v)
    if c is not None:
        return bool(c & 1) if False else c != 0
    if isinstance(v, Lin):
        return st.decide(('ne', v))
    if isinstance(v, BF):
        ms = [v.tbl[i] & 255 for i in mask_vals(st.sets.get(v.s, FULL))]
        if all(ms):
            return True
        if not any(ms):
            return False
    return None


def changed(o):
    """session fields whose value after the step may differ from before"""
    out = []
    for cls, n in o.M.foff:
        if cls == "self" and not o.same(n):
            out.append(n)
    for off, (n, sz) in o.M.fields["self"].items():
        if n.startswith("buildin_commands."):
            v = o.st.cells.get((o.M.SELF, off))
            if v is not None and (o.M.SELF, off) in o.st.written:
                out.append(n)
    return set(out)


def eqv(o, name, want):
    """the field provably equals `want` after the step"""
    v = o.get(name) if o.cell(name) is not None else o.init(name)
    w = C(want) if isinstance(want, int) else want
    return veq(o.st, v, w)


def read_mask(o):
    """-> (symbol, mask) of the byte read from the io interface in this step"""
    for e in o.ev('read'):
        if e[1] == 1:
            s = e[4].s
            return s, o.st.sets.get(s, FULL)
    return None, 0


def lit_of(pieces):
    """the bytes of a text made of constant pieces only"""
    if pieces is None:
        return None
    out = b""
    for p in pieces:
        if p[0] != 'lit':
            return None
        out += p[1]
    return out


def same_text(o, pieces, want):
    """pieces against want; want items: bytes | ('str', term) | ('chr', value)"""
    if pieces is None:
        return False
    w = []
    for x in want:
        if isinstance(x, bytes):
            if not x:
                continue
            if w and w[-1][0] == 'lit':
                w[-1] = ('lit', w[-1][1] + x)
            else:
                w.append(('lit', x))
        else:
            w.append(x)
    got = list(o.M.merge(tuple(pieces)))
    if len(got) != len(w):
        return False
    for g, x in zip(got, w):
        if g[0] != x[0]:
            return False
        if g[0] == 'lit' and g[1] != x[1]:
            return False
        if g[0] == 'str' and not term_eq(o, g[1], x[1]):
            return False
        if g[0] == 'chr' and not veq(o.st, g[1], x[1]):
            return False
        if g[0] not in ('lit', 'str', 'chr') and g != x:
            return False
    return True


def term_eq(o, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(term_eq(o, x, y) for x, y in zip(a, b))
    if isinstance(a, Lin) and isinstance(b, Lin):
        return o.st.entails_eq(a, b)
    if isinstance(a, PSym) and isinstance(b, PSym):
        return o.st.np(Ptr(a)) == o.st.np(Ptr(b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return o.st.np(a) == o.st.np(b)
    return False


def show(pieces):
    out = []
    for p in pieces or ():
        if p[0] == 'lit':
            out.append(repr(p[1])[1:])
        elif p[0] == 'chr':
            out.append("<byte>")
        else:
            out.append("<%s %s>" % (p[0], str(p[1])[:50]))
    return " ".join(out) if pieces is not None else "?"


def inbyte(o, off):
    """value set of INBUF[off] after the step (read through the write log); list of (state, value)"""
    M = o.M
    M.quiet += 1
    try:
        return M.read_byte(steps.FakeFrame(o.E), steps.FakeInst, o.st.copy(), M.INBUF, o.st.nl(off))
    finally:
        M.quiet -= 1


def in_is(o, off, v):
    """INBUF[off] provably holds v after the step"""
    for s, x in inbyte(o, off):
        if not veq(s, s.nv(x), v if not isinstance(v, int) else C(v)):
            return False
    return True


def in_kept(o, except_):
    """every byte of the input line other than at the given offsets is unchanged"""
    M = o.M
    bf = o.st.bufs.get(M.INBUF)
    if bf is None:
        return True
    st = o.st.copy()
    k = Lin.of(sym(("anyoff",), lo=0))
    st.add_ge(M.IBS - 1 - k)
    v0 = BF(M.byte_sym(st, M.ver0(M.INBUF), k), IDT, 8)
    work = [st]
    for e in except_:
        nxt = []
        for s in work:
            a, b = s.copy(), s.copy()
            if a.add_ge(k - e - 1):
                nxt.append(a)
            if b.add_ge(e - k - 1):
                nxt.append(b)
        work = nxt
    M.quiet += 1
    try:
        for s in work:
            for s2, v in M.read_byte(steps.FakeFrame(o.E), steps.FakeInst, s, M.INBUF, k):
                if not veq(s2, s2.nv(v), v0):
                    return False
    finally:
        M.quiet -= 1
    return True


def where(E, o):
    t = o.st.trail_list()
    for f in t[::-1]:
        if f[1]:
            return "%s (%s:%s)" % (E.name, short(f[0]), f[1])
    return E.name


# ------------------------------------------------------------------------------------------------- C04 output
def c04(c):
    R1 = c.rule("single writer", "the output callback is called only by the step that delivers queued text, at most "
                "once per step", 100)
    R2 = c.rule("delivery", "that step offers exactly the next queued byte; a refusal changes nothing, an acceptance "
                "advances by one byte, an exhausted queue continues in the requested state", 3)
    R3 = c.rule("queueing", "queueing text starts at its first byte and covers it completely", 20)
    R4 = c.rule("one text per step", "a step queues at most one text, and never while another one is being delivered", 50)
    R5 = c.rule("lifetime", "queued text never lives in memory that dies before it is delivered", 20)
    sv = services(c)
    others = commands(c) + processes(c) + apis(c)
    for E in sv + others:
        isw = getattr(E, "state", None) == "WRITE_CHAR" and E in sv
        for o in outs(E):
            ws = o.ev('write')
            if not isw:
                c.expect(R1, not ws, where(E, o), "output is written outside of the delivery step", o.trail())
            else:
                c.expect(R1, len(ws) <= 1, where(E, o), "more than one byte is written in one step", o.trail())
            n = len([1 for w in o.st.writes if w[0] is o.M.SELF and w[1] == o.M.foff[("self", "write_buf")]])
            if isw:
                c.expect(R4, n == 0, where(E, o), "text is queued while other text is being delivered", o.trail())
            else:
                c.expect(R4, n <= 1 or (E in others and E.kind == "api"), where(E, o),
                         "several texts are queued in one step: all but the last are lost", o.trail())
    seen = {"refused": 0, "sent": 0, "done": 0}
    for E in guarded(c, "WRITE_CHAR", lambda: steps.all_service("WRITE_CHAR")) or ():
        for o in E.outcomes:
            ws = o.ev('write')
            ch = changed(o)
            pos, size = E.M.lin(o.st, o.init("write_pos")), E.M.lin(o.st, o.init("write_size"))
            if not ws:
                seen["done"] += 1
                ok = o.st.entails_ge(pos - size)
                c.expect(R2, ok, where(E, o), "no byte is offered although text is left", o.trail())
                c.expect(R2, ch <= {"state"} and eqv(o, "state", E.M.lin(o.st, o.init("write_next_state"))), where(E, o),
                         "after the last byte the session does not continue in the requested state", o.trail(),
                         "exhausted queue")
                continue
            if ws[0][1] == 0:
                seen["refused"] += 1
                c.expect(R2, not ch, where(E, o), "a refused byte changes the session (%s)" % ", ".join(sorted(ch)),
                         o.trail(), "refused byte")
            else:
                seen["sent"] += 1
                c.expect(R2, ch == {"write_pos"} and eqv(o, "write_pos", pos + 1), where(E, o),
                         "an accepted byte does not advance by exactly one", o.trail(), "accepted byte")
            wb = o.st.np(o.init("write_buf"))
            want = BF(E.M.byte_sym(o.st, E.M.ver0(wb.base), o.st.nl(wb.off + pos)), IDT, 8)
            args = ws[0][2]
            c.expect(R2, len(args) == 2 and veq(o.st, args[1], want) and o.st.np(args[0]) == Ptr(E.M.SELF), where(E, o),
                     "the offered byte is not the next byte of the queued text", o.trail(), "offered byte")
            c.expect(R2, o.st.entails_ge(size - pos - 1), where(E, o), "a byte behind the queued text is offered",
                     o.trail(), "offered byte in range")
    for k, n in seen.items():
        if not n:
            c.bad(R2, "output step", "the step has no path on which a byte is %s" % k)
    for E in sv + others:
        for o in outs(E):
            if not o.queued():
                continue
            if getattr(E, "api", None) == "ush_printf":
                printf_queue(c, R3, E, o)
            else:
                t, size, pos, nxt, p = queue_of(o)
                c.expect(R3, o.st.entails_eq(pos), where(E, o), "queued text does not start at its first byte",
                         o.trail(), E.name)
                ok = t is not None and not any(x[0] in ('partial', 'ambiguous') for x in t) and whole(o, p, size)
                c.expect(R3, ok, where(E, o), "the queued size differs from the length of the text", o.trail(), E.name)
            p = o.st.np(o.get("write_buf"))
            st_ok = not (isinstance(p.base, Region) and p.base.cls in ("vla", "larr", "stack") and
                         not p.base.name.startswith("array:out"))
            c.expect(R5, st_ok and p.base is not NULLB and
                     not (isinstance(p.base, PSym) and p.base.key[0] in ("garbage", "undefv", "undefp")), where(E, o),
                     "queued text lives in an automatic variable", o.trail(), o.M.bname(p.base))
    # what is queued is not modified before it is delivered
    R6 = c.rule("stability", "delivering text modifies neither the text nor any other session data", 3)
    for E in guarded(c, "WRITE_CHAR", lambda: steps.all_service("WRITE_CHAR")) or ():
        for o in E.outcomes:
            dirty = [b for b, bf in o.st.bufs.items() if bf.log or (bf.ver != E.M.ver0(b))]
            nodes = [w for w in o.st.writes if w[0] is not E.M.SELF]
            c.expect(R6, not dirty and not nodes, where(E, o), "the delivery step modifies buffers", o.trail())


def whole(o, p, size):
    """size covers the text at p completely (the text ends there) or is a reported data size"""
    M = o.M
    if p.base.cls == "data":
        n = o.st.cells.get(("datasize", p.base))
        if n is not None and o.st.entails_eq(o.st.nl(n - p.off), size):
            return True
        # rows of a dump may deliver single bytes of data
        return False
    if isinstance(p.base, Region) and p.base.string is not None and p.off.isconst():
        return o.st.entails_eq(size, C(p.base.string.index(0, p.off.c) - p.off.c))
    M.quiet += 1
    try:
        r = M.strlen2(steps.FakeFrame(o.E), steps.FakeInst, o.st.copy(), p)
    finally:
        M.quiet -= 1
    return all(s.entails_eq(L, size) for s, L in r)


def printf_queue(c, R, E, o):
    """formatted output: the queue covers the accumulated text, or the whole work buffer when the text was cut"""
    size = o.M.lin(o.st, o.get("write_size"))
    p = o.st.np(o.get("write_buf"))
    c.expect(R, p.base is o.M.OUTBUF and o.st.entails_ge(o.M.OBS - size), where(E, o),
             "formatted text is not delivered from the work buffer", o.trail(), E.name)


# ------------------------------------------------------------------------------------------------- C05 input
def c05(c):
    R1 = c.rule("single reader", "the input callback is called only while the session waits for input, at most once per "
                "step", 100)
    R2 = c.rule("no input", "when no byte is available the step reports idle and changes nothing", 1)
    R3 = c.rule("input", "when a byte is available the step reports progress", 1)
    R4 = c.rule("read target", "the byte is read into a variable of the step, through the session's own interface", 1)
    R5 = c.rule("always polled", "every step in the reading state polls the input exactly once", 3)
    sv = services(c)
    for E in sv + commands(c) + processes(c) + apis(c):
        reading = E in sv and E.state == "READ_CHAR"
        for o in outs(E):
            rs = o.ev('read')
            if not reading:
                c.expect(R1, not rs, where(E, o), "input is read although the session does not wait for it", o.trail())
                continue
            c.expect(R1, len(rs) <= 1, where(E, o), "more than one byte is read in one step", o.trail())
            c.expect(R5, len(rs) == 1, where(E, o), "the reading step does not poll the input", o.trail())
            if not rs:
                continue
            t = truth(o, o.ret)
            if rs[0][1] == 0:
                ch = changed(o)
                c.expect(R2, t is False, where(E, o), "an idle step reports progress", o.trail())
                c.expect(R2, not ch and steps.untouched(o), where(E, o), "an idle step changes the session (%s)" %
                         ", ".join(sorted(ch)), o.trail())
            else:
                c.expect(R3, t is True, where(E, o), "a consumed byte is reported as idle", o.trail())
            a = rs[0][2]
            d = o.st.np(a[1]) if isinstance(a[1], Ptr) else None
            c.expect(R4, o.st.np(a[0]) == Ptr(E.M.SELF) and d is not None and isinstance(d.base, Region) and
                     d.base.kind in ("stack", "buf"), where(E, o), "the byte is not read into a local variable", o.trail())


# ------------------------------------------------------------------------------------------------- C06/C07 progress
WAITING = ("READ_CHAR",)


def c06(c):
    R1 = c.rule("one io call", "one step performs at most one input or output callback", 100)
    R2 = c.rule("loops end", "every loop has a quantity that strictly advances on each iteration towards a bound", 10)
    R3 = c.rule("no recursion", "the only recursive call chain is the release of a subtree, which descends to children", 1)
    R4 = c.rule("busy flag", "a step reports idle exactly when it waits for input and none is available", 100)
    for E in services(c):
        for o in E.outcomes:
            n = len(o.ev('read', 'write'))
            c.expect(R1, n <= 1, where(E, o), "%d io callbacks in one step" % n, o.trail())
            idle = E.state == "READ_CHAR" and any(e[1] == 0 for e in o.ev('read'))
            t = truth(o, o.ret)
            if E.state == "READ_PREPARE":
                continue        # about to wait for input: either answer is right
            c.expect(R4, t is (not idle), where(E, o),
                     "the step reports %s" % ("idle although it made progress" if not idle else "progress while idle"),
                     o.trail())
    seen = set()
    for E in system(c):
        for L in E.M.loops:
            key = (L.fn.name, L.header.idx, L.chain)
            m = measure(E.M, L)
            k = (key, m is None)
            if k in seen:
                continue
            seen.add(k)
            c.expect(R2, m is not None, "%s:%s %s" % (short(L.file), L.line, L.fn.name),
                     "no advancing quantity found: the loop may not terminate", [], "%s line %s: %s" % (
                         L.fn.name, L.line, m))
    recursion(c, R3)


def measure(M, L):
    """a loop variable that advances strictly on every iteration"""
    phis = set()
    for k, hv in L.parts.items():
        phis |= set(hv)
    if not L.iters:
        return "the body never repeats"
    for sgn in (1, -1):
        for i in sorted(phis, key=repr):
            if all(step_ok(M, L, i, k, nv, s, sgn) for k, k2, nv, s in L.iters):
                return "variable %s %s" % (i, "grows" if sgn == 1 else "shrinks")
    # list traversal
    for i in sorted(phis, key=repr):
        if all(link_ok(M, L, i, k, nv, s) for k, k2, nv, s in L.iters):
            return "variable %s follows list links" % i
    # a loop-carried cell
    return cell_measure(M, L)


def off_of(st, v):
    v = st.nv(v) if not isinstance(v, tuple) else v
    if isinstance(v, Lin):
        return None, v
    if isinstance(v, Ptr) and v.base is not NULLB:
        return v.base, v.off
    return 0, None


def step_ok(M, L, i, k, nv, s, sgn):
    hv = L.parts[k]
    if i not in hv or i not in nv:
        return False
    b0, e0 = off_of(s, hv[i])
    b1, e1 = off_of(s, nv[i])
    if e0 is None or e1 is None or b0 is not b1:
        return False
    d = (e1 - e0).scale(sgn)
    if not s.entails_ge(d - 1):
        return False
    return bounded(M, L, s, b0, e0, e1, sgn)


def bounded(M, L, s, base, e0, e1, sgn):
    """the advancing value has a loop-independent limit on the side it moves to"""
    if sgn == -1:
        return s.entails_ge(e0)        # unsigned / offset: bounded below by zero
    if base is not None:
        return True                    # an offset into an object: each iteration is checked to stay inside
    # some row  B - e0 - c >= 0  with B independent of this loop
    own = e0.syms()
    for r in s.ineqs:
        r = s.nl(r)
        t = dict(r.t)
        if all(t.get(q, 0) < 0 for q in own) and own and \
                all(not M.mentions_loop_sym(q, L.inst) for q in t if q not in own):
            return True
    return not own


def link_ok(M, L, i, k, nv, s):
    hv = L.parts[k]
    if i not in hv or i not in nv:
        return False
    a, b = s.nv(hv[i]), s.nv(nv[i])
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        return False
    if b.base is NULLB:
        return a.base is not NULLB
    # a pointer to a link moves to the next link of the element it points to
    if a.off.isconst() and b.off.isconst() and M.field_of(b.base, b.off.c) == ("node", "next") and \
            M.field_of(a.base, a.off.c) in (("node", "next"), ("node", "children"), ("self", "commands"), ("self", "root")):
        v = s.cells.get((a.base, a.off.c))
        if v is not None and s.nv(v) == Ptr(b.base):
            return True
        x = b.base.key if isinstance(b.base, PSym) else ()
        if x[:1] == ("init",) and s.np(Ptr(x[1])).base is a.base and x[2] == a.off.c:
            return True
    x = b.base
    n = 0
    while isinstance(x, PSym) and x.key[0] == "init" and n < 4:
        f = M.field_of(x.key[1], x.key[2]) if isinstance(x.key[2], int) else None
        if f is None or f[0] != "node" or f[1] not in ("next", "parent", "children"):
            return False
        if s.np(Ptr(x.key[1])).base is a.base:
            return True
        x = x.key[1]
        n += 1
    # value stored in the link of the current element before the body changed it
    for f in ("next", "parent"):
        v = s.cells.get((a.base, M.foff[("node", f)]))
        if v is not None and s.nv(v) == b and isinstance(b.base, PSym):
            return True
    return False


def cell_measure(M, L):
    return None


def callgraph(M):
    g = {}
    for f in M.mod.functions.values():
        if f.decl:
            continue
        g.setdefault(f.name, set())
        for b in f.blocks:
            for I in b.insts:
                if I.op == 'call' and I.callee[0] == 'g':
                    g[f.name].add(I.callee[1])
    return g


def sccs(g):
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]

    def go(v):
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        for w in g.get(v, ()):
            if w not in g:
                continue
            if w not in idx:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            out.append(comp)
    for v in sorted(g):
        if v not in idx:
            go(v)
    return out


def recursion(c, R):
    m, P = model.get("arduino")
    M = model.new("arduino")
    g = callgraph(M)
    rec = [s for s in sccs(g) if len(s) > 1 or s[0] in g[s[0]]]
    c.ok(R, "%d functions, %d recursive" % (len(g), len(rec)))
    for s in rec:
        if "ush_node_deinit_recursive" in s:
            E = guarded(c, "deinit", lambda: entries.call("ush_node_deinit_recursive"))
            if E is None:
                continue
            c.use(E)
            for st, e in all_events(E, 'deinit'):
                x = st.np(e[1]).base if isinstance(e[1], Ptr) else None
                ok = x is NULLB or descends(E.M, x)
                c.expect(R, ok, "ush_node_deinit_recursive", "the recursive call does not descend to a child "
                         "or sibling", [], "recursive call on a child")
        else:
            c.bad(R, ", ".join(sorted(s)), "recursive call chain: the stack depth of one step is not bounded")


def all_events(E, *kinds):
    """events on complete outcomes and inside loop iterations"""
    for o in E.outcomes:
        for e in o.ev(*kinds):
            yield o.st, e
    for L in E.M.loops:
        for it in [(x[3],) for x in L.iters] + [(x[4],) for x in L.exits] + [(x[1],) for x in L.rets]:
            for e in it[0].events:
                if e[0] in kinds:
                    yield it[0], e


def descends(M, x):
    if not isinstance(x, PSym):
        return False
    if x.key[0] == "init" and isinstance(x.key[2], int):
        f = M.field_of(x.key[1], x.key[2])
        return f in (("node", "children"), ("node", "next"))
    return 'loopv' in str(x.key[0])


def progress_graph(c):
    """-> {state: set of (next state, kind)} for steps that neither wait nor consume/deliver"""
    edges = {}
    for E in services(c):
        for o in E.outcomes:
            edges.setdefault(E.state, []).append((E, o))
    return edges


def c07(c):
    R1 = c.rule("every state is handled", "in every state a step either waits for the io interface or makes progress", 100)
    R2 = c.rule("known successor", "every step leaves the session in one of the defined states", 100)
    R3 = c.rule("no livelock", "states that can follow each other without input form no cycle in which nothing is "
                "consumed, delivered or advanced", 20)
    R4 = c.rule("stage values", "stage and index values driving a multi-step activity stay in the handled range", 10)
    names = steps.states()
    g = {}
    for E in services(c):
        for o in E.outcomes:
            ch = changed(o)
            cb = o.st.havocs > 0 or o.ev('exec', 'process', 'set_data', 'desc_exec')
            wait = any(e[1] == 0 for e in o.ev('read', 'write'))
            acts = ch or cb or not steps.untouched(o) or o.ev('read')
            c.expect(R1, wait or acts, where(E, o), "the step does nothing: the session is stuck in this state", o.trail(),
                     E.state)
            nx = o.state_name()
            if nx is None and (cb or veq(o.st, o.get("state"), o.init("write_next_state"))):
                c.ok(R2, E.state)
                continue
            okn = nx in names
            c.expect(R2, okn, where(E, o), "the step may leave the session in an undefined state", o.trail(), E.state)
            for f in ("write_next_state", "prompt_next_state"):
                if f in ch:
                    n2 = o.state_name(f)
                    c.expect(R2, n2 in names or veq(o.st, o.get(f), o.init("prompt_next_state")), where(E, o),
                             "an undefined continuation state is stored", o.trail())
            if okn and not wait:
                tgt = steps.cont_state(o)
                g.setdefault(E.state, []).append((tgt, o, E))
    # cycles without io progress
    for a, l in sorted(g.items()):
        for tgt, o, E in l:
            if tgt is None or o.ev('read', 'write', 'exec', 'process', 'desc_exec'):
                continue
            if tgt == a or reach(g, tgt, a):
                ok, why = advances(E, o, a, tgt)
                c.expect(R3, ok, where(E, o), "the session can return to this state without progress (%s)" % why,
                         o.trail(), "%s -> %s: %s" % (a, tgt, why))
    stage_values(c, R4)


def reach(g, a, b):
    seen, w = set(), [a]
    while w:
        x = w.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        for t, o, E in g.get(x, ()):
            if o.ev('read', 'process', 'exec', 'desc_exec') or t is None:
                continue
            w.append(t)
    return False


def advances(E, o, a, tgt):
    """a lexicographic measure of the activity decreases"""
    st = o.st

    def d(f):
        x, y = E.M.lin(st, o.init(f)), E.M.lin(st, o.get(f) if o.cell(f) is not None else o.init(f))
        return x, y
    if a.startswith("PARSE_"):
        x, y = d("in_pos")
        if tgt.startswith("PARSE_") and st.entails_ge(y - x - 1):
            return True, "the parser position advances"
        return tgt.startswith("PARSE_") is False, "leaves the parser"
    if a in ("AUTOCOMP_CANDIDATES_COUNT", "AUTOCOMP_CANDIDATES_OPTIMISE", "AUTOCOMP_CANDIDATES_PRINT"):
        s0, s1 = d("process_stage")
        if tgt == a:
            if st.entails_ge(s1 - s0 - 1):
                return True, "the next stage"
            if not st.entails_eq(s1, s0):
                return False, "stage not determined"
            n0, n1 = st.nv(o.init("process_node")), st.nv(o.get("process_node"))
            if not veq(st, n0, n1):
                fo = E.M.foff[("node", "next")]
                okn = n1.base is NULLB or (isinstance(n1.base, PSym) and n1.base.key[:3] == ("init", n0.base, fo))
                return okn, "the next node"
            i0, i1 = d("process_index_item")
            if st.entails_ge(i1 - i0 - 1):
                return True, "the next file"
            if not st.entails_eq(i0, i1):
                return False, "item not determined"
            j0, j1 = d("process_index")
            if st.entails_ge(j1 - j0 - 1):
                return True, "the next part"
            return False, "stage, node, item and part are unchanged"
        return True, "leaves the candidate list"
    if a == "AUTOCOMP_CANDIDATES_FINISH":
        if tgt in ("AUTOCOMP_CANDIDATES_OPTIMISE",):
            x, y = d("in_pos")
            return st.entails_ge(y - x - 1), "the line grows"
        return True, "leaves the completion"
    return True, "entered once per activity"


def stage_values(c, R):
    for E in services(c):
        if not E.state.startswith("AUTOCOMP"):
            continue
        for o in E.outcomes:
            for f, hi in (("process_stage", 2), ("process_index", 2)):
                if o.cell(f) is None or o.same(f):
                    continue
                v = E.M.lin(o.st, o.get(f))
                c.expect(R, o.st.entails_ge(v) and o.st.entails_ge(C(hi) - v), where(E, o),
                         "%s leaves the handled range 0..%d" % (f, hi), o.trail(), "%s %s" % (E.state, f))
    for E in processes(c, names=("xxd",)):
        for o in E.outcomes:
            if o.st.havocs:
                continue
            n = o.state_name("write_next_state") if o.queued() else o.state_name()
            if n == "PROCESS_SERVICE" and not o.same("process_index"):
                v = E.M.lin(o.st, o.get("process_index"))
                c.expect(R, o.st.entails_ge(v) and o.st.entails_ge(C(3) - v), where(E, o),
                         "the dump stage leaves the handled range", o.trail(), E.name)
    for E in processes(c, names=("ls", "help")):
        for it in E.items:
            c.expect(R, it.end != "endless", E.name, "an item of the listing never ends", it.where(), E.name)


# ------------------------------------------------------------------------------------------------- C08 line editing
def c08(c):
    R = c.rule("line editing", "for every escape-sequence state, every input byte and every line position, the step has "
               "the specified effect on the line, the echo and the next state", 20)
    R0 = c.rule("line start", "a new line starts empty, terminated, at position zero, outside of an escape sequence", 1)
    seen = {0: 0, 1: 0, 2: 0}
    for E in guarded(c, "READ_CHAR", lambda: steps.all_service("READ_CHAR")) or ():
        c.use(E)
        for o in E.outcomes:
            s, m = read_mask(o)
            if s is None:
                continue
            ansi = cst(E.init("ansi_escape_state"))
            seen[ansi] |= m
            groups = {}
            for b in mask_vals(m):
                groups.setdefault(edit_class(ansi, b), []).append(b)
            for cl, bs in sorted(groups.items()):
                bad = edit_effect(E, o, s, ansi, cl, bs)
                c.expect(R, not bad, where(E, o), "byte%s %s in escape state %d: %s" % (
                    "s" if len(bs) > 1 else "", span(bs), ansi, "; ".join(bad)), o.trail(),
                    "escape state %d, %s" % (ansi, cl))
    for a, m in seen.items():
        c.expect(R, m == FULL, "reading step", "some bytes have no outcome in escape state %d" % a, [], "all 256 bytes")
    for E in guarded(c, "READ_PREPARE", lambda: steps.all_service("READ_PREPARE")) or ():
        c.use(E)
        for o in E.outcomes:
            bad = []
            if not eqv(o, "in_pos", 0):
                bad.append("position not reset")
            if not in_is(o, ZERO, 0):
                bad.append("line not emptied")
            if not eqv(o, "ansi_escape_state", 0):
                bad.append("escape sequence not reset")
            if o.state_name() != "READ_CHAR":
                bad.append("input is not read next")
            c.expect(R0, not bad, where(E, o), "; ".join(bad), o.trail())


def span(bs):
    if len(bs) == 1:
        return "0x%02x" % bs[0]
    return "0x%02x..0x%02x (%d)" % (bs[0], bs[-1], len(bs))


def edit_class(ansi, b):
    if b == 3:
        return "cancel"
    if b in (8, 127):
        return "rubout"
    if b == 9:
        return "complete"
    if b == 27:
        return "escape"
    if ansi == 0:
        return {13: "carriage return", 10: "line feed", 0: "nul"}.get(b, "text")
    if ansi == 1:
        return "sequence" if b in (0x5B, 0x4F) else "abort"
    return "final"


def edit_effect(E, o, s, ansi, cl, bs):
    M, st = E.M, o.st
    p = M.lin(st, o.init("in_pos"))
    bad = []
    ch = changed(o) - {"write_buf", "write_size", "write_pos", "write_next_state"}
    q = o.queue()[0] if o.queued() else None

    def echo(want, nxt):
        if not o.queued():
            bad.append("nothing is echoed")
            return
        t, size, pos, n, ptr = o.queue()
        if not same_text(o, t, want):
            bad.append("the echo is %s" % show(t))
        if n != nxt:
            bad.append("the session continues in %s instead of %s" % (n, nxt))

    def silent(nxt="READ_CHAR"):
        if o.queued():
            bad.append("unexpected output %s" % show(q))
        elif o.state_name() != nxt:
            bad.append("the session continues in %s" % o.state_name())

    def line_kept():
        if not veq(st, o.get("in_pos"), p):
            bad.append("the position changes")
        if not in_kept(o, ()):
            bad.append("the line changes")

    def only(fields):
        x = ch - set(fields)
        if x:
            bad.append("unrelated session data changes (%s)" % ", ".join(sorted(x)))

    def ansi_is(v):
        if not eqv(o, "ansi_escape_state", v):
            bad.append("the escape-sequence state is not %d" % v)
    if cl == "cancel":
        echo([b"^C"], "RESET")
        only({"state"})
        line_kept()
    elif cl == "rubout":
        ansi_is(ansi)
        if st.entails_eq(p):
            silent()
            line_kept()
        elif st.entails_ge(p - 1):
            echo([b"\x08 \x08"], "READ_CHAR")
            if not eqv(o, "in_pos", p - 1):
                bad.append("the position does not move back by one")
            if not in_is(o, p - 1, 0):
                bad.append("the last byte is not removed")
            if not in_kept(o, (p - 1,)):
                bad.append("other bytes of the line change")
            only({"state", "in_pos"})
        else:
            bad.append("an empty line is not treated separately")
    elif cl == "complete":
        silent("AUTOCOMP_PREPARE")
        only({"state"})
        line_kept()
    elif cl == "escape":
        silent()
        ansi_is(1)
        line_kept()
        only({"ansi_escape_state"})
    elif cl in ("text", "nul", "line feed", "carriage return"):
        ansi_is(0)
        np = M.lin(st, o.get("in_pos"))
        full = st.entails_ge(p + 1 - M.IBS)
        fits = st.entails_ge(M.IBS - p - 2)
        if full:
            if not st.entails_eq(np):
                bad.append("a line that fills the buffer does not restart")
        elif fits:
            if not st.entails_eq(np, p + 1):
                bad.append("the position does not move on by one")
        else:
            bad.append("the end of the buffer is not treated separately")
        if not bad:
            if not in_is(o, np, 0):
                bad.append("the line is not terminated")
            if not in_is(o, p, BF(s, IDT, 8)):
                if not (full and st.entails_eq(p, np)):
                    bad.append("the byte is not appended to the line")
            if not in_kept(o, (p, np)):
                bad.append("other bytes of the line change")
        only({"state", "in_pos"})
        if cl == "text":
            echo([('chr', BF(s, IDT, 8))] if len(bs) > 1 else [bytes(bs)], "READ_CHAR") if not (
                o.queued() and same_text(o, q, [('chr', BF(s, IDT, 8))])) else echo(
                [('chr', BF(s, IDT, 8))], "READ_CHAR")
        elif cl == "nul":
            echo([], "READ_CHAR")
        elif cl == "line feed":
            echo([b"\n"], "PARSE_PREPARE") if lit_of(q) is not None else echo([('chr', BF(s, IDT, 8))], "PARSE_PREPARE")
        else:
            echo([b"\r\n"], "PARSE_PREPARE")
    elif cl == "sequence":
        silent()
        ansi_is(2)
        line_kept()
        only({"ansi_escape_state"})
    else:
        silent()
        ansi_is(0)
        line_kept()
        only({"ansi_escape_state"})
    return bad


# ------------------------------------------------------------------------------------------------- C09 tokens
SA, QA, ST = "PARSE_SEARCH_ARG", "PARSE_QUOTE_ARG", "PARSE_STANDARD_ARG"


def token_oracle(state, esc, b):
    """-> (bytes written ('' | 'b' | '\\b' | 'nul'), next state, new escape, new argument)"""
    if esc:
        return ("xb" if b == ord('x') else "b", state, 0, 0)
    if state == SA:
        if b == 32:
            return ("", SA, 0, 0)
        if b == 34:
            return ("", QA, 0, 1)
        if b == 92:
            return ("", ST, 1, 1)
        return ("b", ST, 0, 1)
    if state == QA:
        if b == 34:
            return ("", ST, 0, 0)
        if b == 92:
            return ("", QA, 1, 0)
        return ("b", QA, 0, 0)
    if b == 32:
        return ("nul", SA, 0, 0)
    if b == 34:
        return ("", QA, 0, 0)
    if b == 92:
        return ("", ST, 1, 0)
    return ("b", ST, 0, 0)


def parse_entries(c):
    out = []
    for s in steps.PARSE_STATES:
        for E in guarded(c, s, lambda: steps.all_service(s)) or ():
            out.append(c.use(E))
    return out


def cur_byte(E, o):
    s = E.M.byte_sym(o.st, E.M.ver0(E.M.INBUF), o.st.nl(E.M.lin(o.st, o.init("in_pos"))))
    return s, o.st.sets.get(s, FULL)


def c09(c):
    R = c.rule("token automaton", "for every parser state, escape flag and input byte the step performs exactly the "
               "specified transition: bytes kept, argument ended, argument started, next state", 5)
    R2 = c.rule("line end", "a line break ends the line in every parser state, also inside quotes and after a backslash: "
                "the last argument is terminated and no parser state follows", 5)
    R0 = c.rule("parser start", "parsing starts at the beginning of the line with no argument and no pending escape", 1)
    for E in parse_entries(c):
        esc = cst(E.init("escape_flag"))
        cover = 0
        for o in E.outcomes:
            s, m = cur_byte(E, o)
            cover |= m
            groups = {}
            for b in mask_vals(m):
                if b in (10, 13):
                    groups.setdefault("end", []).append(b)
                else:
                    groups.setdefault(token_oracle(E.state, esc, b), []).append(b)
            for g, bs in sorted(groups.items(), key=repr):
                if g == "end":
                    # the command is dispatched, or the prompt comes back: no parser state goes on after a line break
                    q = E.M.lin(o.st, o.init("out_pos"))
                    n = o.state_name()
                    done = bool(o.ev('exec', 'desc_exec')) or n is not None and not n.startswith("PARSE_")
                    c.expect(R2, done and in_is(o, q, 0), where(E, o),
                             "a line break (%s) in %s%s does not end the line: next state %s" % (
                                 span(bs), E.state, " after a backslash" if esc else "", n), o.trail(),
                             "%s esc=%s" % (E.state, esc))
                    continue
                bad = token_effect(E, o, s, g)
                c.expect(R, not bad, where(E, o), "byte%s %s in %s%s: %s" % (
                    "s" if len(bs) > 1 else "", span(bs), E.state, " after a backslash" if esc else "", "; ".join(bad)),
                    o.trail(), "%s esc=%s %s" % (E.state, esc, span(bs)))
        c.expect(R, cover == FULL, E.name, "some bytes have no transition", [], "all 256 bytes")
    for E in guarded(c, "PARSE_PREPARE", lambda: steps.all_service("PARSE_PREPARE")) or ():
        c.use(E)
        for o in E.outcomes:
            bad = [f for f in ("in_pos", "out_pos", "args_count", "escape_flag") if not eqv(o, f, 0)]
            if o.state_name() != SA:
                bad.append("state")
            if not steps.untouched(o):
                bad.append("line")
            c.expect(R0, not bad, where(E, o), "not initialised: " + ", ".join(bad), o.trail())


def token_effect(E, o, s, g):
    wr, nxt, esc, arg = g
    M, st = E.M, o.st
    bad = []
    p, q = M.lin(st, o.init("in_pos")), M.lin(st, o.init("out_pos"))
    if not eqv(o, "in_pos", p + 1):
        bad.append("the read position does not move on by one")
    v = BF(s, IDT, 8)
    w = {"": [], "b": [v], "xb": [C(92), v], "nul": [C(0)]}[wr]
    if not eqv(o, "out_pos", q + len(w)):
        bad.append("%s expected in the argument" % {0: "no byte", 1: "one byte", 2: "two bytes"}[len(w)])
    else:
        for i, x in enumerate(w):
            if not in_is(o, q + i, x) and not in_is_c(o, q + i, x):
                bad.append("a wrong byte is stored in the argument")
        if not in_kept(o, [q + i for i in range(len(w))]):
            bad.append("other bytes of the line change")
    if not eqv(o, "escape_flag", esc):
        bad.append("the escape flag is wrong")
    a0 = M.lin(st, o.init("args_count"))
    if not eqv(o, "args_count", a0 + arg):
        bad.append("the argument count is wrong")
    if o.state_name() != nxt:
        bad.append("the next state is %s instead of %s" % (o.state_name(), nxt))
    x = changed(o) - {"in_pos", "out_pos", "escape_flag", "args_count", "state"}
    if x:
        bad.append("unrelated session data changes (%s)" % ", ".join(sorted(x)))
    if o.ev('exec', 'desc_exec', 'lookup', 'get_args', 'process'):
        bad.append("the command is dispatched before the line ends")
    return bad


def in_is_c(o, off, v):
    """byte compared by its value set (a constant stored instead of the equal input byte)"""
    want = None
    if isinstance(v, BF):
        m = o.st.sets.get(v.s, FULL)
        if bin(m).count("1") == 1:
            want = m
    elif cst(v) is not None:
        want = 1 << cst(v)
    return want is not None and steps.byte_at(o, off) == want


# ------------------------------------------------------------------------------------------------- C10/C11 dispatch
def end_outcomes(c):
    for E in parse_entries(c):
        for o in E.outcomes:
            s, m = cur_byte(E, o)
            if m & ~steps.NL == 0:
                yield E, o


def c10(c):
    R1 = c.rule("argument vector", "the command receives the argument count of the parser and a vector of exactly that "
                "many strings followed by a null pointer", 2)
    R2 = c.rule("terminators", "every started argument is preceded by the terminators of all earlier ones: terminators "
                "written minus arguments started never falls behind", 40)
    R3 = c.rule("splitting", "consecutive arguments are consecutive terminated strings from the start of the line", 1)
    for E, o in end_outcomes(c):
        for e in o.ev('exec', 'desc_exec'):
            a = e[3]
            argc = E.M.lin(o.st, a[2]) if len(a) == 4 else None
            n = E.M.lin(o.st, o.init("args_count"))
            ok = argc is not None and o.st.entails_eq(argc, n)
            c.expect(R1, ok, where(E, o), "the argument count passed differs from the parsed one", o.trail())
            v = o.st.np(a[3]) if len(a) == 4 and isinstance(a[3], Ptr) else None
            okv = v is not None and v.off == ZERO and isinstance(v.base, Region)
            c.expect(R1, okv, where(E, o), "the argument vector is not an array of this step", o.trail())
            if not okv or not ok:
                continue
            bf = o.st.bufs.get(v.base)
            full = bf is not None and isinstance(bf.ver, tuple) and bf.ver[0] == 'argv'
            c.expect(R1, full, where(E, o), "the argument vector is not filled", o.trail())
            term = full and any(o.st.entails_eq(x[0], n.scale(8)) and o.st.nv(x[1]) == NULL for x in bf.log)
            c.expect(R1, term, where(E, o), "the argument vector is not followed by a null pointer", o.trail())
            other = full and any(not o.st.entails_eq(x[0], n.scale(8)) for x in bf.log)
            c.expect(R1, not other, where(E, o), "an argument is replaced", o.trail())
    pot = {SA: 0, QA: -1, ST: -1}
    for E in parse_entries(c):
        esc = cst(E.init("escape_flag"))
        for o in E.outcomes:
            s, m = cur_byte(E, o)
            if m & ~steps.NL == 0:
                # end of line: one more terminator, nothing after it
                q = E.M.lin(o.st, o.init("out_pos"))
                okt = in_is(o, q, 0)
                okn = not o.queued() and eqv(o, "args_count", E.M.lin(o.st, o.init("args_count"))) or \
                    o.st.havocs or o.queued()
                c.expect(R2, okt and okn, where(E, o), "the last argument is not terminated at the end of the line",
                         o.trail(), "end of line")
                continue
            if m & steps.NL:
                c.bad(R2, where(E, o), "line ends are not separated from other bytes", o.trail())
                continue
            nx = o.state_name()
            if nx not in pot:
                c.bad(R2, where(E, o), "unexpected parser state %s" % nx, o.trail())
                continue
            da = None
            a0, a1 = E.M.lin(o.st, o.init("args_count")), E.M.lin(o.st, o.get("args_count"))
            d = o.st.nl(a1 - a0)
            nul = nul_count(E, o)
            if not d.isconst() or nul is None:
                c.bad(R2, where(E, o), "terminators or arguments not determined", o.trail())
                continue
            # Phi = NULs written - arguments started - pot(state) must not fall
            c.expect(R2, nul - d.c >= pot[nx] - pot[E.state], where(E, o),
                     "an argument is started without terminating the previous one", o.trail(),
                     "%s -> %s" % (E.state, nx))
            # a NUL is an argument end: written only where the state machine leaves the argument
    from .c_path import Collector
    E = guarded(c, "ush_parse_get_args", lambda: entries.call("ush_parse_get_args"))
    if E is None:
        return
    k = Collector()
    check_get_args(k, R3, E)
    if k.fails:
        # the general argument does not match this way of writing it: all lines of up to four short arguments instead
        k2 = Collector()
        args_family(k2, R3)
        if k2.errors:
            c.error(k2.errors[0])
        if not k2.fails:
            for X in k2.entries:
                c.use(X)
                c.ok(R3, X.name)
            return
    c.use(E)
    check_get_args(c, R3, E)


def args_words():
    for n in range(4):
        yield from itertools.product((0, 1, 3), repeat=n)
    yield (0, 0, 0, 0, 0)
    yield (1, 2, 3, 4)
    yield (1,) * 20
    yield (40, 0, 40)


def args_family(c, R):
    def one(ls):
        E = steps.Entry("splitting a line of arguments of lengths %s" % (ls,), contracts=())
        E.kind, E.api = "api", "ush_parse_get_args"
        M, st = E.M, E.st0
        E.set("args_count", len(ls))
        total = sum(ls) + len(ls)
        st.add_ge(M.IBS - max(total, 2))
        ver, at, E.starts = M.ver0(M.INBUF), 0, []
        for l in ls:
            E.starts.append(at)
            for i in range(l):
                st.add_set(M.byte_sym(st, ver, C(at + i)), FULL & ~1)
            st.add_set(M.byte_sym(st, ver, C(at + l)), 1)
            M.reg_zero(st, ver, C(at), C(l))
            at += l + 1
        M.unroll = total + len(ls) + 8
        E.run("ush_parse_get_args", [Ptr(M.SELF), entries.getargs_out(E)])
        return E
    for ls in args_words():
        E = guarded(c, "ush_parse_get_args", lambda: one(ls))
        if E is None:
            continue
        c.use(E)
        for o in E.outcomes:
            bf = o.st.bufs[E.argv]
            got = []
            for i in range(len(ls)):
                v = next((x[1] for x in reversed(bf.log) if o.st.nl(x[0]) == C(8 * i)), None)
                v = o.st.np(v) if isinstance(v, Ptr) else None
                got.append(cst(v.off) if v is not None and v.base is o.M.INBUF else None)
            c.expect(R, got == E.starts and len(bf.log) == len(ls), "ush_parse_get_args",
                     "the arguments start at %s instead of %s" % (got, E.starts), o.trail(), E.name)
            c.expect(R, cst(o.st.nv(o.ret)) == len(ls), "ush_parse_get_args", "the returned count differs from the parsed one",
                     o.trail(), E.name)
            c.expect(R, o.st.bufs.get(o.M.INBUF) is None or not o.st.bufs[o.M.INBUF].log and
                     o.st.bufs[o.M.INBUF].ver == o.M.ver0(o.M.INBUF), "ush_parse_get_args",
                     "the line changes while it is split", o.trail(), E.name)


def nul_count(E, o):
    """number of bytes known to be NUL among the bytes appended in this step"""
    st, M = o.st, E.M
    q0, q1 = M.lin(st, o.init("out_pos")), M.lin(st, o.get("out_pos"))
    d = st.nl(q1 - q0)
    if not d.isconst() or d.c < 0 or d.c > 4:
        return None
    n = 0
    for i in range(d.c):
        if steps.byte_at(o, q0 + i) == 1:
            n += 1
    return n


def check_get_args(c, R, E):
    M = E.M
    Ls = [L for L in M.loops if not L.chain or True]
    n = E.init("args_count")
    ok_any = False
    for o in E.outcomes:
        c.expect(R, o.st.entails_eq(M.lin(o.st, o.ret), M.lin(o.st, n)), "ush_parse_get_args",
                 "the returned count differs from the parsed one", o.trail(), "returned count")
        others = [b for b in o.st.bufs if b is not E.argv and (o.st.bufs[b].log or
                  o.st.bufs[b].ver != M.ver0(b)) and b is M.INBUF]
        c.expect(R, not others, "ush_parse_get_args", "the line changes while it is split", o.trail(), "line unchanged")
    for L in Ls:
        for key, k2, nv, s in L.iters:
            hv = L.parts[key]
            # elements stored in this iteration
            bf = s.bufs.get(E.argv)
            log = bf.log if bf is not None else ()
            if not log:
                continue
            off, val, _ = log[-1]
            p = s.np(val) if isinstance(val, Ptr) else None
            inb = p is not None and p.base is M.INBUF
            c.expect(R, inb, "ush_parse_get_args", "an argument does not point into the line", [], "argument in line")
            if not inb:
                continue
            # the stored pointer is the header value of some pointer variable, the index its integer variable
            pv = [i for i, v in hv.items() if isinstance(v, Ptr) and s.np(v) == p]
            iv = [i for i, v in hv.items() if isinstance(v, Lin) and s.entails_eq(s.nl(v).scale(8), s.nl(off))]
            c.expect(R, bool(pv) or p.off == ZERO, "ush_parse_get_args", "the argument is not the current string", [],
                     "current string")
            c.expect(R, bool(iv) or s.nl(off) == ZERO, "ush_parse_get_args", "the argument is stored at a wrong index", [],
                     "current index")
            for i in pv:
                nxt = s.np(nv[i]) if isinstance(nv.get(i), Ptr) else None
                M.quiet += 1
                try:
                    r = M.strlen2(steps.FakeFrame(E), steps.FakeInst, s.copy(), p)
                finally:
                    M.quiet -= 1
                good = nxt is not None and nxt.base is M.INBUF and \
                    all(x.entails_eq(nxt.off, p.off + ln + 1) for x, ln in r)
                c.expect(R, good, "ush_parse_get_args", "the next argument does not start right behind the previous one",
                         [], "next string")
                ok_any = ok_any or good
            for i in iv:
                good = isinstance(nv.get(i), Lin) and s.entails_eq(nv[i], s.nl(hv[i]) + 1)
                c.expect(R, good, "ush_parse_get_args", "indices are skipped", [], "next index")
    ent = [L for L in Ls]
    if not ok_any:
        c.bad(R, "ush_parse_get_args", "no loop that walks over the arguments was found")
    for L in ent:
        e0 = L.entry[0]
        for i, v in e0.items():
            if isinstance(v, Ptr) and v.base is M.INBUF:
                c.expect(R, v.off == ZERO, "ush_parse_get_args", "the first argument is not the start of the line", [],
                         "first string")
    for L in ent:
        for key, blk, pv, rg, s in L.exits:
            hv = L.parts[key]
            good = any(isinstance(v, Lin) and s.entails_eq(s.nl(v), M.lin(s, n)) for v in hv.values())
            c.expect(R, good, "ush_parse_get_args", "splitting stops before all arguments are found", [], "loop end")


def c11(c):
    R = c.rule("dispatch", "at the end of the line: nothing for an empty line; otherwise the session's own handler, then "
               "the file named by the first argument, or the specific error status", 6)
    kinds = set()
    P = model.get("arduino")[1]
    tr = P["trans"]
    syn = tr[1] + b": " + tr[6]
    nox = tr[1] + b": " + tr[8]
    for E, o in end_outcomes(c):
        M, st = E.M, o.st
        bad = []
        n = M.lin(st, o.init("args_count"))
        p, q = M.lin(st, o.init("in_pos")), M.lin(st, o.init("out_pos"))
        if not in_is(o, q, 0):
            bad.append("the last argument is not terminated")
        de, lk, ex = o.ev('desc_exec'), o.ev('lookup'), o.ev('exec')
        order = [e[0] for e in o.events if e[0] in ('desc_exec', 'lookup', 'exec')]
        if st.entails_eq(n):
            if de or lk or ex or o.queued():
                bad.append("an empty line has an effect")
            if o.state_name() != "RESET_PROMPT":
                bad.append("no prompt follows")
            kinds.add("empty")
        elif not st.entails_ge(n - 1):
            bad.append("the empty line is not treated separately")
        else:
            hasd = st.decide(('peq', M_desc_exec(E, st), NULL))
            if (hasd is True) == bool(de) or len(de) > 1:
                bad.append("the session handler is %s" % ("not called once" if hasd is False else "called though absent"))
            if de:
                a = de[0][3]
                if not (st.np(a[0]) == Ptr(M.SELF) and st.nv(a[1]) == NULL):
                    bad.append("the session handler gets wrong parameters")
                if order[0] != 'desc_exec':
                    bad.append("the session handler is called after the command was looked up")
            if len(lk) != 1 or lk[0][1] != "file":
                bad.append("the command is not looked up exactly once")
            else:
                t = lk[0][2]
                if not (t[0] == 'ro' or True) or not first_arg(t):
                    bad.append("the command is not looked up by the first argument")
                found = lk[0][3]
                t2 = o.queue()[0] if o.queued() else None
                if not found:
                    kinds.add("unknown")
                    if ex:
                        bad.append("an unknown command is executed")
                    if not o.queued() or lit_of(t2) != syn or o.queue()[3] != "RESET":
                        bad.append("an unknown command does not report the syntax error status")
                elif ex:
                    kinds.add("exec")
                    a = ex[0][3]
                    if len(ex) != 1:
                        bad.append("the command is executed more than once")
                    if not (st.np(a[0]) == Ptr(M.SELF)):
                        bad.append("the command gets a wrong session")
                    f = st.np(a[1]).base
                    if f is not st.np(Ptr(ex[0][1])).base or not (isinstance(f, PSym) and f.key[0] == "file"):
                        bad.append("the command handler gets a file other than the one found")
                    if o.queued():
                        bad.append("output is queued behind the command's back")
                else:
                    kinds.add("noexec")
                    if not o.queued() or lit_of(t2) != nox or o.queue()[3] != "RESET":
                        bad.append("a file without handler does not report its status")
        x = changed(o) - {"in_pos", "out_pos", "state", "write_buf", "write_size", "write_pos", "write_next_state"}
        if x and not o.st.havocs:
            bad.append("unrelated session data changes (%s)" % ", ".join(sorted(x)))
        c.expect(R, not bad, where(E, o), "; ".join(bad), o.trail(), E.state)
    for k in ("empty", "unknown", "exec", "noexec"):
        if k not in kinds:
            c.bad(R, "end of line", "no path for the case: %s" % k)
    # before the command runs the session already is in its default continuation
    R2 = c.rule("continuation", "while a command handler runs, the session is set to show the prompt next", 1)
    for E, o in end_outcomes(c):
        for e in o.ev('exec', 'desc_exec'):
            v = e[4].get("state")
            ok = v is not None and cst(v) == E.M.S["RESET_PROMPT"]
            if e is not o.ev('exec', 'desc_exec')[0]:
                ok = ok or v is None
            c.expect(R2, ok, where(E, o), "the handler runs before the continuation is set: its own output request is "
                     "overwritten or lost", o.trail())
    # requests made by the handler are final: the step does not touch the machine afterwards
    R3 = c.rule("handler last", "after the handler returned the step changes nothing any more", 1)
    for E, o in end_outcomes(c):
        if o.ev('exec'):
            c.expect(R3, o.cell("state") is None or (E.M.SELF, E.M.foff[("self", "state")]) not in st_written(o), where(E, o),
                     "the session state is overwritten after the command handler ran", o.trail())


def st_written(o):
    return o.st.written


def M_desc_exec(E, st):
    v = st.cells.get((E.M.DESC, E.M.foff[("desc", "exec")]))
    if v is None:
        v = E.M.init_value(st, E.M.DESC, E.M.foff[("desc", "exec")], 64, True)
    return st.nv(v)


def first_arg(t):
    """the string identity is the first argument"""
    return isinstance(t, tuple) and len(t) == 2 and t[1] == ZERO and "arg(0)" in repr(t[0])


# ------------------------------------------------------------------------------------------- sessions over many steps
def session(c, start, stop, limit=14, prep=None, name=None):
    """run the session step from `start` until a state in `stop`; queued text counts as delivered
    -> [(pieces, last outcome, [outcomes])]"""
    M = model.new("arduino")
    E0 = steps.Entry(name or ("session from %s" % start), M=M)
    E0.state = start
    E0.setstate(start)
    if prep:
        prep(E0)
    out = []
    work = [(E0.st0, (), ())]
    while work:
        s0, pcs, path = work.pop()
        E = steps.Entry(E0.name + " step %d" % (len(path) + 1), M=M)
        E.st0 = s0.copy()
        E.st0.events = ()
        E.st0.writes = ()
        E.state = None
        E.run("ush_service", [Ptr(M.SELF)])
        c.use(E)
        for o in E.outcomes:
            n = o.state_name()
            p2 = pcs
            if n == "WRITE_CHAR":
                t, size, pos, nxt, ptr = o.queue()
                p2 = M.merge(pcs + (t if t is not None else (('unknown',),)))
                o.st.cells[(M.SELF, M.foff[("self", "state")])] = o.get("write_next_state")
                n = nxt
            p3 = path + (o,)
            if n in stop or n is None or len(p3) >= limit or o.st.havocs:
                out.append((p2, n, o, p3))
            else:
                work.append((o.st, p2, p3))
    return E0, out


def c32(c):
    R = c.rule("prompt", "after every line, reset or completion the prompt is '[' hostname ' ' last-component-of-current-"
               "directory ']$ ' with its colours, and input is read next", 2)
    P = model.get("arduino")[1]
    mag, grn, yel, rst = P["font"]

    def expected(E0):
        M, st = E0.M, E0.st0
        host = M.init_value(st, M.DESC, M.foff[("desc", "hostname")], 64, True)
        cwd = E0.init("current_node")
        pth = M.init_value(st, cwd.base, M.foff[("node", "path")], 64, True)
        k = Lin.of(sym(("lastseg", M.strterm(st, pth)), lo=0))
        return [mag + b"[", ('str', (M.ver0(host.base), ZERO)), b" ", ('str', (M.ver0(pth.base), k)),
                b"]$ " + rst]
    for start, pre in (("RESET", b"\r\n"), ("RESET_PROMPT", b"")):
        r = guarded(c, start, lambda: session(c, start, ("READ_CHAR",)))
        if r is None:
            continue
        E0, res = r
        for t, n, o, path in res:
            want = expected(E0)
            want[0] = pre + want[0]
            c.expect(R, n == "READ_CHAR", "session from " + start, "input is not read after the prompt (%s)" % n, o.trail())
            c.expect(R, same_text(o, t, want), "session from " + start, "the prompt is %s" % show(t), o.trail(),
                     "session from %s: %s" % (start, show(t)))
    R4 = c.rule("prompt after completion", "behind the prompt that follows a list of candidates the unchanged line is shown again "
                "and editing continues where it was", 1)
    start = "the end of a candidate list"
    prep = lambda E: E.setstate("AUTOCOMP_CANDIDATES_PRINT", "autocomp_prev_state")
    r = guarded(c, start, lambda: session(c, "AUTOCOMP_CANDIDATES_FINISH", ("READ_CHAR", "READ_PREPARE"), prep=prep, name=start))
    for t, n, o, path in (r[1] if r else ()):
        E0 = r[0]
        want = expected(E0) + [('str', (E0.M.ver0(E0.M.INBUF), ZERO))]
        bad = []
        if n != "READ_CHAR":
            bad.append("editing does not continue (%s)" % n)
        if not same_text(o, t, want):
            bad.append("the user sees %s" % show(t))
        x = changed(path[-1]) & {"in_pos", "ansi_escape_state", "current_node", "root"}
        if x or any(w[0] is o.M.INBUF for q in path for w in q.st.writes):
            bad.append("the line or the session is modified")
        c.expect(R4, not bad, start, "; ".join(bad), o.trail(), "completion: %s" % show(t))
    R2 = c.rule("fresh line", "when input is read after the prompt the line is empty, terminated and outside of any escape "
                "sequence, whatever happened before", 2)
    for start in ("RESET", "RESET_PROMPT"):
        r = guarded(c, start, lambda: session(c, start, ("READ_CHAR",)))
        for t, n, o, path in (r[1] if r else ()):
            bad = []
            if not eqv(o, "in_pos", 0):
                bad.append("position")
            if not in_is(o, ZERO, 0):
                bad.append("terminator")
            if not eqv(o, "ansi_escape_state", 0):
                bad.append("escape state")
            c.expect(R2, not bad, "session from " + start, "not reset: " + ", ".join(bad), o.trail(), start)
    # the prompt never alters anything but the queue and the line
    R3 = c.rule("prompt is passive", "showing the prompt changes neither the tree nor the current directory", 2)
    for start in ("RESET", "RESET_PROMPT"):
        r = guarded(c, start, lambda: session(c, start, ("READ_CHAR",)))
        for t, n, o, path in (r[1] if r else ()):
            okk = all(not [w for w in x.st.writes if w[0] is not o.M.SELF] and
                      not [w for w in x.st.writes if w[1] in (o.M.foff[("self", "current_node")],
                                                              o.M.foff[("self", "root")],
                                                              o.M.foff[("self", "commands")])] for x in path)
            c.expect(R3, okk, "session from " + start, "the prompt modifies the tree", o.trail(), start)


# ------------------------------------------------------------------------------------------------- C24 status texts
def status_text(P, k):
    tr = P["trans"]
    return tr[0] if k == 0 else tr[1] + b": " + tr[k + 1]


def c24(c):
    R = c.rule("status text", "every status value is reported with its own message, followed by a line break and the prompt",
               13)
    R2 = c.rule("distinct", "no two status values share a message", 1)
    R3 = c.rule("text lookup", "the text of a status is its own message", 13)
    P = model.get("arduino")[1]
    texts = [status_text(P, k) for k in range(P["status"]["_TOTAL_NUM"])]
    c.expect(R2, len(set(texts)) == len(texts), "status messages", "two status values share a message", texts)
    for fn, rule in (("ush_print_status", R), ("ush_utils_get_status_string", R3)):
        E = guarded(c, fn, lambda: entries.call(fn))
        if E is None:
            continue
        c.use(E)
        seen = set()
        for o in E.outcomes:
            for k in range(P["status"]["_TOTAL_NUM"]):
                st = o.st.copy()
                if not st.add_eq(Lin.of(E.status) - k):
                    continue
                seen.add(k)
                if rule == R:
                    t = lit_of(o.queue()[0]) if o.queued() else None
                    ok = t == texts[k] and o.queue()[3] == "RESET"
                    x = changed(o) - set(QUEUE) - {"state", "write_next_state"}
                    c.expect(rule, not x, fn, "unrelated session data changes", o.trail(), "status %d" % k)
                else:
                    p = o.st.np(o.ret)
                    t = None
                    if isinstance(p.base, Region) and p.base.string is not None and p.off == ZERO:
                        t = p.base.string[:p.base.string.index(0)]
                    ok = t == texts[k]
                c.expect(rule, ok, fn, "status %d is reported as %r instead of %r" % (k, t, texts[k]), o.trail(),
                         "status %d: %r" % (k, texts[k]))
        for k in range(P["status"]["_TOTAL_NUM"]):
            if k not in seen:
                c.bad(rule, fn, "status %d has no message" % k)
    # every status reported by the library itself is one of them
    R4 = c.rule("reported statuses", "whatever status a command or the dispatcher reports is one of the defined messages", 10)
    alltexts = set(texts)
    pre = P["trans"][1] + b": "
    for E in services(c) + commands(c):
        for o in outs(E):
            if not o.queued():
                continue
            t = lit_of(queue_of(o)[0])
            if t is None or not t.startswith(pre):
                continue
            c.expect(R4, t in alltexts and queue_of(o)[3] == "RESET", where(E, o), "an undefined status text is reported",
                     o.trail(), "%s: %r" % (E.name, t))


# ------------------------------------------------------------------------------------------------- C31 application output
def c31(c):
    R = c.rule("print", "a text handed over for printing is delivered completely and unmodified, followed by the documented "
               "continuation (line break and prompt, or prompt only)", 2)
    for fn, nxt in (("ush_print", "RESET"), ("ush_print_no_newline", "RESET_PROMPT"), ("ush_flush", "RESET_PROMPT")):
        E = guarded(c, fn, lambda: entries.call(fn))
        if E is None:
            continue
        c.use(E)
        for o in E.outcomes:
            bad = []
            if not o.queued():
                bad.append("nothing is queued")
            else:
                t, size, pos, n, p = o.queue()
                if fn == "ush_flush":
                    if not (p.base is E.M.OUTBUF and p.off == ZERO and whole(o, p, size)):
                        bad.append("the work buffer is not delivered completely")
                else:
                    b = psym(("param", "text"), "rostr", False)
                    if not same_text(o, t, [('str', (E.M.ver0(b), ZERO))]):
                        bad.append("the delivered text is %s" % show(t))
                if n != nxt:
                    bad.append("the session continues in %s" % n)
                if not o.st.entails_eq(pos):
                    bad.append("the first byte is skipped")
            x = changed(o) - set(QUEUE) - {"state", "write_next_state"}
            if x:
                bad.append("unrelated session data changes (%s)" % ", ".join(sorted(x)))
            bf = o.st.bufs.get(E.M.OUTBUF)
            if bf is not None and (bf.log or bf.ver != E.M.ver0(E.M.OUTBUF)):
                bad.append("the work buffer is modified")
            c.expect(R, not bad, fn, "; ".join(bad), o.trail(), fn)
    R2 = c.rule("formatted output", "formatted text goes to the work buffer behind what is already queued there, is "
                "delivered from the first undelivered byte, and an overflow or format error is reported inside the buffer",
                4)
    R3 = c.rule("overflow report", "text that does not fit, or cannot be formatted, is never delivered silently: an error "
                "notice is written behind or over its end", 4)
    kinds = set()
    for variant in (None, "append", "overflown"):
        E = guarded(c, "ush_printf", lambda: entries.call("ush_printf", variant=variant))
        if E is not None:
            c.use(E)
            formatted(c, R2, R3, E, variant, kinds)
    c.extra["formatted output cases"] = sorted(kinds)


def formatted(c, R2, R3, E, variant, kinds):
    """outcomes of formatted output, with nothing or with a text of its own queued already"""
    M = E.M
    fresh = variant is None
    what = variant or "fresh"
    T = Lin.of(sym(("user text",), lo=0, hi=(1 << 31) - 1))
    for o in E.outcomes:
        st = o.st
        bad = []
        p = st.np(o.get("write_buf"))
        if p.base is not M.OUTBUF or p.off != ZERO:
            bad.append("the text is not delivered from the work buffer")
        if o.state_name() != "WRITE_CHAR":
            bad.append("delivery is not started")
        if o.state_name("write_next_state") != "RESET_PROMPT":
            bad.append("the prompt does not follow")
        vs = o.ev('vsn')
        size = M.lin(st, o.get("write_size"))
        cut = bool(o.ev('cut'))
        before = ZERO if fresh else T
        size0 = ZERO if fresh else M.lin(st, o.init("write_size"))
        if fresh:
            if not eqv(o, "write_pos", 0):
                bad.append("delivery does not start at the first byte")
        elif not veq(st, o.get("write_pos"), o.init("write_pos")):
            bad.append("text already queued is delivered again or skipped")
        if not st.entails_ge(M.OBS - size):
            bad.append("more bytes are delivered than the work buffer holds")
        x = changed(o) - set(QUEUE) - {"state", "write_next_state"}
        if x:
            bad.append("unrelated session data changes (%s)" % ", ".join(sorted(x)))
        if len(vs) != 1:
            bad.append("the text is not formatted exactly once")
        elif not cut and vs[0][1] == 'ok':
            d = st.np(vs[0][2])
            if d.base is not M.OUTBUF or not st.entails_eq(st.nl(d.off - before)):
                bad.append("the text is not formatted behind what is queued already")
            if not st.entails_eq(st.nl(size - size0 - vs[0][4])):
                bad.append("the delivered size differs from the text")
            if fresh:
                t = o.queue()[0]
                if not (t and len(t) == 1 and t[0][0] == 'fmt' and t[0][1] == b"user"):
                    bad.append("the delivered text is %s" % show(t))
            elif not all(s.entails_eq(s.nl(L - before - vs[0][4])) for s, L in length(o)) or [w for w in st.writes if w[0] is M.OUTBUF]:
                bad.append("the text is modified after it was formatted")
        kinds.add(what + "/" + ("cut" if cut else vs[0][1] if vs else "?"))
        c.expect(R2, not bad, "ush_printf", "; ".join(bad), o.trail(), what)
        cut = cut and any(e[1] == "vsnprintf" for e in o.ev('cut'))
        err = any(e[1] == 'error' for e in vs)
        if not (cut or err):
            continue
        bf = o.st.bufs.get(M.OUTBUF)
        pcs = list(bf.text or ()) if bf is not None else []
        lits = b"".join(x[1] for x in pcs if x[0] == 'lit')
        texts = [e[3] for e in o.ev('text')]
        for t in texts:
            lits += b"".join(x[1] for x in t if x[0] == 'lit')
        notice = b"error" in lits or bool([x for x in pcs if x[0] == 'cut' and b"error" in repr(x).encode()]) or \
            any(b"error" in repr(t).encode() for t in texts)
        # the notice ends the text; at most the terminator is delivered behind it
        def at_end(s, L):
            return s.entails_ge(s.nl(size - L)) and s.entails_ge(s.nl(L + 1 - size))
        last = [e for e in o.ev('text') if e[1] is M.OUTBUF][-1:]
        ends = all(at_end(s, L) for s, L in length(o)) or any(at_end(st, st.nl(e[2] + M.tlen(e[3]))) for e in last)
        c.expect(R3, notice and ends, "ush_printf", "cut text is delivered without any notice" if not notice else
                 "what is delivered does not end with the notice", o.trail(),
                 what + " " + ("format error" if err else "overflow"))


def length(o):
    """length of the text in the work buffer"""
    M = o.M
    M.quiet += 1
    try:
        return M.strlen2(steps.FakeFrame(o.E), steps.FakeInst, o.st.copy(), Ptr(M.OUTBUF))
    finally:
        M.quiet -= 1


# ------------------------------------------------------------------------------------------------- C33 reset
def c33(c):
    R = c.rule("reset", "a reset returns to the root directory and greets, from every earlier state of the session, without "
               "touching the tree or the line in progress handling", 1)
    P = model.get("arduino")[1]
    E = guarded(c, "ush_reset", lambda: entries.call("ush_reset"))
    if E is not None:
        c.use(E)
        for o in E.outcomes:
            bad = []
            if not veq(o.st, o.get("current_node"), o.init("root")):
                bad.append("the current directory is not the root")
            if not o.queued() or lit_of(o.queue()[0]) != P["hello"] or o.queue()[3] != "RESET_PROMPT":
                bad.append("the greeting is not shown")
            x = changed(o) - set(QUEUE) - {"state", "write_next_state", "current_node"}
            if x:
                bad.append("unrelated session data changes (%s)" % ", ".join(sorted(x)))
            if [w for w in o.st.writes if w[0] is not E.M.SELF]:
                bad.append("the tree changes")
            c.expect(R, not bad, "ush_reset", "; ".join(bad), o.trail(), "ush_reset")
    R2 = c.rule("cancel", "the cancel key discards the line: after the notice, a line break and the prompt, a fresh line is "
                "read", 1)
    done = 0
    for E in guarded(c, "READ_CHAR", lambda: steps.all_service("READ_CHAR")) or ():
        c.use(E)
        for o in E.outcomes:
            s, m = read_mask(o)
            if s is None or not m >> 3 & 1:
                continue
            st = o.st.copy()
            if not st.add_set(s, 8):
                continue
            ok = o.queued() and lit_of(o.queue()[0]) == b"^C" and o.queue()[3] == "RESET"
            c.expect(R2, ok, where(E, o), "cancel does not lead to a fresh prompt", o.trail(), E.name)
            done += 1
    R3 = c.rule("start of a process", "a command with its own process starts it from the beginning with the given file", 1)
    E = guarded(c, "ush_process_start", lambda: entries.call("ush_process_start"))
    if E is not None:
        c.use(E)
        for o in E.outcomes:
            f = psym(("file",), "file", False)
            bad = []
            if not veq(o.st, o.get("process_file"), Ptr(f)):
                bad.append("another file is processed")
            if o.state_name() != "PROCESS_START":
                bad.append("the process is not started")
            x = changed(o) - {"process_file", "state"}
            if x:
                bad.append("unrelated session data changes (%s)" % ", ".join(sorted(x)))
            c.expect(R3, not bad, "ush_process_start", "; ".join(bad), o.trail(), "ush_process_start")
    R4 = c.rule("process steps", "in a process state each step calls the process function of the started file once with that "
                "file; a file without one returns to the prompt", 6)
    for s in steps.PROC_STATES:
        for E in guarded(c, s, lambda: steps.all_service(s)) or ():
            c.use(E)
            for o in E.outcomes:
                ev = o.ev('process')
                pf = E.st0.nv(o.init("process_file"))
                fn = E.M.cell_or_init(o.st, o.st.np(pf).base, E.M.foff[("file", "process")]) if hasattr(
                    E.M, "cell_or_init") else o.st.cells.get((o.st.np(pf).base, E.M.foff[("file", "process")]))
                isnull = fn is not None and o.st.decide(('peq', o.st.nv(fn), NULL))
                if ev:
                    a = ev[0][3]
                    ok = len(ev) == 1 and o.st.np(a[0]) == Ptr(E.M.SELF) and o.st.np(a[1]) == o.st.np(pf) and not isnull
                    c.expect(R4, ok, where(E, o), "the process function is not called once with its own file", o.trail(),
                             s + " calls the process function")
                else:
                    ok = isnull is True and o.state_name() == "RESET" and changed(o) <= {"state"}
                    c.expect(R4, ok, where(E, o), "a file without a process function does not return to the prompt",
                             o.trail(), s + " without process function")
    R5 = c.rule("from the beginning", "a built-in command's process leaves nothing of an earlier run in use: what it records of its "
                "progress is assigned by the command or by the process start before any step uses it", 3)
    for n, b in sorted(entries.builtin("arduino").items()):
        if b["process"]:
            from_beginning(c, R5, n)


def from_beginning(c, R, name):
    es = guarded(c, "process of " + name, lambda: entries.process_entries(names=(name,)))
    xs = [guarded(c, "command " + name, lambda i=i: entries.command(name, i)) for i in range(1, 6)]
    if es is None or None in xs:
        return
    common = {"state", "write_next_state"} | set(QUEUE)
    M = es[0].M
    SN = M.fields["self"]

    def fields(rs):
        return {SN[k][0] for b, k in rs if b is M.SELF and k in SN}
    # what the process itself keeps from step to step
    own = set()
    for E in es:
        c.use(E)
        for o in E.outcomes:
            own |= fields(o.st.defs) - common
    given = None
    for X in xs:
        c.use(X)
        for o in X.outcomes:
            if o.state_name() in steps.PROC_STATES:
                d = fields({(M.SELF if b is X.M.SELF else b, k) for b, k in o.st.defs})
                given = d if given is None else given & d
    if given is None:
        c.error("%s never starts its process" % name)
        return
    begun = None
    for E in es:
        if E.state == "PROCESS_START":
            for o in E.outcomes:
                if o.state_name() in steps.PROC_STATES or o.queued() and o.queue()[3] in steps.PROC_STATES:
                    d = fields(o.st.defs)
                    begun = d if begun is None else begun & d
    for E in es:
        have = given | ((begun or set()) if E.state != "PROCESS_START" else set())
        for o in E.outcomes:
            late = (fields({(r[0], r[1]) for r in o.st.reads}) & own) - have
            c.expect(R, not late, "%s: %s" % (name, where(E, o)), "%s in %s uses %s of an earlier run" % (
                name, E.state, ", ".join(sorted(late))), o.trail(), "%s %s" % (name, E.state))


CHECKS = {"C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C24": c24,
          "C31": c31, "C32": c32, "C33": c33}
