"""Entry points of the analysis: one abstract step per state-machine state, per built-in command stage, per API
function, each started from the invariant that is re-proved on every step that can lead there."""
from .lin import Lin, sym, ZERO, ONE, C, fresh_id
from .dom import (State, Ptr, PSym, Region, BF, IDT, UNDEF, NULL, NULLB, cst, psym, mask_of, mask_vals, FULL, Buf)
from . import model
from .interp import Broken, Budget

NZ = FULL & ~1
NL = (1 << 10) | (1 << 13)

READ_STATES = ("READ_CHAR",)
PARSE_STATES = ("PARSE_SEARCH_ARG", "PARSE_QUOTE_ARG", "PARSE_STANDARD_ARG")
AUTO_RUN = ("AUTOCOMP_CANDIDATES_COUNT", "AUTOCOMP_CANDIDATES_OPTIMISE", "AUTOCOMP_CANDIDATES_PRINT",
            "AUTOCOMP_CANDIDATES_FINISH")
AUTO_STATES = ("AUTOCOMP_CANDIDATES_START",) + AUTO_RUN + ("AUTOCOMP_PROMPT_PREPARE", "AUTOCOMP_PROMPT",
                                                            "AUTOCOMP_RECALL", "AUTOCOMP_RECALL_SUFFIX")
PROMPT_STATES = ("PROMPT_PREFIX", "PROMPT_HOST", "PROMPT_SPACE", "PROMPT_PATH", "PROMPT_SUFFIX")
PROC_STATES = ("PROCESS_START", "PROCESS_SERVICE", "PROCESS_FINISH")


class Outcome:
    def __init__(self, E, st, ret):
        self.E, self.M, self.st, self.ret = E, E.M, st, ret
        self._q = None

    def sp(self):
        return (self.M.SELF, )

    def cell(self, name):
        """current value of a session field, None when never read nor written"""
        k = (self.M.SELF, self.M.foff[("self", name)])
        v = self.st.cells.get(k)
        return None if v is None else self.st.nv(v)

    def get(self, name):
        return self.M.field_val(self.st, name)

    def init(self, name):
        k = self.M.foff[("self", name)]
        v = self.E.st0.cells.get((self.M.SELF, k))
        if v is None:
            v = self.M.init_value(self.E.st0, self.M.SELF, k, None, None)
        return self.st.nv(v)

    def same(self, name):
        v = self.cell(name)
        return v is None or veq(self.st, v, self.init(name))

    def const(self, name):
        return cst(self.get(name)) if self.cell(name) is not None else cst(self.init(name))

    def state_name(self, field="state"):
        v = self.get(field)
        c = cst(v)
        if c is None:
            return None
        for n, k in self.M.S.items():
            if k == c and n != "_TOTAL_NUM":
                return n
        return "?%d" % c

    @property
    def events(self):
        return self.st.events

    def ev(self, *kinds):
        return [e for e in self.st.events if e[0] in kinds]

    def queued(self):
        """a new text was queued in this step"""
        n = self.cell("state")
        return n is not None and cst(n) == self.M.S["WRITE_CHAR"] and \
            not (cst(self.init("state")) == self.M.S["WRITE_CHAR"] and self.same("write_buf"))

    def queue(self):
        """-> (pieces, size, pos, next state name, ptr, ok) of the queued text"""
        if self._q is not None:
            return self._q
        st = self.st
        p = st.np(self.get("write_buf"))
        size = self.M.lin(st, self.get("write_size"))
        pos = self.M.lin(st, self.get("write_pos"))
        nxt = self.state_name("write_next_state")
        pieces = None
        b = p.base
        lit = isinstance(b, Region) and b.string is not None and p.off.isconst() and size.isconst()
        if lit:
            raw = b.string[p.off.c:p.off.c + size.c]
            pieces = (('lit', raw),) if raw else ()
        elif b.cls == "data":
            pieces = (('bin', b, p.off, size),)
        else:
            fr = FakeFrame(self.E)
            self.M.quiet += 1
            try:
                r = self.M.text_of(fr, FakeInst, st, p)
            finally:
                self.M.quiet -= 1
            if len(r) == 1:
                s2, t = r[0]
                if s2.entails_eq(self.M.tlen(t), size):
                    pieces = t
                else:
                    pieces = (('partial', t, size),)
            else:
                pieces = (('ambiguous',),)
        self._q = (pieces, size, pos, nxt, p)
        return self._q

    def trail(self):
        out = []
        for f in self.st.trail_list()[-16:]:
            out.append("%s:%s %s" % (short(f[0]), f[1], f[2]))
        return out


def short(f):
    f = str(f)
    i = f.find("/src/src/")
    return f[i + 9:] if i >= 0 else f


class FakeInst:
    file, line, op, id, bytes = "", 0, "", -1, 1


class FakeFrame:
    def __init__(self, E):
        class F:
            name = "<post>"
        self.fn = F
        self.chain = ()
        self.depth = 0


def veq(st, a, b):
    a, b = st.nv(a), st.nv(b)
    if a is b or (type(a) is type(b) and a == b):
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.entails_eq(a, b)
    if isinstance(a, BF) and isinstance(b, BF):
        return a.s is b.s and all(a.tbl[i] & 255 == b.tbl[i] & 255 for i in mask_vals(st.sets.get(a.s, FULL)))
    return False


class Entry:
    """one analysed step: initial state (invariant) and all its abstract outcomes"""

    def __init__(self, name, M=None, contracts=None, config="arduino"):
        self.name = name
        self.M = M or model.new(config, contracts)
        self.st0 = State()
        self.outcomes = []
        self.params = {}

    def set(self, field, v):
        if isinstance(v, int):
            v = C(v)
        self.st0.cells[(self.M.SELF, self.M.foff[("self", field)])] = v
        return self

    def setstate(self, name, field="state"):
        return self.set(field, self.M.S[name])

    def init(self, field):
        return self.M.field_val(self.st0, field)

    def run(self, fn, args):
        M = self.M
        f = M.mod.functions.get(fn) if isinstance(fn, str) else fn
        if f is None or f.decl:
            raise Broken("anchor vanished: function %s is not defined" % fn)
        st = self.st0.copy()
        self.fn = f.name
        for s, r in M.run_fn(f, args, st):
            self.outcomes.append(Outcome(self, s, r))
        if not self.outcomes and not any(o["bad"] for o in M.obls.values()):
            raise Broken("no outcome for %s" % self.name)
        return self


# ------------------------------------------------------------------------------------------------ invariants
def assume_inv(E, state):
    """add the invariant of `state` to the initial state of the entry"""
    M, st = E.M, E.st0
    IB = M.INBUF
    ver = M.ver0(IB)
    if state in READ_STATES:
        p = E.init("in_pos")
        st.add_ge(M.IBS - 1 - p)
        b = M.byte_sym(st, ver, st.nl(p))
        st.add_set(b, 1)
    elif state == "AUTOCOMP_PREPARE":
        # the text typed so far is terminated
        p = E.init("in_pos")
        st.add_ge(M.IBS - 1 - p)
        b = M.byte_sym(st, ver, st.nl(p))
        st.add_set(b, 1)
    elif state in AUTO_STATES:
        p = E.init("in_pos")
        st.add_ge(M.IBS - 1 - p)
        M.reg_zero(st, ver, ZERO, p)
        off = M.ac_in_off
        E.set("autocomp_input", Ptr(IB, off))
        st.add_ge(p - off)
        sl = E.init("autocomp_suffix_len")
        if state != "AUTOCOMP_CANDIDATES_START":
            st.add_ge(p - off - sl)
        if state in ("AUTOCOMP_CANDIDATES_OPTIMISE",):
            st.add_ge(sl - 1)
        if state == "AUTOCOMP_CANDIDATES_FINISH" and cst(E.init("autocomp_prev_state")) == \
                M.S["AUTOCOMP_CANDIDATES_OPTIMISE"]:
            st.add_ge(sl - 1)
        if state == "AUTOCOMP_CANDIDATES_OPTIMISE" or (
                state == "AUTOCOMP_CANDIDATES_FINISH" and cst(E.init("autocomp_prev_state")) ==
                M.S["AUTOCOMP_CANDIDATES_OPTIMISE"]):
            st.add_ge(E.init("autocomp_prev_count") - 1)
        if state in AUTO_RUN and E.params.get("count", 1):
            cn = psym(("init", M.SELF, M.foff[("self", "autocomp_candidate_name")]), "rostr", True)
            if E.params.get("count"):
                st.add_pne(Ptr(cn), NULL)
                E.set("autocomp_candidate_name", Ptr(cn))
                L = M.ro_len(st, cn)
                st.add_ge(L - (p - off))
    elif state in PARSE_STATES:
        p, o = E.init("in_pos"), E.init("out_pos")
        J = Lin.of(sym(("newline",), lo=0))
        st.add_ge(J - p)
        st.add_ge(M.IBS - 1 - J)
        b = M.byte_sym(st, ver, J)
        st.add_set(b, NL)
        esc = cst(E.init("escape_flag"))
        st.add_ge(p - o - (1 if esc else 0))
    elif state == "PARSE_PREPARE":
        J = Lin.of(sym(("newline",), lo=0))
        st.add_ge(M.IBS - 1 - J)
        b = M.byte_sym(st, ver, J)
        st.add_set(b, NL)
    return E


def byte_at(o, off):
    """byte set of INBUF[off] at the outcome"""
    M, st = o.M, o.st
    M.quiet += 1
    try:
        r = M.read_byte(FakeFrame(o.E), FakeInst, st.copy(), M.INBUF, st.nl(off))
    finally:
        M.quiet -= 1
    m = 0
    for s, v in r:
        v = s.nv(v)
        c = cst(v)
        if c is not None:
            m |= 1 << (c & 255)
        elif isinstance(v, BF):
            for i in mask_vals(s.sets.get(v.s, FULL)):
                m |= 1 << (v.tbl[i] & 255)
        else:
            m = FULL
    return m


def untouched(o):
    M = o.M
    bf = o.st.bufs.get(M.INBUF)
    if bf is None:
        return True
    return bf.ver == M.ver0(M.INBUF) and not bf.log


def cont_state(o):
    """the state the step leads to once the queued text and the prompt were sent; None = unchanged/opaque"""
    s = o.state_name()
    seen = 0
    while s in ("WRITE_CHAR",) + PROMPT_STATES and seen < 4:
        s = o.state_name("write_next_state" if s == "WRITE_CHAR" else "prompt_next_state")
        seen += 1
    return s


INV_FIELDS = ("in_pos", "out_pos", "escape_flag", "args_count", "autocomp_input", "autocomp_suffix_len",
              "autocomp_candidate_name", "autocomp_count", "autocomp_prev_count")


def frame_kept(o):
    return untouched(o) and all(o.same(f) for f in INV_FIELDS if ("self", f) in o.M.foff)


def prove_inv(o, state):
    """-> list of violated parts of the invariant of `state` at this outcome"""
    M, st = o.M, o.st
    bad = []
    if state is None:
        if st.havocs and not o.same("state"):
            return bad      # a user callback may have used the API: its own entries establish the invariant
        if not frame_kept(o):
            bad.append("the step modifies line data although it continues an unknown state")
        return bad
    entry = getattr(o.E, "state", None)
    if state in READ_STATES or state == "AUTOCOMP_PREPARE":
        p = M.lin(st, o.get("in_pos"))
        if not st.entails_ge(M.IBS - 1 - p) or not st.entails_ge(p):
            bad.append("the input position may leave the input buffer")
        elif byte_at(o, p) != 1:
            bad.append("the input line is not NUL-terminated at the input position")
    elif state in AUTO_STATES:
        p = M.lin(st, o.get("in_pos"))
        ai = o.get("autocomp_input")
        ai = st.np(ai) if isinstance(ai, Ptr) else None
        if not st.entails_ge(M.IBS - 1 - p) or not st.entails_ge(p):
            bad.append("the input position may leave the input buffer")
            return bad
        if ai is None or ai.base is not M.INBUF:
            bad.append("the completed word is not part of the input buffer")
            return bad
        M.quiet += 1
        s2 = st.copy()
        r = M.strlen2(FakeFrame(o.E), FakeInst, s2, Ptr(M.INBUF))
        M.quiet -= 1
        if not all(s.entails_eq(L, p) for s, L in r):
            bad.append("the length of the input line differs from the input position")
        if not st.entails_ge(ai.off) or not st.entails_ge(p - ai.off):
            bad.append("the completed word does not lie in the input line")
        sl = M.lin(st, o.get("autocomp_suffix_len"))
        if state != "AUTOCOMP_CANDIDATES_START" and not st.entails_ge(p - ai.off - sl):
            bad.append("the recalled suffix may be longer than the completed word")
        prev = o.state_name("autocomp_prev_state") if state == "AUTOCOMP_CANDIDATES_FINISH" else None
        if state == "AUTOCOMP_CANDIDATES_OPTIMISE" or prev == "AUTOCOMP_CANDIDATES_OPTIMISE":
            if not st.entails_ge(sl - 1):
                bad.append("no suffix to take back while narrowing")
            if not st.entails_ge(M.lin(st, o.get("autocomp_prev_count")) - 1):
                bad.append("narrowing without a previous candidate")
        if state in AUTO_RUN:
            cnt = M.lin(st, o.get("autocomp_count"))
            if not st.entails_eq(cnt):
                cn = st.np(o.get("autocomp_candidate_name"))
                if not st.known_nonnull(cn):
                    bad.append("a counted candidate has no name")
                else:
                    M.quiet += 1
                    r = M.strlen2(FakeFrame(o.E), FakeInst, st.copy(), cn)
                    M.quiet -= 1
                    if not all(s.entails_ge(L - (p - ai.off)) for s, L in r):
                        bad.append("a counted candidate is shorter than the completed word")
    elif state in PARSE_STATES:
        p, q = M.lin(st, o.get("in_pos")), M.lin(st, o.get("out_pos"))
        J = Lin.of(sym(("newline",), lo=0))
        if entry not in PARSE_STATES + ("PARSE_PREPARE",):
            bad.append("argument parsing entered from an unexpected state")
            return bad
        if not st.entails_ge(J - p):
            bad.append("the parser may run past the end of the line")
        if byte_at(o, st.nl(J)) & ~NL:
            bad.append("the end of the line may be overwritten while parsing")
        esc = o.get("escape_flag")
        e = cst(esc)
        if e is None:
            bad.append("the escape flag is not determined")
        elif not st.entails_ge(p - q - (1 if e else 0)) or not st.entails_ge(q):
            bad.append("the argument output position may overtake the input position")
    elif state == "PARSE_PREPARE":
        ok = False
        bf = st.bufs.get(M.INBUF)
        cand = []
        if bf is not None:
            cand += [e[0] for e in bf.log]
            cand += [x for x, s in st.bytes.get(bf.ver, ())]
        cand += [st.nl(Lin.of(sym(("newline",), lo=0)))]
        for x in cand:
            if byte_at(o, x) & ~NL == 0 and st.entails_ge(M.IBS - 1 - x):
                ok = True
                break
        if not ok:
            bad.append("the line handed to the parser may lack a line terminator inside the input buffer")
    return bad


# ------------------------------------------------------------------------------------------------ service steps
def service(state, config="arduino", contracts=None, **kw):
    """all outcomes of one ush_service() call in `state`"""
    E = Entry("service in state %s%s" % (state, "".join(" %s=%s" % x for x in sorted(kw.items()))),
              contracts=contracts, config=config)
    E.state = state
    E.setstate(state)
    if "count" in kw:
        E.params["count"] = kw.pop("count")
    for k, v in kw.items():
        if k == "autocomp_prev_state":
            v = E.M.S[v]
        E.set(k, v)
    if "count" in E.params and E.params["count"] is not None:
        c = E.params["count"]
        if c == 2:
            cs = E.init("autocomp_count")
            E.st0.add_ge(cs - 2)
        else:
            E.set("autocomp_count", c)
    assume_inv(E, state)
    if state == "WRITE_CHAR":
        wb = E.init("write_buf")
        E.st0.add_ge(E.M.size_of(E.st0, wb.base) - E.init("write_size"))
        E.st0.add_ge(E.init("write_size") - E.init("write_pos"))
    E.run("ush_service", [Ptr(E.M.SELF)])
    return E


def service_variants(state):
    if state == "READ_CHAR":
        return [dict(ansi_escape_state=i) for i in (0, 1, 2)]
    if state in PARSE_STATES:
        return [dict(escape_flag=0), dict(escape_flag=1)] if state != "PARSE_SEARCH_ARG" else [dict(escape_flag=0)]
    if state in ("AUTOCOMP_CANDIDATES_COUNT", "AUTOCOMP_CANDIDATES_OPTIMISE", "AUTOCOMP_CANDIDATES_PRINT"):
        return [dict(process_stage=s, process_index=i, count=c) for s in (0, 1, 2) for i in (0, 1, 2)
                for c in (0, 1, 2)]
    if state == "AUTOCOMP_CANDIDATES_FINISH":
        return [dict(autocomp_prev_state=p, count=c) for p in ("AUTOCOMP_CANDIDATES_COUNT",
                                                               "AUTOCOMP_CANDIDATES_OPTIMISE",
                                                               "AUTOCOMP_CANDIDATES_PRINT") for c in (0, 1, 2)]
    return [{}]


_svc = {}


def all_service(state, config="arduino"):
    k = (state, config)
    if k not in _svc:
        _svc[k] = [service(state, config=config, **v) for v in service_variants(state)]
    return _svc[k]


def states():
    m, P = model.get("arduino")
    return [s for s in P["state"] if s != "_TOTAL_NUM"]
