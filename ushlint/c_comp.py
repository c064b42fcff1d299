"""Completion (C30): whole completion runs, from the request to the prompt or the edited line, over families of candidate
sets; each family leaves one byte of the names or of the typed word free (all values at once)."""
from .lin import Lin, sym, ZERO, ONE, C, fresh_id
from .dom import Ptr, NULL, BF, Buf, cst, psym, FULL, mask_vals
from . import steps, entries, model
from .interp import Broken
from .c_mem import guarded, decide
from .c_cmd import contents, put_bytes, show_pat
from .c_path import family
from .c_tree import list_heap, off

WORD = FULL & ~1 & ~(1 << ord(' ')) & ~(1 << ord('"')) & ~(1 << ord('/')) & ~(1 << 10) & ~(1 << 13)


def bts(t):
    """'?' is the free byte"""
    return tuple(None if ch == '?' else ord(ch) for ch in t)


def put(E, ver, pat, free):
    put_bytes(E, ver, pat, free)
    if E.freebyte is not None:
        E.free = E.freebyte
    E.freebyte = E.free


def text(E, name, pat, free):
    r = psym(("name", name), "rostr", False)
    put(E, E.M.ver0(r), pat, free)
    return Ptr(r)


def files(E, node, names, tag, free):
    M, st = E.M, E.st0
    st.cells[(node.base, off(M, "file_list_size"))] = C(len(names))
    fl = Ptr(psym(("filelist", tag), "file", False))
    st.cells[(node.base, off(M, "file_list"))] = fl
    for i, n in enumerate(names):
        st.cells[(fl.base, i * M.fsize + M.foff[("file", "name")])] = text(E, (tag, i), bts(n), free)


def run(line, sets, cwd, dirs, ibs, free, limit=220):
    """one completion run -> Entry with .runs: (outcome, text values, flags)"""
    def f():
        E = steps.Entry("completion of %r among %s %s %s, %d byte line buffer" % (line, sets, cwd, dirs, ibs),
                        contracts=("ush_node_get_absolute_path",))
        M, st = E.M, E.st0
        E.kind, E.api = "completion", "ush_service"
        E.free = E.freebyte = None
        E.setstate("AUTOCOMP_PREPARE")
        st.add_ge(M.IBS - ibs)
        st.add_ge(C(ibs) - M.IBS)
        pat = bts(line)
        put(E, M.ver0(M.INBUF), pat, free)
        E.set("in_pos", len(pat))
        for i, (n, names) in enumerate(zip(list_heap(E, (M.SELF, M.foff[("self", "commands")]), len(sets), "cset"), sets)):
            files(E, n, names, ("set", i), free)
        root = Ptr(psym(("cwdnode",), "node", False))
        E.set("current_node", root)
        E.set("root", root)
        files(E, root, cwd, "cwd", free)
        kids = list_heap(E, (root.base, off(M, "children")), len(dirs), "kid")
        for i, (k, d) in enumerate(zip(kids, dirs)):
            st.add_pne(k, root)
            st.cells[(k.base, off(M, "path"))] = text(E, ("dir", i), bts(("/zz/" if cwd else "/") + d), free)
        M.contract_fns["ush_node_get_parent_by_path"] = lambda m, fr, I, s, a: [(s, root)]
        M.unroll = 64
        E.runs = []
        work = [(st, (), 0, ())]
        while work:
            s0, out, n, marks = work.pop()
            X = steps.Entry(E.name + " step %d" % (n + 1), M=M)
            X.kind, X.api, X.freebyte = "completion", "ush_service", E.freebyte
            X.st0 = s0.copy()
            X.st0.events = ()
            X.st0.writes = ()
            X.run("ush_service", [Ptr(M.SELF)])
            for o in X.outcomes:
                o.E = E
                o2 = out
                E.outcomes.append(o)
                nm = o.state_name()
                more = [(o.st, out)]
                if nm == "WRITE_CHAR":
                    more = []
                    for s2, vals in queued(o):
                        k = (M.SELF, M.foff[("self", "state")])
                        s2.cells[k] = o.get("write_next_state")
                        more.append((s2, out + vals))
                    nm = o.state_name("write_next_state")
                for s2, txt in more:
                    mk = marks
                    nx = nm
                    if nm in steps.PROMPT_STATES:
                        # the prompt itself is the subject of C32
                        s2.cells[(M.SELF, M.foff[("self", "state")])] = o.get("prompt_next_state")
                        nx = o.state_name("prompt_next_state")
                        txt = txt + ("prompt",)
                    if nx == "READ_CHAR":
                        fin = steps.Outcome(E, s2, o.ret)
                        E.runs.append((fin, txt, "done"))
                    elif nx is None or not nx.startswith("AUTOCOMP") or n >= limit:
                        E.runs.append((steps.Outcome(E, s2, o.ret), txt, "endless" if n >= limit else "state %s" % nx))
                    else:
                        work.append((s2, txt, n + 1, mk))
        return E
    return entries.memo(("completion", line, tuple(map(tuple, sets)), tuple(cwd), tuple(dirs), ibs, free), f)


def queued(o):
    """the bytes of the queued text: [(state, tuple of values)]"""
    M, st = o.M, o.st
    p = st.np(o.get("write_buf"))
    n = cst(st.nl(M.lin(st, o.get("write_size"))))
    if n is None:
        n = cst(st.nl(M.lin(st, o.get("write_size"))))
        raise Broken("the size of a completion text is not determined")
    cur = [(st.copy(), ())]
    M.quiet += 1
    try:
        for i in range(n):
            cur = [(s2, l + (s2.nv(v),)) for s, l in cur
                   for s2, v in M.read_byte(steps.FakeFrame(o.E), steps.FakeInst, s, p.base, s.nl(p.off + i))]
    finally:
        M.quiet -= 1
    return cur


def value(st, x, fb, v):
    if x == "prompt":
        return x
    k = cst(x)
    if k is None and isinstance(x, BF):
        if x.s is fb:
            k = x.tbl[v]
        else:
            vs = {x.tbl[i] & 255 for i in mask_vals(st.sets.get(x.s, FULL))}
            k = vs.pop() if len(vs) == 1 else None
    return None if k is None else k & 255


def reference(line, sets, cwd, dirs, ibs):
    """-> (text, line afterwards)"""
    w = line[line.rfind(b" ") + 1:]
    cands = [n for s in sets for n in s if n.startswith(w)] + [n for n in cwd if n.startswith(w)] + \
            [d for d in dirs if d.startswith(w)]
    head = line[:len(line) - len(w)]
    if not cands:
        return b"", line
    if len(cands) == 1:
        full = head + cands[0]
        if len(full) >= ibs:
            return b"", line
        return cands[0][len(w):], full
    k = len(w)
    while len(head) + k + 1 < ibs and all(len(n) > k and n[k] == cands[0][k] for n in cands):
        k += 1
    if k > len(w):
        return cands[0][len(w):k], head + cands[0][:k]
    return [b"\r\n" + b"".join(n + b"\r\n" for n in cands), "prompt", line], line


FAMILIES = [
    # line, command sets, files of the directory, child directories, size of the line buffer
    ("", [["help"]], [], [], 16),
    ("?", [["help", "ls"]], [], [], 16),
    ("h?", [["help", "hex"], ["hello"]], ["h"], ["home"], 16),
    ("he", [["help"]], [], [], 16),
    ("he", [["he?p"]], [], [], 16),
    ("he", [["?elp"]], [], [], 16),
    ("he", [["ls", "cat"], ["h", "th?e"]], ["ahe"], ["xhe"], 16),
    ("ab", [["abcd", "ab?d"]], [], [], 16),
    ("ab", [["abcd"]], ["ab?d"], [], 16),
    ("ab", [["abcd"]], [], ["ab?d"], 16),
    ("ab", [["abcde"], ["abcdx", "zz"]], ["abc?"], ["abcd"], 16),
    ("ab", [["abc?"], ["abcd"], ["abcde"]], [], [], 16),
    ("a", [], ["abcde?", "abcdef", "abcdeg"], [], 16),
    ("a", [[]], ["x?"], ["abc", "abd", "ab?"], 16),
    ("a", [], [], ["a", "ab", "abc?"], 16),
    ("a", [["a", "a?"]], [], ["a"], 16),
    ("x", [["ab"]], ["bc?"], ["cd"], 16),
    ("cat f?", [["cat"]], ["file", "fun"], ["foo"], 16),
    ("cat \"fi", [["cat"]], ["file", "\"fil?"], ["fi"], 16),
    ("a b c", [["c"]], ["cd?", "b c"], [], 16),
    ("ab", [["abcdef?"]], [], [], 9),
    ("ab", [["abcdef?"]], [], [], 8),
    ("ab", [["abcdefg"]], [], [], 7),
    ("ab", [["abcdefgh"], ["abcdefgh?"]], [], [], 6),
    ("ab", [["abcdef", "abcdeg"]], [], [], 4),
    ("abc", [["abcdef", "abc?"]], [], [], 4),
    ("x abc", [["abcdef", "abcde?"]], [], [], 9),
    ("", [["ab"], ["cd", "?"]], ["ef"], ["gh"], 16),
    ("", [["ab"], ["acd"]], ["a?"], ["ae"], 16),
    ("a?", [["ab"], ["ac"]], ["abc"], ["acd"], 16),
]


def c30(c):
    R = c.rule("completion runs", "a completion appends nothing, the common continuation or the rest of the only candidate, or "
               "lists every candidate once and shows prompt and line again; what was typed is kept", len(FAMILIES))
    T = c.rule("end of completion", "every completion ends in line editing with the line terminated at the input position",
               len(FAMILIES))
    W = c.rule("completed word", "the word to complete starts behind the last blank of the line", 8)
    S = c.rule("candidate test", "a candidate is accepted exactly when it starts with the typed word", 36)
    family(c, W, "word")
    family(c, S, "startswith")
    for line, sets, cwd, dirs, ibs in FAMILIES:
        E = guarded(c, "completion", lambda: run(line, sets, cwd, dirs, ibs, WORD))
        if E is None:
            continue
        c.use(E)
        done = 0
        for o, txt, end in E.runs:
            fb = E.freebyte
            if not c.expect(T, end == "done", "ush_service (%s)" % (o.trail() or ["?"])[-1], "%s ends with %s" % (E.name, end),
                            o.trail(), good=E.name):
                continue
            cache = {}
            okk = True
            for v in mask_vals(o.st.sets.get(fb, WORD)) if fb is not None else [0]:
                done |= 1 << v
                f = lambda t: bytes(v if ch is None else ch for ch in bts(t))
                want, after = reference(f(line), [[f(n) for n in s] for s in sets], [f(n) for n in cwd],
                                        [f(d) for d in dirs], ibs)
                if isinstance(want, bytes):
                    want = [want]
                w = []
                for part in want:
                    w += [part] if part == "prompt" else list(part)
                got = [value(o.st, x, fb, v) for x in txt]
                n = len(after) + 1
                if n not in cache:
                    cache[n] = contents(o, o.M.INBUF, n)
                lines = [[value(s2, x, fb, v) for x in vals] for s2, vals in cache[n]]
                pos = cst(o.st.nl(o.M.lin(o.st, o.get("in_pos"))))
                if got != w:
                    why = "shows %s instead of %s" % (show(got), show(w))
                elif any(l != list(after) + [0] for l in lines):
                    why = "leaves the line %s instead of %s" % (show(lines[0]), show(after))
                elif pos != len(after):
                    why = "leaves the input position at %s instead of %d" % (pos, len(after))
                else:
                    continue
                c.bad(R, "ush_service (%s)" % (o.trail() or ["?"])[-1], "%s%s %s" %
                      (E.name, " for the byte %#x" % v if fb is not None else "", why), o.trail())
                okk = False
                break
            if okk:
                c.ok(R, E.name)
        if E.freebyte is not None and done & WORD != WORD:
            c.bad(T, "ush_service", "%s has no result for some bytes" % E.name)

    # any number of candidates: the counters of the steps hold every number of table entries
    N = c.rule("candidate counters", "no counter of a completion step wraps, whatever the number of candidates and entries", 20)
    es = [E for st in steps.states() if st.startswith("AUTOCOMP") for E in
          guarded(c, "service in state " + st, lambda: steps.all_service(st, "arduino")) or ()]
    for E in es:
        c.use(E)
        c.ok(N, E.name)
    decide(c, es, N, lambda o: o["kind"] in ("narrow", "wrap", "counter"))


def show(l):
    return "".join("<prompt>" if x == "prompt" else "." if x is None else chr(x) if 32 <= x < 127 else "\\x%02x" % x for x in l)


CHECKS = {"C30": c30}
