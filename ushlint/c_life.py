"""Life cycle of a session: independence of previous memory contents (C20), deinitialisation (C19)."""
from .lin import Lin, sym, ZERO, ONE, C
from .dom import (State, Ptr, PSym, Region, BF, NULL, NULLB, cst, psym)
from . import model, steps, entries
from .interp import Broken, Budget
from .steps import short
from .c_mem import guarded
from .c_fsm import where
from .c_tree import final, start, off, pparam, stname

FSM = ("state", "write_next_state", "prompt_next_state", "autocomp_prev_state", "process_stage")
# counters whose being zero decides whether something else was set; followed only while they matter
COUNT = {"autocomp_count": "AUTOCOMP", "process_data_size": "PROCESS"}
LINK = ("process_node", "process_child_node")
# operations an application may use before the root directory is mounted
EARLY = ("ush_node_mount", "ush_commands_add", "ush_commands_remove", "ush_print_status", "ush_print",
         "ush_print_no_newline", "ush_printf", "ush_flush", "ush_reset", "ush_deinit")
LATE = ("ush_node_unmount", "ush_node_set_current_dir", "ush_node_get_by_path", "ush_node_get_parent_by_path",
        "ush_node_get_absolute_path", "ush_file_find_by_name")


def fname(M, off_):
    return M.fields["self"].get(off_, ("offset %s" % off_,))[0]


def root_of(key_base):
    """-> (root object, path of offsets) an abstract node pointer was reached through"""
    path = []
    b = key_base
    while isinstance(b, PSym) and isinstance(b.key, tuple) and b.key and b.key[0] == "init":
        path.append(b.key[2])
        b = b.key[1]
    return b, tuple(reversed(path))


class Conf:
    """what is known about a session between two steps"""
    __slots__ = ("fsm", "link", "undef", "came", "cmd", "count")

    def __init__(self, fsm, link, undef, came, cmd=None, count=()):
        self.count = dict(count)
        self.fsm, self.link, self.undef, self.came = fsm, link, undef, came
        self.cmd = cmd            # built-in command whose processing is under way

    def key(self):
        return (tuple(sorted(self.fsm.items(), key=str)), tuple(sorted(self.link.items())), self.cmd, tuple(sorted(self.count.items())))

    def text(self):
        return "%s" % (self.fsm.get("state"),)


def state_names(M):
    return {k: n for n, k in M.S.items() if n != "_TOTAL_NUM"}


class Flow:
    """definite-assignment dataflow over every step of a session, from initialisation on"""

    def __init__(self, c, R, RN):
        self.c, self.R, self.RN = c, R, RN
        self.confs = {}
        self.work = []
        self.nsteps = 0
        self.cmd_undef = set()
        self.seen_bad = set()
        self.names = state_names(entries.call("ush_init").M)
        self.processing = set()
        self._commands = None
        self.sorted, self.values = {}, {}
        self._processes = {}

    # -- applying one analysed outcome to a configuration
    def value(self, o, f):
        k = (id(o), f)
        if k not in self.values:
            self.values[k] = (o, self.value_(o, f))
        return self.values[k][1]

    def value_(self, o, f):
        """-> ('k', value) | ('f', field name) | ('?',): the field after the step in terms of the state before it"""
        M, st = o.M, o.st
        k = (M.SELF, M.foff[("self", f)])
        if k in st.written or (k in st.defs and not st.havocs):
            v = st.nv(st.cells[k])
        elif st.havocs:
            v = None
            for e in reversed(st.events):
                if e[0] in ("set_data", "exec", "desc_exec", "process"):
                    v = e[4].get(f)
                    break
            if v is None:
                return ('f', f)
            v = st.nv(v)
        else:
            return ('f', f)
        return self.classify(o, v)

    def classify(self, o, v):
        M, st = o.M, o.st
        if isinstance(v, Lin):
            kc = cst(v)
            if kc is not None:
                return ('k', kc)
            for g in FSM:
                if ("self", g) in M.foff:
                    w = o.init(g)
                    if isinstance(w, Lin) and st.entails_eq(v - w):
                        return ('f', g)
            return ('?',)
        if isinstance(v, Ptr):
            p = st.np(v)
            if p.base is NULLB:
                return ('k', 0)
            return ('p', p.base)
        return ('?',)

    def counter(self, o, conf, f):
        """zero | positive | None"""
        M, st = o.M, o.st
        k = (M.SELF, M.foff[("self", f)])
        if not (k in st.written or k in st.defs):
            return conf.count.get(f)
        v = st.nv(st.cells[k])
        if not isinstance(v, Lin):
            return None
        if st.entails_eq(v):
            return "zero"
        if st.entails_ge(v - ONE):
            return "positive"
        w = o.init(f)
        if isinstance(w, Lin) and st.entails_eq(v - w):
            return conf.count.get(f)
        return None

    def contradicts(self, o, conf):
        for f, v in conf.count.items():
            w = o.init(f)
            if v == "zero" and isinstance(w, Lin) and o.st.entails_ge(w - ONE):
                return True
            if v == "positive" and isinstance(w, Lin) and o.st.entails_eq(w):
                return True
        return False

    def kind(self, o, conf, base):
        """tree directory, command set, or unknown"""
        M = o.M
        b, path = root_of(base)
        names = [M.fields["self"].get(path[0], ("?",))[0]] if path and b is M.SELF else []
        if b is M.SELF and not path:
            return "cmd"                      # the session's own set
        if b is M.SELF:
            f = names[0]
            nodef = {v[0] for v in ()}
            rest = path[1:]
            if f == "commands" or f.startswith("buildin_commands."):
                k = "cmd"
            elif f in LINK:
                k = conf.link.get(f, "?")
            else:
                k = "tree"
            if k == "cmd" and any(x != M.foff[("node", "next")] for x in rest):
                return "?"
            return k
        return "tree"

    def step(self, conf, o, what, cmd=None):
        """one step in configuration conf -> next configuration | None (impossible)"""
        M, st, c = o.M, o.st, self.c
        if self.contradicts(o, conf):
            return None
        self.nsteps += 1
        if id(o) not in self.sorted:
            self.sorted[id(o)] = (o, sorted(st.reads, key=repr))
        for b, ok, file, line, fn, pos in self.sorted[id(o)][1]:
            if any(conf.count.get(f) == "zero" for f in pos):
                continue
            site = "%s:%s %s" % (short(file), line, fn)
            if b is M.SELF:
                if isinstance(ok, int) and ok in conf.undef:
                    kk = (ok, site)
                    if kk not in self.seen_bad:
                        self.seen_bad.add(kk)
                        c.bad(self.R, site, "%s is used before anything determined it" % fname(M, ok),
                              ["step: " + what] + self.history(conf))
                else:
                    c.ok(self.R)
            elif isinstance(ok, int):
                if self.kind(o, conf, b) == "cmd":
                    n = M.fields["node"].get(ok, ("?",))[0]
                    if n in self.cmd_undef:
                        kk = (n, site)
                        if kk not in self.seen_bad:
                            self.seen_bad.add(kk)
                            c.bad(self.RN, site, "the %s of a command set is used, but adding a set leaves it undetermined" % n,
                                  ["step: " + what] + self.history(conf))
                    else:
                        c.ok(self.RN)
        defs = {k for b, k in st.defs if b is M.SELF}
        undef = frozenset(conf.undef - defs)
        fsm, link = {}, {}
        for f in FSM:
            if ("self", f) not in M.foff:
                continue
            v = self.value(o, f)
            fsm[f] = v[1] if v[0] == 'k' else conf.fsm.get(v[1]) if v[0] == 'f' else None
        for f in LINK:
            v = self.value(o, f)
            if v[0] == 'k':
                link[f] = "null"
            elif v[0] == 'f':
                link[f] = conf.link.get(v[1], "?")
            elif v[0] == 'p':
                link[f] = self.kind(o, conf, v[1])
            else:
                link[f] = "?"
        P = self.processing
        near = [self.names.get(fsm.get(g), "") for g in ("state", "write_next_state", "prompt_next_state")]
        count = {}
        for f, w in COUNT.items():
            if ("self", f) in M.foff and any(x.startswith(w) for x in near):
                v = self.counter(o, conf, f)
                if v:
                    count[f] = v
        busy = fsm.get("state") in P or (fsm.get("state") == M.S["WRITE_CHAR"] and fsm.get("write_next_state") in P)
        return Conf(fsm, link, undef, (conf, what), (cmd or conf.cmd) if busy else None, count)

    def history(self, conf):
        out = []
        n = 0
        while conf is not None and n < 12:
            out.append("in state %s, undetermined: %d fields" % (conf.fsm.get("state"), len(conf.undef)))
            if conf.came is None:
                break
            conf, w = conf.came
            out.append("after " + w)
            n += 1
        return out

    def add(self, conf):
        if conf is None:
            return
        k = conf.key()
        old = self.confs.get(k)
        if old is None:
            self.confs[k] = conf
            self.work.append(k)
        elif not conf.undef <= old.undef:
            conf.undef = conf.undef | old.undef
            self.confs[k] = conf
            if k not in self.work:
                self.work.append(k)

    def possible(self, E, conf):
        """the variant of the step does not contradict what is known"""
        M = E.M
        for f in FSM:
            if ("self", f) not in M.foff:
                continue
            k = cst(E.init(f)) if isinstance(E.init(f), Lin) else None
            if k is not None and conf.fsm.get(f) is not None and conf.fsm[f] != k:
                return False
        return True

    def run(self):
        M = entries.call("ush_init").M
        names = state_names(M)
        cur = M.foff[("self", "current_node")]
        self.processing = {M.S[n] for n in ("PROCESS_START", "PROCESS_SERVICE", "PROCESS_FINISH")}
        while self.work:
            k = self.work.pop(0)
            conf = self.confs[k]
            st = names.get(conf.fsm.get("state"))
            mounted = cur not in conf.undef
            for a in EARLY + (LATE if mounted else ()):
                E = self.api(a)
                if E is None:
                    continue
                for o in E.outcomes:
                    if a == "ush_node_mount" and not mounted and (M.SELF, cur) not in o.st.defs:
                        continue       # before the root exists only "/" can be mounted
                    if a == "ush_deinit":
                        self.step(conf, o, a + "()")
                        continue
                    self.add(self.step(conf, o, a + "()"))
            if not mounted:
                continue
            if st is None:
                self.c.error("the state after %s is not determined" % (conf.came and conf.came[1]))
                continue
            for E in self.service(st):
                if not self.possible(E, conf):
                    continue
                for o in E.outcomes:
                    nx = self.step(conf, o, "a service step in state %s" % st)
                    self.add(nx)
                    if nx is None:
                        continue
                    if o.ev("exec"):
                        for n, X in self.commands():
                            for q in X.outcomes:
                                self.add(self.step(nx, q, X.name, n))
                    if o.ev("process"):
                        for X in self.processes(st, nx.cmd):
                            for q in X.outcomes:
                                self.add(self.step(nx, q, X.name))

    # -- analysed steps
    def api(self, a):
        E = guarded(self.c, a, lambda: entries.call(a), helper=a)
        if E is not None:
            self.c.use(E)
        return E

    def service(self, st):
        r = guarded(self.c, "service in state " + st, lambda: steps.all_service(st))
        for E in r or ():
            self.c.use(E)
        return r or []

    def commands(self):
        if self._commands is None:
            out = self._commands = []
            for n in sorted(entries.builtin()):
                for a in entries.ARGCS:
                    E = guarded(self.c, "command %s/%d" % (n, a), lambda: entries.command(n, a))
                    if E is not None:
                        out.append((n, self.c.use(E)))
        return self._commands

    def processes(self, st, cmd):
        if cmd is None:
            return []
        if cmd not in self._processes:
            out = self._processes[cmd] = []
            if entries.builtin()[cmd]["process"]:
                for E in guarded(self.c, "process of " + cmd, lambda: entries.process_entries("arduino", (cmd,))) or ():
                    out.append(self.c.use(E))
        return [E for E in self._processes[cmd] if E.state == st]


def c20(c):
    I = c.rule("initialisation", "initialising a session reads none of its previous contents", 1)
    F = c.rule("determined before use", "along every sequence of steps from initialisation on, a session field is assigned "
               "before its value is used (definite assignment over the state machine, the built-in commands and the API)", 200)
    N = c.rule("mounting", "mounting assigns every field of the node and adding a command set every field of it that is ever "
               "used, without reading the previous contents", 3)
    K = c.rule("command sets", "no step uses a field of a command set that adding it leaves undetermined", 5)
    E = guarded(c, "ush_init", lambda: entries.call("ush_init"))
    if E is None:
        return
    c.use(E)
    M = E.M
    fl = Flow(c, F, K)
    allf = frozenset(M.fields["self"])
    # nodes
    nodef = set(M.fields["node"])
    for fn in ("ush_node_mount", "ush_commands_add"):
        X = guarded(c, fn, lambda: entries.call(fn))
        if X is None:
            continue
        c.use(X)
        node = pparam("node", "node")
        S = X.M.P["status"]
        nok = 0
        left = set()
        for o in X.outcomes:
            own = [r for r in o.st.reads if r[0] is node.base or o.st.np(Ptr(r[0])) == o.st.np(node)] \
                if True else []
            # the node is not part of the session yet: another pointer to it cannot exist
            own = [r for r in own if r[0] is node.base]
            c.expect(N, not own, where(X, o), "%s depends on the previous contents of the node (%s)" %
                     (fn, ", ".join(sorted({str(X.M.fields["node"].get(r[1], ("?",))[0]) for r in own}))), o.trail(),
                     "%s reads nothing of the node" % fn)
            if cst(o.st.nv(o.ret)) != S["OK"]:
                continue
            nok += 1
            missing = {X.M.fields["node"][k][0] for k in nodef if (node.base, k) not in o.st.defs}
            left |= missing
            if fn == "ush_node_mount":
                c.expect(N, not missing, where(X, o), "a mounted node keeps its previous %s" % ", ".join(sorted(missing)),
                         o.trail(), "every field of a mounted node")
        if fn == "ush_commands_add":
            fl.cmd_undef = left
            c.ok(N, "a command set determines all but %s" % (", ".join(sorted(left)) or "nothing"))
        if not nok:
            c.error("%s never succeeds" % fn)
    flow(c, E, fl, I)


def flow(c, E, fl, I):
    M = E.M
    allf = frozenset(M.fields["self"])
    for o in E.outcomes:
        own = [r for r in o.st.reads if r[0] is M.SELF]
        for b, ok, file, line, f, _ in sorted(own, key=repr):
            c.bad(I, "%s:%s %s" % (short(file), line, f), "initialisation uses the previous value of %s" % fname(M, ok),
                  o.trail())
        if not own:
            c.ok(I, "%d fields assigned" % len([1 for b, k in o.st.defs if b is M.SELF]))
        start_ = Conf({}, {}, allf, None)
        fl.add(fl.step(start_, o, "ush_init()") if not own else Conf({}, {}, frozenset(), None))
    if not c.rules[I]["bad"]:
        fl.run()
    c.extra["configurations"] = len(fl.confs)
    c.extra["steps_applied"] = fl.nsteps
    if fl.confs:
        first = next(iter(fl.confs.values()))
        c.extra["undetermined_after_init"] = sorted(fname(M, k) for k in first.undef)


def fields_determined(c):
    """the session part of C20, for C37"""
    I = c.rule("fresh session", "initialising a session reads none of its previous contents", 1)
    F = c.rule("session fields", "along every sequence of steps from initialisation on, a session field is assigned before its value "
               "is used", 200)
    K = c.rule("command set fields", "no step uses a field of a command set that adding it leaves undetermined", 5)
    E = guarded(c, "ush_init", lambda: entries.call("ush_init"))
    X = guarded(c, "ush_commands_add", lambda: entries.call("ush_commands_add"))
    if E is None or X is None:
        return
    c.use(E)
    fl = Flow(c, F, K)
    node, S = pparam("node", "node"), X.M.P["status"]
    fl.cmd_undef = {X.M.fields["node"][k][0] for o in X.outcomes if cst(o.st.nv(o.ret)) == S["OK"]
                    for k in X.M.fields["node"] if (node.base, k) not in o.st.defs}
    flow(c, E, fl, I)


# ------------------------------------------------------------------------------------------------ C19
def forests(n):
    """all ordered forests of n nodes: a forest is a tuple of trees, a tree the tuple of its subtrees"""
    if n == 0:
        return [()]
    out = []
    for k in range(n):
        for kids in forests(k):
            for rest in forests(n - 1 - k):
                out.append((kids,) + rest)
    return out


def shape_text(f):
    return "".join("(" + shape_text(t) + ")" for t in f)


def chain_shape(n):
    t = ()
    for _ in range(n):
        t = (t,)
    return t


SIZES = {"quick": 6, "thorough": 8}


def shapes(tier):
    n = SIZES[tier]
    out = [()] + [(f,) for k in range(n) for f in forests(k)]
    deep = 10
    out.append(chain_shape(deep))                                    # a chain of directories
    out.append((((),) * deep,))                                      # many directories in one
    out.append(((((),) * 4,) * 3,))                                  # several levels with siblings
    out.append((tuple(chain_shape(k) for k in (4, 1, 3, 2)),))       # branches of different depth
    return out


def plant(E, forest):
    """an explicit tree in the initial heap -> its nodes"""
    M, st = E.M, E.st0
    nodes = []

    def put(f, link, parent):
        prev = link
        for kids in f:
            p = Ptr(psym(("treenode", len(nodes)), "node", False))
            nodes.append(p)
            st.cells[prev] = p
            st.cells[(p.base, off(M, "parent"))] = parent
            put(kids, (p.base, off(M, "children")), p)
            prev = (p.base, off(M, "next"))
        st.cells[prev] = NULL
    put(forest, (M.SELF, off(M, "root", "self")), NULL)
    return nodes


def deinit(forest, config="arduino"):
    def f():
        E = steps.Entry("ush_deinit of the tree %s" % (shape_text(forest) or "(none)"), contracts=(), config=config)
        E.kind, E.api = "api", "ush_deinit"
        M, st = E.M, E.st0
        M.unroll, M.recursion = 64, True
        E.nodes = plant(E, forest)
        cmds = Ptr(psym(("appcommands",), "node", False))
        st.cells[(M.SELF, off(M, "commands", "self"))] = cmds
        st.cells[(cmds.base, off(M, "next"))] = Ptr(M.SELF, C(M.bc))
        # (adding a set leaves its links in the tree undetermined; empty ones keep a wrong walk over the sets finite)
        for n in ("children", "parent"):
            st.cells[(cmds.base, off(M, n))] = NULL
            st.cells[(M.SELF, M.bc + off(M, n))] = NULL
        st.cells[(M.SELF, M.bc + off(M, "next"))] = NULL
        allp = E.nodes + [cmds]
        for i, a in enumerate(allp):
            for b in allp[:i]:
                st.add_pne(a, b)
        E.run("ush_deinit", [Ptr(M.SELF)])
        return E
    return entries.memo(("deinit", shape_text(forest), config), f)


def iszero(o, v):
    v = o.st.np(v) if isinstance(v, Ptr) else o.st.nv(v)
    return v.base is NULLB if isinstance(v, Ptr) else cst(v) == 0


def c19(c):
    R1 = c.rule("whole tree", "in a tree of any of the enumerated shapes every field of every mounted node is zero after "
                "deinitialisation, whatever it held before", 50)
    R2 = c.rule("session", "every field of the session is zero after deinitialisation", 50)
    R3 = c.rule("nothing else", "deinitialisation writes to no other object and calls nothing of the application", 50)
    for f in shapes(c.tier if c.variant == "default" else "quick"):
        E = guarded(c, "deinit", lambda: deinit(f))
        if E is None:
            return
        c.use(E)
        M = E.M
        for o in E.outcomes:
            for i, p in enumerate(E.nodes):
                left = [n for n in ("file_list", "file_list_size", "path", "parent", "children", "next")
                        if ("node", n) in M.foff and not iszero(o, final(o, p, n))]
                c.expect(R1, not left, where(E, o), "node %d of the tree %s keeps its %s" % (i + 1, shape_text(f), ", ".join(left)),
                         o.trail(), "%s: %d nodes" % (shape_text(f), len(E.nodes)))
            left = [n for k, (n, sz) in sorted(M.fields["self"].items())
                    if not (lambda v: v is not None and iszero(o, v))(o.st.cells.get((M.SELF, k)))]
            c.expect(R2, not left, where(E, o), "the session keeps its %s" % ", ".join(left), o.trail(), shape_text(f))
            own = {M.SELF} | {o.st.np(p).base for p in E.nodes}
            alien = {(b, k) for b, k in o.st.written if b not in own and getattr(b, "cls", "") in ("self", "node", "file", "desc")}
            ev = [e[0] for e in o.st.events if e[0] in ("exec", "desc_exec", "process", "read", "write", "get_data", "set_data")]
            c.expect(R3, not alien and not ev, where(E, o), "deinitialisation also %s" %
                     ("writes " + ", ".join(sorted(map(repr, alien))) if alien else "calls " + ", ".join(ev)), o.trail(),
                     shape_text(f))
        for (file, line, fn, k, nm) in E.M.stores:
            c.expect(R3, k in ("self", "node", "stack") or k.startswith("local"), "%s:%s %s" % (short(file), line, fn),
                     "deinitialisation writes to %s" % nm, [])


CHECKS = {"C19": c19, "C20": c20}
