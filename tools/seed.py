#!/usr/bin/env python3
"""Plants bugs: turns a description (edits + demo) into seeded/<id>/ after confirming it in a scratch copy of /repo.

usage: seed.py SPEC.py [id ...]     confirm and write the bugs of SPEC.py (list BUGS of dicts)
       seed.py --verify [id ...]    confirm the bugs already in seeded/ again
       seed.py --catch [id ...]     which checks report each bug in seeded/
"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
SCR = "/tmp/seed"
BASE = "fix:"

DEMO_SH = """#!/bin/bash
# run in the repository: builds the demonstration against its sources and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
SRC=$(ls src/src/*.c src/src/commands/*.c)
clang -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vla-bound,function -DUSH_CONFIG_PLATFORM_POSIX %s \\
    -I src -I "$H" -o "$W/demo" "$H/demo.c" $SRC || exit 1
cd "$W"
ulimit -c 0
ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
"""

SHELL_H = r'''/* scripted session with the shell: feeds input, records output */
#include <microshell.h>
#include <inc/ush_internal.h>
#include <inc/ush_utils.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const char *g_in; static size_t g_inn, g_ini;
static char g_out[1 << 20]; static size_t g_on;
static unsigned g_refuse, g_tick;            /* refuse g_refuse of g_refuse+1 writes */
static int g_starve;                         /* no input every other time */

static int rd(struct ush_object *s, char *c)
{
    (void)s;
    if (g_starve && (g_tick++ & 1)) return 0;
    if (g_ini < g_inn) { *c = g_in[g_ini++]; return 1; }
    return 0;
}
static int wr(struct ush_object *s, char c)
{
    (void)s;
    if (g_refuse && (g_tick++ % (g_refuse + 1))) return 0;
    if (g_on < sizeof(g_out) - 1) g_out[g_on++] = c;
    return 1;
}
static const struct ush_io_interface g_io = { rd, wr };

/* session with buffers of exactly the given sizes */
static struct ush_object *mk2(struct ush_object *u, size_t in, size_t out, size_t path, char *host, ush_file_execute_callback exec)
{
    struct ush_descriptor *d = calloc(1, sizeof(*d));
    struct ush_descriptor t = { .io = &g_io, .input_buffer = malloc(in), .input_buffer_size = in,
        .output_buffer = malloc(out), .output_buffer_size = out, .path_max_length = path, .hostname = host, .exec = exec };
    memcpy(d, &t, sizeof(t));
    ush_init(u, d);
    return u;
}
static struct ush_object *mk(size_t in, size_t out, size_t path)
{
    return mk2(calloc(1, sizeof(struct ush_object)), in, out, path, "h", NULL);
}
static struct ush_node_object *dir(struct ush_object *u, const char *path, const struct ush_file_descriptor *f, size_t n)
{
    struct ush_node_object *o = calloc(1, sizeof(*o));
    ush_node_mount(u, path, o, f, n);
    return o;
}
/* feed n bytes, service until idle; -> output (NUL terminated) of this round */
static char *feedn(struct ush_object *u, const char *s, size_t n)
{
    g_in = s; g_inn = n; g_ini = 0; g_on = 0;
    int idle = 0; long k = 0;
    while (idle < 8) {
        if (ush_service(u)) idle = 0; else idle++;
        if (g_ini < g_inn) idle = 0;
        if (++k > 2000000) { printf("STUCK\n"); exit(3); }
    }
    g_out[g_on] = 0;
    return g_out;
}
#define FEED(u, s) feedn(u, s, sizeof(s) - 1)
#define EXPECT(c) do { if (!(c)) { printf("FAILED: %s\n", #c); fwrite(g_out, 1, g_on, stdout); printf("\n"); exit(1); } } while (0)
static int has(const char *s) { return strstr(g_out, s) != NULL; }
static int cnt(const char *s) { int n = 0; for (char *p = g_out; (p = strstr(p, s)); p += strlen(s)) n++; return n; }
/* last command as seen by the exec callback */
static int g_argc; static char g_argv[16][256];
static void rec(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[])
{
    (void)s; (void)f; g_argc = argc;
    for (int i = 0; i < argc && i < 16; i++) snprintf(g_argv[i], 256, "%s", argv[i]);
}
'''


def sh(cmd, cwd=None, env=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)


def copy(name):
    d = os.path.join(SCR, "w_" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    sh(["cp", "-a", "/repo", d])
    return d


def tests(d):
    """builds and runs the unit tests of the copy; -> (ok, message)"""
    b = os.path.join(d, "_build")
    shutil.rmtree(b, ignore_errors=True)
    p = sh("export CC=gcc CXX=g++ LC_ALL=C; cmake -S %s -B %s -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 "
           "-DCMAKE_PROJECT_INCLUDE=/opt/vp/unity_from_apt.cmake && ninja -C %s" % (d, b, b), None) if False else \
        subprocess.run(["bash", "-c", "export CC=gcc CXX=g++ LC_ALL=C; cmake -S %s -B %s -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 "
                        "-DCMAKE_PROJECT_INCLUDE=/opt/vp/unity_from_apt.cmake && ninja -C %s" % (d, b, b)],
                       capture_output=True, text=True)
    if p.returncode:
        return False, "build: " + (p.stdout + p.stderr)[-1500:]
    o = os.path.join(d, "_build", "vp-results.txt")
    p = sh(["python3", "/opt/vp/run_tests.py", b, o])
    if p.returncode:
        return False, "tests: " + (p.stdout + p.stderr)[-800:]
    j = os.path.join(d, "_build", "o.json")
    sh(["python3", "/opt/vp/results.py", j, "lines:" + o])
    r = json.load(open(j))
    base = json.load(open("/opt/vp/BASELINE.json"))
    need = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests")
    bad = [t for t in need if t not in set(r["passed"])]
    return not bad, "failing tests: %s" % bad[:4] if bad else "ok"


def demo(folder, cwd):
    t = os.path.join(SCR, "demo_" + os.path.basename(folder))
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(folder, t)
    for f in os.listdir(t):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(t, f))
    p = sh(["bash", os.path.join(t, "demo.sh")], cwd=cwd)
    shutil.rmtree(t, ignore_errors=True)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def original_lines(patch):
    """lines removed by the patch must stem from the original repository"""
    fixes = set(sh(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix:"]).stdout.split())
    f, ln, bad, n = None, 0, [], 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            h = sh(["git", "-C", "/repo", "blame", "-l", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f]).stdout.split()
            h = h[0].lstrip("^") if h else "?"
            n += 1
            if any(x.startswith(h) for x in fixes):
                bad.append((f, ln))
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return n, bad


def confirm(folder):
    name = os.path.basename(folder)
    patch = open(os.path.join(folder, "patch.diff")).read()
    n, bad = original_lines(patch)
    if bad or not n:
        return False, "changes lines of fixes: %s (%d removed lines)" % (bad, n)
    d = copy(name)
    try:
        rc, out = demo(folder, d)
        if rc:
            return False, "demo fails on the unchanged tree (%d): %s" % (rc, out)
        p = sh(["git", "-C", d, "apply", os.path.join(folder, "patch.diff")])
        if p.returncode:
            return False, "patch: " + p.stderr
        ok, msg = tests(d)
        if not ok:
            return False, msg
        rc, out = demo(folder, d)
        if rc == 0:
            return False, "demo passes with the patch"
        return True, "demo rc=%d: %s" % (rc, " ".join(out.split())[:160])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch(folder, ids=()):
    d = copy("c" + os.path.basename(folder))
    try:
        sh(["git", "-C", d, "apply", os.path.join(folder, "patch.diff")])
        e = dict(os.environ, USH_REPO=d)
        want = json.load(open(os.path.join(folder, "meta.json")))["property"]
        p = subprocess.run(["python3", os.path.join(ROOT, "run.py")] + list(ids), env=e, capture_output=True, text=True)
        o = p.stdout + p.stderr
        hit = re.findall(r"VIOLATION property=(\S+)", o)
        broken = [l for l in o.splitlines() if "BROKEN" in l or "cannot be analysed" in l or "no answer" in l.lower()]
        return want, sorted(set(hit)), p.returncode, broken[:3]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def note(i, hit):
    """tools/catches.json feeds the table in DESIGN.md"""
    p = os.path.join(ROOT, "tools", "catches.json")
    t = json.load(open(p)) if os.path.exists(p) else {}
    t[i] = " ".join(hit) or "**missed**"
    json.dump(t, open(p, "w"), indent=1, sort_keys=True)


def write(b):
    d = copy("m" + b["id"])
    folder = os.path.join(SCR, b["id"])
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    try:
        for f, a, c in b["edits"]:
            p = os.path.join(d, "src", "inc" if f.endswith(".h") else "src", f)
            s = open(p).read()
            if s.count(a) < 1:
                return False, "no such text in %s: %r" % (f, a)
            i = b.get("nth", {}).get(a, 0)
            parts = s.split(a)
            s = a.join(parts[:i + 1]) + c + a.join(parts[i + 1:])
            open(p, "w").write(s)
        patch = sh(["git", "-C", d, "diff"]).stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)
    open(os.path.join(folder, "patch.diff"), "w").write(patch)
    open(os.path.join(folder, "demo.c"), "w").write('#include "shell.h"\n' + b["demo"].strip() + "\n")
    open(os.path.join(folder, "shell.h"), "w").write(SHELL_H)
    open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH % b.get("flags", ""))
    os.chmod(os.path.join(folder, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(folder, "meta.json"), "w"), indent=1)
    ok, msg = confirm(folder)
    if ok:
        dst = os.path.join(SEEDED, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(folder, dst)
    shutil.rmtree(folder, ignore_errors=True)
    return ok, msg


def main():
    a = sys.argv[1:]
    if a and a[0] in ("--verify", "--catch"):
        ids = a[1:] or sorted(os.listdir(SEEDED))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            f = confirm if a[0] == "--verify" else catch
            for i, r in zip(ids, ex.map(lambda i: f(os.path.join(SEEDED, i)), ids)):
                if a[0] == "--catch":
                    note(i, r[1])
                    print(i, r[0], "CAUGHT" if r[0] in r[1] else "MISSED", " ".join(r[1]), "rc=%d" % r[2], *r[3], flush=True)
                else:
                    print(i, *r, flush=True)
        return
    ns = {}
    exec(open(a[0]).read(), ns)
    bugs = [b for b in ns["BUGS"] if not a[1:] or b["id"] in a[1:]]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for b, (ok, msg) in zip(bugs, ex.map(write, bugs)):
            print(b["id"], "kept" if ok else "REJECTED", msg, flush=True)


if __name__ == "__main__":
    main()
