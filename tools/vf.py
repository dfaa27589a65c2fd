#!/usr/bin/env python3
"""Runner of the solver-based checks: vf.py <property> [--tier quick|thorough] [--only NAME] [--keep]

For one property: translate the current sources under /repo together with the
property's harnesses to goto programs, let CBMC decide every assertion for all
symbolic values within the bounds, replay every counterexample natively
(gcc + ASan/UBSan) against the same sources, and write evidence/<id>.json.
Exit 0: everything discharged.  Exit 1: VIOLATION line(s), reproduced natively.
Exit 2: no answer (tool error, time-out, counterexample that does not replay).
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))

HINTS = os.path.join(VERIF, "tools", "unwind.json")
LEARN = os.environ.get("VF_LEARN") == "1"
MEM_LIMIT = 12 << 30
CPROVER_INTERNAL = re.compile(r"^(__CPROVER|nondet_|__builtin_|__sync_|__atomic_)")


RUNNING = set()
STOP = threading.Event()  # a violation was reproduced: the other queries need not end


class Stopped(Exception):
    pass


def sh(cmd, timeout=None, cwd=None, env=None, mem=MEM_LIMIT, stoppable=False):
    def lim():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1]) if
                           resource.getrlimit(resource.RLIMIT_STACK)[1] in (-1, resource.RLIM_INFINITY)
                           else resource.getrlimit(resource.RLIMIT_STACK))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=lim)
    if stoppable:
        RUNNING.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        if stoppable and STOP.is_set():
            raise Stopped()
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        if stoppable and STOP.is_set():
            raise Stopped()
        return "timeout", out.decode("utf8", "replace"), err.decode("utf8", "replace")
    finally:
        RUNNING.discard(p)


class ToolError(Exception):
    pass


class H:
    """One harness = one solver query set.

    name     unique within the property
    file     harness/<file>
    bounds   the stated bounds, in words
    defs     -D defines for harness *and* repository sources (bounds, stubs)
    cfg      BPAK_CONFIG_* values
    unwind   global unwinding (with unwinding assertions)
    checks   'none' | 'mem' | list of extra cbmc check flags
    src      'lib' (default) or 'tool' (also src/*.c)
    tiers    which tiers run it
    """

    def __init__(self, name, file, bounds, defs=None, cfg=None, unwind=40, checks="none", tiers=("quick", "thorough"),
                 timeout=600, flags=(), allow_missing=(), src="lib", stubs=(), native_libs=(), solver="cadical",
                 malloc_fail=False, unwindset=None, hang=20, replay_note="", mbed_headers=False, need_reach=True,
                 rename=(), strip=(), lo=None, ladder=(), hint=None):
        self.name, self.file, self.bounds = name, file, bounds
        self.defs = dict(defs or {})
        self.cfg = {"MERKLE": 1, "LZMA": 0, "MBEDTLS": 0}
        self.cfg.update(cfg or {})
        self.unwind, self.checks, self.tiers, self.timeout = unwind, checks, tiers, timeout
        self.flags, self.allow_missing, self.src = list(flags), set(allow_missing), src
        self.stubs = tuple(stubs)
        self.native_libs = list(native_libs)
        self.solver, self.malloc_fail = solver, malloc_fail
        self.unwindset = unwindset
        self.hang = hang
        self.need_reach = need_reach
        self.rename = tuple(rename)
        self.strip = tuple(strip)
        # lo: adaptive unwinding.  Every loop starts at `lo`; loops whose
        # unwinding assertion the solver refutes climb the ladder up to
        # `unwind`.  The final run has all unwinding assertions again.
        self.lo, self.ladder = lo, tuple(ladder)
        self.hint = hint or name  # whose loop bounds to start from


# libc names that are redirected to the models in harness/vf_*.h, in the
# repository sources and in the harness alike, for CBMC and for the replay.
STUBSETS = {
    "file": ["fopen", "fclose", "fread", "fwrite", "fseek", "fseeko", "ftell", "ftello", "rewind", "feof", "ferror",
             "fflush", "fileno", "ftruncate", "lseek", "write", "read", "pread", "pwrite", "stat", "fstat", "mmap", "munmap",
             "remove", "unlink", "fsync", "clearerr", "access", "fgetc", "fputc"],
    "mem": ["memset", "memcpy", "memmove"],
    "alloc": ["malloc", "calloc", "free", "realloc"],
    "out": ["printf", "fprintf", "vprintf", "vfprintf", "puts", "putchar"],
    "fmt": ["snprintf", "sprintf"],
    "getopt": ["getopt_long"],
    "random": ["random", "srand", "time"],
}


class Builder:
    """Compiles /repo's sources (per configuration) once per run."""

    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.variants = {}
        self.vlocks = {}

    def repo_sources(self, kind):
        lib = sorted(glob.glob(os.path.join(REPO, "lib", "**", "*.c"), recursive=True))
        uuid = [os.path.join(REPO, "ext/uuid", f) for f in
                ("unpack.c", "unparse.c", "clear.c", "compare.c", "pack.c", "parse.c", "isnull.c", "copy.c")]
        srcs = lib + [u for u in uuid if os.path.exists(u)]
        if kind == "tool":
            srcs += sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
        return srcs

    def cflags(self, h):
        key = "cfg_" + "_".join(f"{k}{v}" for k, v in sorted(h.cfg.items()))
        d = os.path.join(self.work, key)
        with self.lock:
            if not os.path.isdir(os.path.join(d, "bpak")):
                os.makedirs(os.path.join(d, "bpak"))
                t = open(os.path.join(REPO, "lib/build_config.h.in")).read()
                t = re.sub(r"@BPAK_CONFIG_(\w+)@", lambda m: str(h.cfg.get(m.group(1), 1)), t)
                open(os.path.join(d, "bpak/build_config.h"), "w").write(t)
        fl = ["-std=gnu99", f"-I{d}", f"-I{REPO}/include", f"-I{REPO}/ext/uuid", f"-I{REPO}/lib", f"-I{HARNESS}"]
        if h.src == "tool":
            fl.append(f"-I{REPO}/src")
        else:
            fl.append("-Dweak=")  # goto-cc drops weak bodies when linking
        for k, v in sorted(h.defs.items()):
            fl.append(f"-D{k}" if v is None else f"-D{k}={v}")
        fl += ["-include", os.path.join(HARNESS, "vf_pre.h")]
        for s in h.stubs:
            fl += [f"-D{n}=vf_{n}" for n in STUBSETS[s]]
        for a, b in h.rename:
            fl.append(f"-D{a}={b}")
        return fl

    def harness_cflags(self, h):
        fl = self.cflags(h)
        for a, b in h.rename:
            fl.remove(f"-D{a}={b}")
        return fl

    def variant(self, h):
        key = json.dumps([sorted(h.cfg.items()), sorted((k, str(v)) for k, v in h.defs.items() if k.startswith("BPAK_")),
                          h.src, h.stubs, h.rename])
        with self.lock:
            lk = self.vlocks.setdefault(key, threading.Lock())
        with lk:
            if key not in self.variants:
                self.variants[key] = self._compile(h, len(self.variants))
            return self.variants[key]

    def _compile(self, h, n):
        d = tempfile.mkdtemp(prefix="v%d_" % n, dir=self.work)
        hh = H("x", "", "", defs={k: v for k, v in h.defs.items() if k.startswith("BPAK_")}, cfg=h.cfg, src=h.src,
               stubs=h.stubs, rename=h.rename)
        fl = self.cflags(hh)
        srcs = [s for s in self.repo_sources(h.src) if h.cfg["MBEDTLS"] or os.path.basename(s) != "mbedtls_wrapper.c"]

        def one(s):
            o = os.path.join(d, s.replace("/", "_") + ".gb")
            rc, out, err = sh(["goto-cc", "-c", "-D__CPROVER__=1", *fl, s, "-o", o], timeout=120)
            if rc != 0:
                raise ToolError(f"goto-cc failed on {s}: {err[-1500:]}{out[-500:]}")
            rc, out, err = sh(["goto-instrument", "--list-goto-functions", "--json-ui", o], timeout=60)
            funcs = {}
            rc2, out2, err2 = sh(["goto-instrument", "--list-undefined-functions", o], timeout=60)
            und = {l.strip() for l in out2.splitlines() if re.match(r"^[A-Za-z_]\w*$", l.strip())}
            try:
                for m in json.loads(out):
                    for f in m.get("functions", []) if isinstance(m, dict) else []:
                        if f.get("isBodyAvailable"):
                            funcs[f["name"]] = f.get("isInternal", False)
            except json.JSONDecodeError:
                raise ToolError("cannot list functions of " + s)
            return s, o, set(funcs), und

        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, srcs))
        providers = {}
        objs = {}
        for s, o, funcs, und in res:
            objs[o] = dict(src=s, funcs=funcs, und=und)
            for f in funcs:
                if not CPROVER_INTERNAL.match(f) and f != "main":
                    providers.setdefault(f, o)
        return dict(dir=d, objs=objs, providers=providers, flags=fl)

    def link(self, h, outdir):
        v = self.variant(h)
        hgb = os.path.join(outdir, "harness.gb")
        rc, out, err = sh(["goto-cc", "-c", "-D__CPROVER__=1", *self.harness_cflags(h), os.path.join(HARNESS, h.file), "-o", hgb], timeout=120)
        if rc != 0:
            raise ToolError(f"goto-cc failed on {h.file}: {err[-3000:]}{out[-1000:]}")
        rc, out, err = sh(["goto-instrument", "--list-goto-functions", "--json-ui", hgb], timeout=60)
        have = set()
        for m in json.loads(out):
            for f in m.get("functions", []) if isinstance(m, dict) else []:
                if f.get("isBodyAvailable"):
                    have.add(f["name"])
        rc, out, err = sh(["goto-instrument", "--list-undefined-functions", hgb], timeout=60)
        todo = {l.strip() for l in out.splitlines() if re.match(r"^[A-Za-z_]\w*$", l.strip())}
        used = []
        while todo:
            f = todo.pop()
            if f in have:
                continue
            o = v["providers"].get(f)
            if o is None or o in used:
                continue
            used.append(o)
            have |= v["objs"][o]["funcs"]
            todo |= v["objs"][o]["und"] - have
        full = os.path.join(outdir, "prog.gb")
        rc, out, err = sh(["goto-cc", hgb, *used, "-o", full, "--function", "harness"], timeout=180)
        if rc != 0:
            raise ToolError(f"goto-cc link failed for {h.name}: {err[-3000:]}{out[-1000:]}")
        return full, [v["objs"][o]["src"] for o in used], v


CHECKS = {
    "none": ["--no-standard-checks"],
    "mem": ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check"],
    "full": ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check",
             "--signed-overflow-check", "--undefined-shift-check"],
}


def lhs_to_c(lhs):
    """vf_rec.meta[3l].id -> (*p).meta[3].id"""
    return re.sub(r"\[(\d+)[a-zA-Z]*\]", r"[\1]", lhs).replace("vf_rec", "(*p)", 1)


def emit_value(lhs, val, out):
    name = val.get("name")
    if name == "struct":
        for m in val.get("members", []):
            emit_value(lhs + "." + m["name"], m["value"], out)
    elif name == "array":
        for e in val.get("elements", []):
            emit_value(f"{lhs}[{e['index']}]", e["value"], out)
    elif name in ("integer", "pointer", "boolean", "float") or "binary" in val:
        b = val.get("binary")
        if b is None:
            return
        v = int(b, 2)
        if v:
            out.append(f"{lhs} = 0x{v:x}ULL;")
        else:
            out.append(f"{lhs} = 0;")


TYPES = {"u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t", "header": "struct bpak_header"}


def tape_from_trace(trace):
    """Return list of (kind, [C assignments]) in call order."""
    tape = []
    stack = []
    for s in trace:
        st = s.get("stepType")
        if st == "function-call":
            fn = s.get("function", {}).get("displayName") or s.get("function", {}).get("identifier", "")
            fn = fn.split("::")[-1]
            m = re.match(r"vf_(?:fill_)?(u8|u16|u32|u64|b8|b16|b32|b64|b128|b512|b1920|b4096|header)(\$link\d+)?$", fn)
            if m:
                tape.append((m.group(1), {}))
                stack.append(len(tape) - 1)
            else:
                stack.append(None)
        elif st == "function-return":
            if stack:
                stack.pop()
        elif st == "assignment" and s.get("lhs", "").split(".")[0].split("[")[0] == "vf_rec":
            cur = next((i for i in reversed(stack) if i is not None), None)
            if cur is None:
                continue
            out = []
            emit_value(lhs_to_c(s["lhs"]), s.get("value", {}), out)
            for a in out:
                k, v = a.split(" = ", 1)
                tape[cur][1][k] = v
    return [(k, [f"{l} = {v}" for l, v in d.items()]) for k, d in tape]


def tape_to_c(tape, comment):
    o = ["/* generated: solver's assignment, one case per symbolic source, in call order"]
    o += ["   " + c.replace("*/", "* /") for c in comment.splitlines()] + ["*/"]
    o += ['#include "vf.h"', "#include <stdio.h>", "#include <stdlib.h>"]
    o.append("void vf_tape(const char *kind, void *q)\n{\n    static int n;\n    switch (n++) {")
    for i, (kind, asg) in enumerate(tape):
        t = TYPES.get(kind, "struct vf_" + kind)
        o.append(f"    case {i}: {{ {t} *p = q; if (strcmp(kind, \"{kind}\")) goto bad; (void)p;")
        for a in asg:
            if not a.endswith("= 0;"):
                o.append("        " + a)
        o.append("        return; }")
    o.append('    default:\n        return;\n    }\nbad:\n    fprintf(stderr, "TAPE-MISMATCH at %d\\n", n - 1);\n    _Exit(76);\n}')
    return "\n".join(o) + "\n"


REPLAY_SH = """#!/bin/bash
# Replays the counterexample in tape.c against the sources in ${VF_REPO:-/repo}.
# Exit: 99 property violated, 98 sanitizer report, 124 does not terminate, 0 not reproduced
cd "$(dirname "$0")"
%s
"""


class Replayer:
    def __init__(self, builder, outroot):
        self.b = builder
        self.outroot = outroot

    def make(self, h, srcs, tape_c, tag):
        d = os.path.join(self.outroot, f"{h.name}-{tag}")
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        open(os.path.join(d, "tape.c"), "w").write(tape_c)
        return d

    def run(self, h, srcs, d, sanitize=True):
        fl = self.b.harness_cflags(h)
        # a private copy of the generated config header keeps the replay self-contained
        cfgdir = [f[2:] for f in fl if f.startswith("-I" + self.b.work)][0]
        dst = os.path.join(d, "cfg")
        if not os.path.isdir(dst):
            shutil.copytree(cfgdir, dst)
        fl = ["-Icfg" if f == "-I" + cfgdir else f for f in fl]
        fl = [f.replace(REPO, "$REPO") if REPO != "/" else f for f in fl]
        rfl = [f"-D{a}={b}" for a, b in h.rename]
        san = "-fsanitize=address,undefined -fno-sanitize=alignment" if sanitize else ""
        rs = [s.replace(REPO, "$REPO") for s in srcs]
        libs = " ".join(h.native_libs)
        script = 'REPO="${VF_REPO:-/repo}"\nset -e\nB=$(mktemp -d)\ntrap \'rm -rf "$B"\' EXIT\n'
        qfl = " ".join('"%s"' % f for f in fl)
        script += f"cp -r cfg \"$B\"\n"
        common = f"gcc -g -O1 -ftrivial-auto-var-init=pattern -U_FORTIFY_SOURCE -w {san} -fno-sanitize-recover=undefined {qfl}"
        script += f'{common} -c "{HARNESS}/{h.file}" -o "$B/h.o"\n'
        script += f'gcc -O0 -w {qfl} -c tape.c -o "$B/t.o"\n'
        script += f'{common} -c "{HARNESS}/vf_native.c" -o "$B/n.o"\n'
        i = 0
        for s in rs:
            script += f'{common} {" ".join(rfl)} -c "{s}" -o "$B/s{i}.o" &\n'
            i += 1
        script += "wait\n"
        script += f'gcc {san} "$B"/*.o {libs} -o "$B/replay"\n'
        script += "set +e\n"
        script += 'ASAN_OPTIONS=exitcode=98:detect_leaks=0:allocator_may_return_null=1 '
        script += f'UBSAN_OPTIONS=exitcode=98:halt_on_error=1 timeout {h.hang} "$B/replay"\nexit $?\n'
        p = os.path.join(d, "replay.sh")
        open(p, "w").write(REPLAY_SH % script)
        os.chmod(p, 0o755)
        env = dict(os.environ, VF_REPO=REPO)
        rc, out, err = sh(["bash", p], timeout=h.hang + 120, env=env, mem=None)
        open(os.path.join(d, "replay.log"), "w").write(f"exit {rc}\n{out}\n{err}")
        return rc, out + err


class Check:
    def __init__(self, prop, harnesses, tier, work, keep=False, seed=1, findings=()):
        self.prop, self.hs, self.tier, self.seed = prop, harnesses, tier, seed
        self.b = Builder(work)
        self.work = work
        self.outroot = os.path.join(VERIF, "evidence", "replay", prop)
        self.rp = Replayer(self.b, self.outroot)
        self.violations, self.errors, self.known = [], [], []
        self.findings = findings
        self.results = {}
        self.hints = json.load(open(HINTS)) if os.path.exists(HINTS) else {}
        self.lock = threading.Lock()

    def base_cmd(self, h, gb, unwind, unwindset):
        cmd = ["cbmc", gb, "--unwind", str(unwind), "--unwinding-assertions", "--drop-unused-functions",
               "--slice-formula", "--object-bits", "12", "--json-ui", "--verbosity", "8"]
        if h.solver == "cadical":
            cmd += ["--sat-solver", "cadical"]
        elif h.solver != "minisat":
            cmd += ["--" + h.solver]
        if not h.malloc_fail:
            cmd += ["--no-malloc-may-fail"]
        else:
            cmd += ["--malloc-may-fail", "--malloc-fail-null"]
        if unwindset:
            cmd += ["--unwindset", unwindset]
        return cmd + h.flags

    def run_cbmc(self, h, cmd, timeout):
        t0 = time.time()
        if STOP.is_set():
            raise Stopped()
        rc, out, err = sh(cmd, timeout=timeout, stoppable=True)
        wall = time.time() - t0
        if rc == "timeout":
            raise ToolError(f"{h.name}: CBMC exceeded {timeout:.0f} s")
        try:
            js = json.loads(out)
        except json.JSONDecodeError:
            raise ToolError(f"{h.name}: CBMC gave no usable answer (rc {rc}): {err[-800:]} {out[-800:]}")
        return rc, js, wall

    def cbmc(self, h, gb):
        spent, rounds = 0.0, 0
        unwind, us = h.unwind, h.unwindset
        key = f"{self.prop}/{h.hint}"
        with self.lock:
            hint = dict(self.hints[key]) if key in self.hints else None
        if h.lo is not None and hint is not None and not LEARN:
            # Bounds that sufficed before.  Still checked by the unwinding
            # assertions below; where they do not hold, search from scratch.
            us = ",".join(f"{k}:{v}" for k, v in sorted(hint.items()))
            cmd = self.base_cmd(h, gb, h.lo, us) + ["--trace"]
            cmd += CHECKS.get(h.checks, h.checks if isinstance(h.checks, list) else [])
            rc, js, wall = self.run_cbmc(h, cmd, h.timeout)
            spent += wall
            props = next((m["result"] for m in js if isinstance(m, dict) and "result" in m), [])
            if props and not any(re.search(r"\.unwind\.\d+$", p["property"]) and p["status"] != "SUCCESS" for p in props):
                return rc, js, spent, " ".join(cmd)
        if h.lo is not None:
            unwind = h.lo
            steps = sorted({x for x in (h.lo,) + h.ladder + (h.unwind,) if h.lo <= x <= h.unwind})
            bounds = dict(hint) if hint and not LEARN else {}
            while True:
                us = ",".join(f"{k}:{v}" for k, v in sorted(bounds.items()))
                cmd = self.base_cmd(h, gb, h.lo, us) + ["--no-standard-checks", "--no-assertions"]
                rc, js, wall = self.run_cbmc(h, cmd, max(h.timeout - spent, 1))
                spent += wall
                rounds += 1
                props = next((m["result"] for m in js if isinstance(m, dict) and "result" in m), None)
                if props is None:
                    break
                grown = False
                for p in props:
                    mm = re.match(r"(.*)\.unwind\.(\d+)$", p["property"])
                    if not mm or p["status"] != "FAILURE":
                        continue
                    lid = f"{mm.group(1)}.{mm.group(2)}"
                    cur = bounds.get(lid, h.lo)
                    nxt = next((x for x in steps if x > cur), None)
                    if nxt is not None:
                        bounds[lid] = nxt
                        grown = True
                if not grown:
                    break
            with self.lock:  # for the harnesses to come
                if LEARN and h.hint == h.name:
                    self.hints[key] = bounds
                elif not LEARN and key in self.hints:
                    for k, v in bounds.items():
                        self.hints[key][k] = max(v, self.hints[key].get(k, 0))
            us = ",".join(f"{k}:{v}" for k, v in sorted(bounds.items()))
        cmd = self.base_cmd(h, gb, unwind, us) + ["--trace"]
        cmd += CHECKS.get(h.checks, h.checks if isinstance(h.checks, list) else [])
        rc, js, wall = self.run_cbmc(h, cmd, max(h.timeout - spent, 1))
        return rc, js, wall + spent, " ".join(cmd)

    def one(self, h):
        res = dict(name=h.name, bounds=h.bounds, harness=h.file, defines=h.defs, unwind=h.unwind)
        out = tempfile.mkdtemp(prefix=h.name + "_", dir=self.work)
        gb, srcs, variant = self.b.link(h, out)
        rc, js, wall, cmd = self.cbmc(h, gb)
        stats = dict(steps=0, variables=0, clauses=0, solver_s=0.0, symex_s=0.0, solver_calls=0)
        missing = set()
        props = None
        for m in js:
            if not isinstance(m, dict):
                continue
            t = m.get("messageText", "")
            if m.get("messageType") == "ERROR":
                raise ToolError(f"{h.name}: {t}")
            if "no body for function" in t or "no body for callee" in t:
                missing.add(re.sub(r".*no body for (?:function|callee) '?([\w$]+)'?.*", r"\1", t))
            for k, rx in (("steps", r"size of program expression: (\d+) steps"),):
                mm = re.search(rx, t)
                if mm:
                    stats[k] = max(stats[k], int(mm.group(1)))
            mm = re.search(r"(\d+) variables, (\d+) clauses", t)
            if mm:
                stats["variables"] = max(stats["variables"], int(mm.group(1)))
                stats["clauses"] = max(stats["clauses"], int(mm.group(2)))
            mm = re.search(r"Runtime Solver: ([\d.e-]+)s", t)
            if mm:
                stats["solver_s"] += float(mm.group(1))
                stats["solver_calls"] += 1
            mm = re.search(r"Runtime Symex: ([\d.e-]+)s", t)
            if mm:
                stats["symex_s"] += float(mm.group(1))
            if "result" in m:
                props = m["result"]
        if props is None:
            raise ToolError(f"{h.name}: CBMC reported no results (rc {rc})")
        fails, reach, ok = [], [], 0
        for p in props:
            d = p.get("description", "")
            if ".no-body." in p["property"]:
                if p["status"] == "FAILURE":
                    missing.add(p["property"].rsplit(".", 1)[1])
            elif d.startswith("REACH"):
                reach.append(p)
            elif p["status"] == "SUCCESS":
                ok += 1
            elif p["status"] == "FAILURE":
                fails.append(p)
            else:
                raise ToolError(f"{h.name}: status {p['status']} for {p['property']}")
        missing = {m for m in missing if not CPROVER_INTERNAL.match(m)} - h.allow_missing
        res.update(stats=stats, wall_s=round(wall, 2), queries=len(props) - len(reach), discharged=ok,
                   reach_total=len(reach), reach_hit=sum(1 for p in reach if p["status"] == "FAILURE"),
                   cmd=cmd, sources=[os.path.relpath(s, REPO) for s in srcs], havoced=sorted(missing | h.allow_missing))
        res["functions"] = self.functions(gb, variant, srcs)
        # ---- counterexamples
        fails.sort(key=lambda p: (0 if p["description"].startswith("VF ") else 1 if "unwinding" not in p["description"] else 2))
        unrep = []
        hit = False
        for n, p in enumerate(fails[:6]):
            tape = tape_from_trace(p.get("trace", []))
            loc = p.get("sourceLocation", {})
            cm = f"property {self.prop}, harness {h.name}: {p['description']} ({p['property']}) at " \
                 f"{loc.get('file', '?')}:{loc.get('line', '?')}"
            d = self.rp.make(h, srcs, tape_to_c(tape, cm), f"cex{n}")
            rrc, log = self.rp.run(h, srcs, d)
            reproduced = rrc in (98, 99) or (isinstance(rrc, int) and (rrc < 0 or rrc in (134, 136, 139))) or \
                (rrc in (124, "timeout"))
            info = dict(harness=h.name, property=p["property"], what=p["description"], where=f"{loc.get('file')}:{loc.get('line')}",
                        replay=os.path.join(d, "replay.sh"), native_exit=rrc)
            if reproduced:
                first = next((l for l in log.splitlines() if "PROPERTY-VIOLATED" in l or "ERROR: Addr" in l or "runtime error" in l), "")
                info["native"] = first[:300]
                hit = True
                with self.lock:
                    self.violations.append(info)
                    if not self.findings:
                        STOP.set()
                        for q in list(RUNNING):
                            try:
                                os.killpg(q.pid, 9)
                            except ProcessLookupError:
                                pass
                break
            unrep.append(info)
        if fails and not hit:
            raise ToolError(f"{h.name}: counterexample(s) did not reproduce natively: "
                            + "; ".join(f"{i['what']} [{i['property']}] exit {i['native_exit']} log {i['replay']}" for i in unrep))
        if missing and not hit:
            raise ToolError(f"{h.name}: no model for external function(s) {sorted(missing)}")
        # ---- vacuity + validation of the encoding: replay witnesses natively
        res["witness_replays"] = 0
        if not fails:
            bad = [p["description"] for p in reach if p["status"] != "FAILURE"]
            if h.need_reach and (bad or not reach):
                raise ToolError(f"{h.name}: vacuous, not reachable: {bad}")
            reach = [p for p in reach if p["status"] == "FAILURE"]
            todo = reach if self.tier == "thorough" else reach[-1:]
            for n, p in enumerate(todo):
                tape = tape_from_trace(p.get("trace", []))
                d = self.rp.make(h, srcs, tape_to_c(tape, "witness " + p["description"]), f"witness{n}")
                rrc, log = self.rp.run(h, srcs, d, sanitize=True)
                want = "REACHED " + p["description"][6:]
                if want not in log or rrc not in (0,):
                    raise ToolError(f"{h.name}: witness '{p['description']}' does not replay natively (exit {rrc}): {log[-600:]}")
                res["witness_replays"] += 1
                if n == 0:
                    res["sample"] = [f"{k}: " + " ".join(a[:24]) + (" ..." if len(a) > 24 else "") for k, a in tape[:12]]
                shutil.rmtree(d)
        with self.lock:
            self.results[h.name] = res
        shutil.rmtree(out, ignore_errors=True)
        return res

    def functions(self, gb, variant, srcs):
        rc, out, err = sh(["goto-instrument", "--reachable-call-graph", gb], timeout=120)
        names = set(re.findall(r"[A-Za-z_]\w*", out))
        repo_funcs = set()
        for o, d in variant["objs"].items():
            if d["src"] in srcs:
                for f in d["funcs"]:
                    if not CPROVER_INTERNAL.match(f):
                        repo_funcs.add(f)
        return sorted(names & repo_funcs)

    def run(self):
        if os.path.isdir(self.outroot):
            shutil.rmtree(self.outroot)
        os.makedirs(self.outroot)
        jobs = int(os.environ.get("VF_JOBS", "8"))
        with cf.ThreadPoolExecutor(jobs) as ex:
            futs = {ex.submit(self.one, h): h for h in self.hs}
            for f in cf.as_completed(futs):
                h = futs[f]
                try:
                    r = f.result()
                    print(f"  {h.name}: {r['discharged']}/{r['queries']} discharged, reach {r['reach_hit']}/{r['reach_total']}, "
                          f"{r['stats']['variables']} vars, {r['wall_s']} s", flush=True)
                except Stopped:
                    pass
                except ToolError as e:
                    self.errors.append(str(e))
                    print("  ERROR", e, flush=True)
                except Exception as e:  # noqa
                    import traceback
                    self.errors.append(f"{h.name}: {type(e).__name__} {e}")
                    traceback.print_exc()


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    spec = checks.CHECKS[a.prop]
    hs = [h for h in spec["harnesses"] if a.tier in h.tiers and (not a.only or re.fullmatch(a.only, h.name))]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vf-{a.prop}-")
    try:
        print(f"{a.prop} [{a.tier}]: {len(hs)} harnesses over {REPO}", flush=True)
        kfp = os.path.join(VERIF, "known_findings.json")
        known = [k for k in json.load(open(kfp)).get("findings", []) if k["property"] == a.prop] if os.path.exists(kfp) else []
        c = Check(a.prop, hs, a.tier, work, a.keep, seed, known)
        c.run()
        if LEARN:
            import fcntl
            with open(HINTS + ".lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                cur = json.load(open(HINTS)) if os.path.exists(HINTS) else {}
                cur.update({k: v for k, v in c.hints.items() if k.startswith(a.prop + "/")})
                json.dump(cur, open(HINTS, "w"), indent=0, sort_keys=True)
    finally:
        if a.keep:
            print("work kept in", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    kf = []
    kfp = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kfp):
        kf = [k for k in json.load(open(kfp)).get("findings", []) if k["property"] == a.prop]
    viol = []
    for v in c.violations:
        k = next((k for k in kf if k["harness"] == v["harness"] and k["assertion"] in v["what"]), None)
        if k:
            c.known.append((k, v))
        else:
            viol.append(v)
    for k, v in c.known:
        print(f"KNOWN-FINDING: property={a.prop} {k['summary']}")
    R = list(c.results.values())
    tot = lambda f: sum(f(r) for r in R)
    if not a.only:
        ev = dict(
            property=a.prop, tier=a.tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(viol),
            coverage=dict(
                states=tot(lambda r: r["stats"]["variables"]),
                transitions=tot(lambda r: r["stats"]["steps"]),
                traces_validated_against_impl=tot(lambda r: r["witness_replays"]) + len(c.violations),
                samples=[dict(harness=r["name"], witness=r.get("sample", [])) for r in R][:4] or ["none"],
                meaning="bounded symbolic execution: states = propositional state variables of the unrolled encodings, "
                        "transitions = symbolic execution steps (guarded assignments) encoded, "
                        "traces_validated = solver assignments re-executed natively (gcc+ASan+UBSan) on the same sources",
                queries=tot(lambda r: r["queries"]), queries_discharged=tot(lambda r: r["discharged"]),
                clauses=tot(lambda r: r["stats"]["clauses"]),
                solver_calls=tot(lambda r: r["stats"]["solver_calls"]),
                solver_s=round(tot(lambda r: r["stats"]["solver_s"]), 2),
                symex_s=round(tot(lambda r: r["stats"]["symex_s"]), 2),
                functions_encoded=sorted({f for r in R for f in r["functions"]}),
                reachability_witnesses=tot(lambda r: r["reach_hit"]),
                harnesses=[{k: r[k] for k in ("name", "bounds", "queries", "discharged", "reach_hit", "reach_total", "wall_s",
                                              "unwind", "sources", "havoced", "cmd")} | r["stats"] for r in R],
                incomplete=c.errors,
                checker="cbmc 6.11 (goto-cc front end) + " + ", ".join(sorted({h.solver for h in hs}))),
            assumptions=spec.get("assumptions", []) + [f"{h.name}: {h.bounds}" for h in hs])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    for v in viol:
        print(f"  counterexample in {v['harness']}: {v['what']} ({v['property']}) {v['where']}; native: {v.get('native', '')}")
        print(f"VIOLATION property={a.prop} replay={v['replay']}", flush=True)
    if viol:
        sys.exit(1)
    if c.errors:
        print(f"NO ANSWER property={a.prop}: {len(c.errors)} harness(es) undecided")
        sys.exit(2)
    print(f"{a.prop}: held on everything explored ({tot(lambda r: r['queries'])} queries, {wall:.1f} s)")
    sys.exit(0)


if __name__ == "__main__":
    main()
