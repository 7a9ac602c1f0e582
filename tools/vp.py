#!/usr/bin/env python3
"""Driver: decide one property by running its CBMC jobs on /repo's current tree.

    tools/vp.py PROPERTY quick|thorough     run a check
    tools/vp.py --job NAME                  run one job, verbosely
    tools/vp.py --list

Exit 0: every query was discharged (or only listed known findings failed).
Exit 1: a counterexample was found AND reproduced by native execution of the
        real code; "VIOLATION property=<id> replay=<path>" is printed.
Exit 2: no answer (a job could not be decided, was vacuous, or its
        counterexample could not be reproduced natively).
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)

JOBS_PARALLEL = int(os.environ.get("VP_JOBS", "8"))
RENAME_ALLOC = {n: "vp_" + n for n in ("malloc", "calloc", "realloc", "free", "strdup")}
CHECK_FLAGS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
               "--div-by-zero-check", "--unwinding-assertions",
               "--no-malloc-may-fail"]


class Job:
    def __init__(self, name, harness, sources, defines=None, unwind=4,
                 unwindset=None, max_unwind=None, object_bits=10, flags=(),
                 rename=(), rename_alloc=True, timeout=400, bounds="",
                 reach=(), extra=(), incl=(), native=True, native_cflags=(),
                 mem_gb=8, own_checks=True, custom_confirm=None, solver=None,
                 main_rename=None, weight=1, harness_unwind=1200,
                 lib_unwind=None, src_rename=None, seq=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.defines = dict(defines or {})
        self.unwindset = dict(unwindset or {})
        self.max_unwind = max_unwind or max(unwind * 2 + 2, unwind + 4)


def config_h(workdir):
    """config.h for the tree under test: the build's own when there is one,
    otherwise the one committed here for this platform."""
    p = os.path.join(REPO, "_build", "config.h")
    if os.path.exists(p):
        return p
    return os.path.join(VERIF, "lib", "config.h")


def common_flags(job, native, alloc=True):
    fl = ["-D_GNU_SOURCE", "-include", config_h(None),
          "-I" + REPO, "-I" + REPO + "/fstrm", "-I" + REPO + "/libmy",
          "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness")]
    fl += ["-I" + i for i in job.incl]
    for k, v in job.defines.items():
        fl.append("-D%s=%s" % (k, v) if v is not None else "-D" + k)
    if native:
        fl.append("-DVP_NATIVE")
    return fl


def rename_flags(job):
    fl = []
    if job.rename_alloc:
        fl += ["-D%s=%s" % kv for kv in RENAME_ALLOC.items()]
    for n in job.rename:
        fl.append("-D%s=vp_%s" % (n, n))
    return fl


def limits(mem_gb):
    def f():
        os.setsid()
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, 1 << 30))
    return f


def run(cmd, timeout, mem_gb=8, env=None, cwd=None, setlimits=True):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=env, cwd=cwd,
                         preexec_fn=limits(mem_gb) if setlimits else os.setsid)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = "timeout"
    return rc, out.decode("utf-8", "replace"), time.time() - t0


def src_path(s):
    return s if os.path.isabs(s) else os.path.join(REPO, s)


def seq_ir(job, wd):
    """LLVM IR of the source whose operations run concurrently."""
    from tools import seq
    src, entries = job.seq
    cfl = [f for f in common_flags(job, False)] + rename_flags(job)
    cfl = [f for f in cfl if not f.startswith("-Dpthread_")]
    return seq, seq.build_ir(src_path(src), cfl, os.path.join(wd, "seq.ll")), entries


def compile_goto(job, wd):
    objs = []
    cfl = common_flags(job, False)
    ren = rename_flags(job)
    units = [(src_path(s), ren) for s in job.sources]
    if job.main_rename:
        units = [(s, fl + (["-Dmain=" + job.main_rename] if s == src_path(job.sources[0]) else []))
                 for s, fl in units]
    for k, names in (job.src_rename or {}).items():
        units = [(s, fl + (["-D%s=vp_%s" % (n, n) for n in names] if s == src_path(k) else []))
                 for s, fl in units]
    units.append((os.path.join(VERIF, "harness", job.harness), ren))
    units += [(os.path.join(VERIF, "lib", e), ren) for e in job.extra]
    units.append((os.path.join(VERIF, "lib", "vp_rt.c"), []))
    if job.seq:
        try:
            seq, ir, entries = seq_ir(job, wd)
            text, job._accesses = seq.to_c(ir, entries)
        except Exception as e:
            return None, "sequentialiser: %s: %s" % (type(e).__name__, e)
        p = os.path.join(wd, "seq.c")
        with open(p, "w") as f:
            f.write(text)
        units.append((p, []))
        need = sum(a * n for a, n in zip(job._accesses, job.seq_ops)) if hasattr(job, "seq_ops") else 0
        cfl = cfl + ["-DSTEPS=%d" % need]
    for i, (s, fl) in enumerate(units):
        o = os.path.join(wd, "%d.gb" % i)
        rc, out, _ = run(["goto-cc", "-c", "-o", o] + cfl + fl + [s], 120)
        if rc != 0:
            return None, "goto-cc failed on %s:\n%s" % (s, out[-3000:])
        objs.append(o)
    gb = os.path.join(wd, "all.gb")
    rc, out, _ = run(["goto-cc", "--function", "main", "-o", gb] + objs, 120)
    if rc != 0:
        return None, "goto-cc link failed:\n" + out[-3000:]
    return gb, None


def compile_native(job, wd):
    objs = []
    cfl = common_flags(job, True) + ["-g", "-O1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-w",
                                     "-std=gnu11", "-pthread"] + list(job.native_cflags)
    if not any(f.startswith("-fsanitize") for f in job.native_cflags):
        cfl.append("-fsanitize=address")
    ren = rename_flags(job)
    units = [(src_path(s), ren) for s in job.sources]
    if job.main_rename:
        units = [(s, fl + (["-Dmain=" + job.main_rename] if s == src_path(job.sources[0]) else []))
                 for s, fl in units]
    for k, names in (job.src_rename or {}).items():
        units = [(s, fl + (["-D%s=vp_%s" % (n, n) for n in names] if s == src_path(k) else []))
                 for s, fl in units]
    units.append((os.path.join(VERIF, "harness", job.harness), ren))
    units += [(os.path.join(VERIF, "lib", e), ren) for e in job.extra]
    units.append((os.path.join(VERIF, "lib", "vp_rt.c"), []))
    if job.seq:
        seq, ir, entries = seq_ir(job, wd)
        text, acc = seq.to_c(ir, entries)
        cfl = cfl + ["-DSTEPS=%d" % sum(a * n for a, n in zip(acc, job.seq_ops))]
        ll = os.path.join(wd, "seqi.ll")
        with open(ll, "w") as f:
            f.write(seq.instrument(ir, entries))
        o = os.path.join(wd, "seqi.o")
        rc, out, _ = run(["clang", "-c", "-O0", "-w", "-o", o, ll], 120)
        if rc != 0:
            return None, "clang failed on the instrumented IR:\n" + out[-3000:]
        objs.append(o)
        units = [u for u in units if u[0] != src_path(job.seq[0])]
        units.append((os.path.join(VERIF, "lib", "seq_native.c"), []))
        # coroutines and address sanitizer do not mix
        cfl = [f for f in cfl if f != "-fsanitize=address"]
    for i, (s, fl) in enumerate(units):
        o = os.path.join(wd, "n%d.o" % i)
        rc, out, _ = run(["gcc", "-c", "-o", o] + cfl + fl + [s], 120)
        if rc != 0:
            return None, "gcc failed on %s:\n%s" % (s, out[-3000:])
        objs.append(o)
    exe = os.path.join(wd, "replay")
    rc, out, _ = run(["gcc", "-o", exe, "-pthread", "-Wl,--unresolved-symbols=ignore-all"] +
                     ([f for f in cfl if f.startswith("-fsanitize")]) + objs, 120)
    if rc != 0:
        return None, "gcc link failed:\n" + out[-3000:]
    return exe, None


RE_RES = re.compile(r"^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def parse_results(out):
    res = []
    where = ("", "")
    st = {"vccs": 0, "vccs_remaining": 0, "solver_s": 0.0, "symex_s": 0.0,
          "variables": 0, "clauses": 0, "steps": 0, "solver_calls": 0}
    for line in out.splitlines():
        m = RE_RES.match(line)
        if m:
            res.append({"id": m.group(1), "line": m.group(2), "desc": m.group(3),
                        "status": m.group(4), "file": where[0], "func": where[1]})
            continue
        m = re.match(r"^(\S+) function (\S+)$", line)
        if m:
            where = (m.group(1), m.group(2))
            continue
        m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", line)
        if m:
            st["vccs"] += int(m.group(1))
            st["vccs_remaining"] += int(m.group(2))
        m = re.match(r"Runtime Solver: ([\d.e+-]+)s", line)
        if m:
            st["solver_s"] += float(m.group(1))
            st["solver_calls"] += 1
        m = re.match(r"Runtime Symex: ([\d.e+-]+)s", line)
        if m:
            st["symex_s"] += float(m.group(1))
        m = re.match(r"(\d+) variables, (\d+) clauses", line)
        if m:
            st["variables"] = max(st["variables"], int(m.group(1)))
            st["clauses"] = max(st["clauses"], int(m.group(2)))
        m = re.match(r"size of program expression: (\d+) steps", line)
        if m:
            st["steps"] += int(m.group(1))
    return res, st


def find_loops(job, gb):
    """Loops of the harness and of CBMC's C library, by id. Loops of the code
    under test are never named: they get the uniform, adaptive --unwind."""
    rc, out, _ = run(["cbmc", gb, "--show-loops"], 120)
    us = {}
    for m in re.finditer(r"^Loop (\S+):\n\s+file (\S+) line", out, re.M):
        if m.group(2).startswith(VERIF + "/"):
            us[m.group(1)] = job.harness_unwind
        elif m.group(2).startswith("<builtin") and job.lib_unwind:
            us[m.group(1)] = job.lib_unwind
    us.update(job.unwindset)
    return us


def cbmc_cmd(job, gb, unwind, extra=()):
    if not hasattr(job, "_us"):
        job._us = find_loops(job, gb)
    cmd = ["cbmc", gb, "--unwind", str(unwind), "--object-bits", str(job.object_bits)]
    if job._us:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in job._us.items())]
    cmd += CHECK_FLAGS if job.own_checks else []
    cmd += list(job.flags) + list(extra)
    if job.solver:
        cmd += job.solver
    return cmd


def is_reach(r):
    return r["desc"].startswith("reach: ")


def is_unwind(r):
    return ".unwind." in r["id"] or "unwinding assertion" in r["desc"] or r["id"].endswith(".recursion")


def get_trace_inputs(job, gb, unwind, prop, timeout):
    cmd = cbmc_cmd(job, gb, unwind, ["--json-ui", "--trace", "--property", prop])
    if is_unwind({"id": prop, "desc": ""}):
        # unwinding assertions are generated during symex: cannot be selected
        cmd = cbmc_cmd(job, gb, unwind, ["--json-ui", "--trace"])
    rc, out, dt = run(cmd, timeout, job.mem_gb)
    if rc == "timeout":
        return None, "trace timeout"
    try:
        data = json.loads(out)
    except Exception as e:
        return None, "trace unparsable: %s" % e
    for e in data:
        for r in e.get("result", []) if isinstance(e, dict) else []:
            if r.get("property") == prop and r.get("status") == "FAILURE":
                vals = []
                for s in r.get("trace", []):
                    if s.get("stepType") == "assignment" and s.get("lhs") == "vp_nd_log" \
                            and not s.get("hidden") and "binary" in s.get("value", {}):
                        fn = s.get("sourceLocation", {}).get("function", "")
                        if fn.startswith("vp_"):
                            vals.append(int(s["value"]["binary"], 2))
                return vals, None
    return None, "property not failing in trace run"


def native_replay(job, wd, vals, timeout=20):
    exe, err = compile_native(job, wd)
    if exe is None:
        return None, err
    inp = os.path.join(wd, "input.txt")
    with open(inp, "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    env = dict(os.environ, VP_INPUT=inp,
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
    rc, out, dt = run([exe], timeout, env=env, cwd=wd, setlimits=False)
    return rc, out


def save_replay(prop, job, wd, vals, failed, nat):
    base = os.path.join(VERIF, "replays")
    os.makedirs(base, exist_ok=True)
    d = os.path.join(base, "%s-%s" % (prop, job.name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "input.txt"), "w") as f:
        f.write("\n".join(str(v) for v in vals or []) + "\n")
    with open(os.path.join(d, "report.txt"), "w") as f:
        f.write("property %s, job %s\nharness %s, sources %s\ndefines %s\nbounds: %s\n"
                "failed CBMC assertions:\n" % (prop, job.name, job.harness,
                                               job.sources, job.defines, job.bounds))
        for r in failed:
            f.write("  [%s] %s:%s %s: %s\n" % (r["id"], r["file"], r["line"], r["func"], r["desc"]))
        f.write("\nnative execution of the real code on input.txt:\n%s\n" % (nat,))
    with open(os.path.join(d, "replay.sh"), "w") as f:
        f.write("#!/bin/sh\n# rebuild the real code natively and run the counterexample again\n"
                "exec python3 %s/tools/vp.py --replay %s \"$(dirname \"$0\")/input.txt\"\n"
                % (VERIF, job.name))
    os.chmod(os.path.join(d, "replay.sh"), 0o755)
    return d


class Outcome:
    def __init__(self, job):
        self.job = job
        self.status = "?"      # ok | violation | error | finding
        self.msg = ""
        self.stats = {}
        self.n_props = 0
        self.funcs = set()
        self.replay = None
        self.finding = None
        self.unwind = job.unwind
        self.wall = 0.0


def run_job(prop, job, known, deadline, keep=None, verbose=False):
    o = Outcome(job)
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="vp-")
    try:
        _run_job(prop, job, known, deadline, o, wd, verbose)
    except Exception as e:          # noqa: never let one job take the check down
        o.status, o.msg = "error", "driver: %r" % (e,)
    finally:
        o.wall = time.time() - t0
        if keep:
            print("kept", wd)
        else:
            shutil.rmtree(wd, ignore_errors=True)
    return o


def _run_job(prop, job, known, deadline, o, wd, verbose):
    gb, err = compile_goto(job, wd)
    if gb is None:
        o.status, o.msg = "error", err
        return
    unwind = job.unwind
    total = {}
    while True:
        left = min(job.timeout, deadline - time.time())
        if left < 5:
            o.status, o.msg = "error", "no time left"
            return
        cmd = cbmc_cmd(job, gb, unwind, ["--verbosity", "8"])
        rc, out, dt = run(cmd, left, job.mem_gb)
        res, st = parse_results(out)
        for k, v in st.items():
            total[k] = total.get(k, 0) + v if k not in ("variables", "clauses") else max(total.get(k, 0), v)
        o.stats = total
        o.unwind = unwind
        if verbose:
            print("\n".join(l for l in out.splitlines() if not l.startswith("Unwinding loop") and ": SUCCESS" not in l)[-6000:])
            print(" ".join(cmd), "rc", rc, "%.1fs" % dt)
        if rc == "timeout":
            o.status, o.msg = "error", "cbmc timeout after %.0fs (unwind %d)" % (dt, unwind)
            return
        if rc not in (0, 10) or not res:
            o.status, o.msg = "error", "cbmc rc %s: %s" % (rc, "\n".join(l for l in out.splitlines() if ": SUCCESS" not in l)[-800:])
            return
        o.n_props = len([r for r in res if not is_reach(r)])
        o.funcs = {(r["func"]) for r in res if r["file"].startswith(REPO + "/")}
        bad = [r for r in res if r["status"] != "SUCCESS" and not is_reach(r)]
        real = [r for r in bad if not is_unwind(r)]
        unw = [r for r in bad if is_unwind(r)]
        if not real and unw and unwind < job.max_unwind:
            unwind = min(job.max_unwind, unwind * 2)
            continue
        break
    reach = [r for r in res if is_reach(r)]
    if not real and not unw:
        missing = [r["desc"] for r in reach if r["status"] == "SUCCESS"
                   and not (r["desc"].startswith("reach: opt: ") and r["desc"][12:] not in job.reach)]
        if missing:
            o.status, o.msg = "error", "VACUOUS: not reachable: %s" % missing
            return
        if not reach:
            o.status, o.msg = "error", "VACUOUS: job has no reach marker"
            return
        o.status = "ok"
        return
    cand = real or unw
    # Prefer our own assertions over low-level memory ones for the report.
    cand.sort(key=lambda r: (not r["desc"].startswith("vp: "),))
    notes = []
    if job.custom_confirm:
        ok, text, vals = job.custom_confirm(job, gb, unwind, cand, wd, sys.modules[__name__])
        if ok:
            o.replay = save_replay(prop, job, wd, vals, cand, text)
            o.status, o.msg = "violation", cand[0]["desc"]
        else:
            o.status, o.msg = "error", "UNCONFIRMED %s: %s" % (cand[0]["desc"], text)
        return
    finding = None
    for c in cand[:6]:
        k = match_known(known, prop, job, c)
        if k:
            finding = k
            continue
        left = max(10, min(job.timeout, deadline - time.time()))
        vals, err = get_trace_inputs(job, gb, unwind, c["id"], left)
        if vals is None:
            notes.append("%s: %s" % (c["desc"], err))
            continue
        rc, out = native_replay(job, wd, vals)
        notes.append("%s -> native %s %s" % (c["desc"], rc, (out or "")[-700:]))
        if rc is None:
            break
        if rc not in (0, 77):
            nat = "exit %s\n%s" % (rc, out[-4000:])
            o.replay = save_replay(prop, job, wd, vals, cand, nat)
            o.status = "violation"
            o.msg = "%s (%s:%s %s) native: %s" % (c["desc"], c["file"], c["line"], c["func"],
                                                   (out.strip().splitlines() or [""])[0][:200])
            return
    else:
        if finding and not notes:
            o.status, o.finding = "finding", finding
            return
    o.status, o.msg = "error", "UNCONFIRMED counterexample: " + " | ".join(notes)


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) job=(\S+) assert=\"([^\"]*)\" (.*)", line.strip())
            if m:
                out.append({"property": m.group(1), "job": m.group(2),
                            "assert": m.group(3), "text": m.group(4)})
    return out


def match_known(known, prop, job, res):
    for k in known:
        if k["property"] == prop and re.fullmatch(k["job"], job.name) and k["assert"] in res["desc"]:
            return k
    return None


def toolver(cmd):
    try:
        return subprocess.run(cmd, capture_output=True, text=True).stdout.strip().splitlines()[0]
    except Exception:
        return "?"


def check(prop, tier):
    import spec
    t0 = time.time()
    budget = 850 if tier == "quick" else int(os.environ.get("VP_THOROUGH_BUDGET", "3300"))
    deadline = t0 + budget
    p = spec.PROPS[prop]
    jobs = list(p["quick"]) + (list(p.get("thorough", [])) if tier == "thorough" else [])
    required = {j.name for j in p["quick"]}
    known = load_known()
    jobs.sort(key=lambda j: -j.weight)
    outs = []
    with cf.ThreadPoolExecutor(JOBS_PARALLEL) as ex:
        futs = [ex.submit(run_job, prop, j, known, deadline) for j in jobs]
        for f in cf.as_completed(futs):
            o = f.result()
            outs.append(o)
            print("[%s] %-34s %-9s %6.1fs vccs=%d solver=%.1fs %s" % (
                prop, o.job.name, o.status, o.wall, o.stats.get("vccs", 0),
                o.stats.get("solver_s", 0), o.msg.replace("\n", " / ")[:1500]), flush=True)
    ok = [o for o in outs if o.status in ("ok", "finding")]
    viol = [o for o in outs if o.status == "violation"]
    errs = [o for o in outs if o.status == "error"]
    hard = [o for o in errs if o.job.name in required]
    funcs = sorted(set().union(*[o.funcs for o in outs]) if outs else [])
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "explanation":
                "Bounded symbolic execution (CBMC) of the real sources in /repo, "
                "recompiled by goto-cc on this run; every value of the symbolic "
                "inputs within the bounds below is decided by the SAT solver. "
                + p["explanation"],
            "functions_encoded": funcs,
            "sources": sorted({s for o in outs for s in o.job.sources}),
            "jobs": [{
                "name": o.job.name, "status": o.status, "bounds": o.job.bounds,
                "unwind": o.unwind, "assertions": o.n_props,
                "vccs_generated": o.stats.get("vccs", 0),
                "vccs_after_simplification": o.stats.get("vccs_remaining", 0),
                "sat_variables": o.stats.get("variables", 0),
                "sat_clauses": o.stats.get("clauses", 0),
                "solver_calls": o.stats.get("solver_calls", 0),
                "solver_s": round(o.stats.get("solver_s", 0), 2),
                "wall_s": round(o.wall, 2),
                "note": o.msg[:600]} for o in sorted(outs, key=lambda o: o.job.name)],
            "queries_discharged": sum(o.n_props for o in ok),
            "solver_s_total": round(sum(o.stats.get("solver_s", 0) for o in outs), 2),
            "outside_bounds": p.get("outside", ""),
            "undecided_jobs": [o.job.name for o in errs],
        },
        "assumptions": p.get("assumptions", []),
        "tools": {"cbmc": toolver(["cbmc", "--version"]), "gcc": toolver(["gcc", "--version"])},
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for o in outs:
        if o.status == "finding":
            print("KNOWN-FINDING: property=%s %s" % (prop, o.finding["text"]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0].replay))
        return 1
    if hard:
        print("NO-ANSWER property=%s jobs=%s" % (prop, ",".join(o.job.name for o in hard)))
        return 2
    print("HELD property=%s tier=%s jobs=%d assertions=%d wall=%.1fs" % (
        prop, tier, len(ok), sum(o.n_props for o in ok), time.time() - t0))
    return 0


def all_jobs():
    import spec
    d = {}
    for pid, p in spec.PROPS.items():
        for j in list(p["quick"]) + list(p.get("thorough", [])):
            d[j.name] = (pid, j)
    return d


def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        for t in ("cbmc", "goto-cc", "gcc", "clang", "opt"):
            if shutil.which(t) is None:
                print("missing tool: " + t)
                return 1
        return 0
    if a[0] == "--list":
        for n, (pid, j) in all_jobs().items():
            print(pid, n, j.bounds)
        return 0
    if a[0] == "--job":
        pid, j = all_jobs()[a[1]]
        o = run_job(pid, j, load_known(), time.time() + 7200, keep="-k" in a, verbose=True)
        print(o.status, o.msg, "unwind", o.unwind, "props", o.n_props, o.stats, "%.1fs" % o.wall, o.replay or "")
        return 0 if o.status == "ok" else 1
    if a[0] == "--replay":
        pid, j = all_jobs()[a[1]]
        wd = tempfile.mkdtemp(prefix="vp-")
        vals = [int(x) for x in open(a[2]).read().split()]
        rc, out = native_replay(j, wd, vals)
        shutil.rmtree(wd, ignore_errors=True)
        print(out)
        print("exit", rc)
        return 0 if rc in (0, 77) else 1
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
