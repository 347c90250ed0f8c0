#!/usr/bin/env python3
"""Obligation driver.

check <PROPERTY> [--jobs REGEX] [-v]

Rebuilds every harness against /repo's current sources (the harness #includes
the real files from a verbatim scratch copy), generates and discharges the
obligations with CBMC, replays counterexamples against the same real code
compiled natively, writes evidence/<PROPERTY>.json and exits 0 or 1.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "engine"))

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 4)
VERBOSE = "-v" in sys.argv
HARD_DEADLINE = 780 if TIER == "quick" else 3 * 3600

CONFIG = {
    "arm": '#define ARCH_PREDEFINED "__arm__"\n#define ELF_MACHINE 0x28\n#define ELF_FLAGS 0x5000200\n',
    "riscv": '#define ARCH_PREDEFINED "__riscv"\n#define ELF_MACHINE 0xf3\n#define ELF_FLAGS 0\n',
}


class Job:
    """One harness entry: a group of named obligations about functions of /repo."""

    def __init__(self, name, src, entry, arch="arm", defs=(), unwind=20, unwindset=(), checks=(),
                 functions=(), kind="proof", bound=None, timeout=240, backend="sat", cbmc=(),
                 instrument=(), dfcc=None, explore=8, tier="quick", san=False, native=True,
                 trusted=(), m32=False, shrink=None, loopc=None, note=None, native_defs=(), explore_entry=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def sh(cmd, timeout, cwd=None, mem_gb=10, env=None):
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=lim, env=env)
    try:
        out, err = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.compiled = {}
        self.native = {}

    def left(self):
        return HARD_DEADLINE - (time.time() - self.t0)

    # --- mechanical extraction -------------------------------------------
    def tree(self, arch, shrink=None):
        """Verbatim copy of /repo/src (+ the two files the makefile generates);
        'shrink' rewrites the value of #define'd capacity limits only."""
        key = (arch, shrink)
        d = os.path.join(self.dir, "tree-%s-%s" % (arch, hashlib.md5(repr(shrink).encode()).hexdigest()[:6]))
        if os.path.isdir(d):
            return d
        tmp = d + ".tmp"
        os.makedirs(tmp + "/out")
        shutil.copytree(os.path.join(REPO, "src"), tmp + "/src", symlinks=False,
                        ignore=shutil.ignore_patterns("codegen.c", "*.o"))
        shutil.copytree(os.path.join(REPO, "lib"), tmp + "/lib")
        if arch in CONFIG:
            shutil.copy(tmp + "/src/%s-codegen.c" % arch, tmp + "/src/codegen.c")
            open(tmp + "/config", "w").write(CONFIG[arch])
        # out/libc.inc is generated text that only feeds the embedded libc source
        open(tmp + "/out/libc.inc", "w").write("void libc_generate(void) {}\n")
        if shrink:
            p = tmp + "/src/defs.h"
            s = open(p).read()
            for k, v in shrink:
                s, n = re.subn(r"(?m)^(#define\s+%s\s+)\S+" % k, r"\g<1>%s" % v, s)
            open(p, "w").write(s)
        os.rename(tmp, d)
        return d

    def gb(self, job):
        key = (job.src, job.arch, tuple(job.defs), job.shrink, tuple(job.instrument), job.m32, job.loopc, job.dfcc and job.entry)
        return key

    def build_gb(self, job):
        key = self.gb(job)
        h = hashlib.md5(repr(key).encode()).hexdigest()[:10]
        out = os.path.join(self.dir, h)
        tree = self.tree(job.arch, job.shrink)
        cmd = ["goto-cc", "-w", "-DVP_CBMC", "-I", HARN, "-I", tree + "/src", "-I", tree]
        if job.m32:
            cmd += ["-m32"]
        cmd += ["-D" + d for d in job.defs]
        if job.dfcc:
            cmd += ["--function", job.entry]
        cmd += [os.path.join(HARN, job.src), "-o", out + ".gb0"]
        rc, o, e, t = sh(cmd, 120)
        if rc != 0 or not os.path.exists(out + ".gb0"):
            return None, "goto-cc: " + (o + e)[-1500:]
        gi = ["goto-instrument"] + list(job.instrument)
        if job.dfcc:
            gi += ["--dfcc", job.entry] + list(job.dfcc)
        if len(gi) > 1:
            rc, o, e, t = sh(gi + [out + ".gb0", out + ".gb"], 200)
            if rc != 0 or not os.path.exists(out + ".gb"):
                return None, "goto-instrument: " + (o + e)[-1500:]
        else:
            os.rename(out + ".gb0", out + ".gb")
        return out + ".gb", None

    def build_native(self, job, entry=None):
        entry = entry or job.entry
        key = (job.src, job.arch, tuple(job.defs), job.shrink, entry, job.san)
        if key in self.native:
            return self.native[key]
        h = "n" + hashlib.md5(repr(key).encode()).hexdigest()[:10]
        out = os.path.join(self.dir, h)
        tree = self.tree(job.arch, job.shrink)
        cmd = ["gcc", "-w", "-O1", "-g", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin",
               "-DVP_ENTRY=" + entry, "-I", HARN, "-I", tree + "/src", "-I", tree]
        if job.san:
            cmd += ["-fsanitize=address,bounds-strict", "-fno-sanitize-recover=all"]
        cmd += ["-D" + d for d in job.defs] + ["-D" + d for d in job.native_defs]
        cmd += [os.path.join(HARN, job.src), os.path.join(HARN, "vp_native.c"), "-o", out]
        rc, o, e, t = sh(cmd, 120)
        self.native[key] = out if rc == 0 else None
        if rc != 0 and VERBOSE:
            print("native build failed", job.name, e[-800:])
        return self.native[key]

    NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:exitcode=99:abort_on_error=1:detect_stack_use_after_return=0")

    def replay(self, job, vals):
        exe = self.build_native(job)
        if not exe:
            return None, "no native build"
        rc, o, e, t = sh([exe] + [str(v) for v in vals], 30, mem_gb=1 << 14 if job.san else 10, env=self.NENV)
        m = re.search(r"VP-(FAILED|OUTSIDE|SHORT|HELD)\s*(.*)", o)
        if m and m.group(1) == "FAILED":
            return True, m.group(2).strip()
        if not m and rc not in (0, "timeout"):
            return True, "crash rc=%s %s" % (rc, (e or "")[:300])
        return False, m.group(0) if m else "rc=%s" % rc

    def explore(self, job, secs):
        exe = self.build_native(job, job.explore_entry)
        if not exe or secs <= 0:
            return None
        rc, o, e, t = sh([exe, "explore", str(secs), "5", str(SEED)], secs + 30,
                         mem_gb=1 << 14 if job.san else 10, env=self.NENV)
        m = re.search(r"VP-FAILED (.*)\nVP-INPUTS(.*)", o)
        if m:
            return ("failed", m.group(1), [int(x) for x in m.group(2).split()])
        m = re.search(r"VP-EXPLORED (\d+) (\d+)", o)
        if m:
            return ("held", int(m.group(1)), int(m.group(2)))
        return None

    # --- discharge ---------------------------------------------------------
    def cbmc_cmd(self, job, gb):
        cmd = ["cbmc", gb]
        if not job.dfcc:
            cmd += ["--function", job.entry, "--drop-unused-functions"]
        cmd += ["--no-standard-checks", "--no-malloc-may-fail", "--slice-formula",
                "--unwind", str(job.unwind), "--unwinding-assertions", "--object-bits", "12"]
        if job.unwindset:
            cmd += ["--unwindset", ",".join(job.unwindset)]
        cmd += list(job.checks) + list(job.cbmc)
        if job.backend == "cvc5":
            cmd += ["--cvc5"]
        elif job.backend == "z3":
            cmd += ["--z3"]
        return cmd

    def run_job(self, job):
        r = {"job": job.name, "kind": job.kind, "functions": list(job.functions), "backend": job.backend,
             "status": "undecided", "obligations": 0, "discharged": 0, "secs": 0.0, "why": "", "failed": []}
        gb, err = self.compiled.get(self.gb(job)) or (None, "not built")
        if gb is None:
            r["why"] = err
            return self.fallback(job, r)
        cmd = self.cbmc_cmd(job, gb)
        budget = min(job.timeout if TIER == "quick" else job.timeout * 4, self.left() - 30)
        if budget < 5:
            r["why"] = "time budget of the check used up"
            return self.fallback(job, r)
        rc, o, e, t = sh(cmd + ["--json-ui"], budget)
        r["secs"] = round(t, 2)
        if rc == "timeout":
            r["why"] = "solver timeout after %ds" % budget
            return self.fallback(job, r)
        try:
            msgs = json.loads(o)
        except Exception:
            r["why"] = "no verdict from the verifier: " + (o[-300:] + e[-300:])
            return self.fallback(job, r)
        res = None
        for m in msgs:
            if isinstance(m, dict) and "result" in m:
                res = m["result"]
        if res is None:
            r["why"] = "no verdict: " + " | ".join(m.get("messageText", "") for m in msgs if isinstance(m, dict) and m.get("messageType") == "ERROR")[:600]
            return self.fallback(job, r)
        fails, unw, reach_ok, reach_bad = [], [], 0, []
        for p in res:
            d, st = p.get("description", ""), p.get("status")
            if d.startswith("VPREACH:"):
                if st == "FAILURE":
                    reach_ok += 1
                else:
                    reach_bad.append(d)
                continue
            if "no-body" in p.get("property", "") or d.startswith("no body for callee"):
                r.setdefault("external", []).append(d)
                continue
            if st == "UNKNOWN" :
                unw.append(p["property"] + " unknown")
                continue
            r["obligations"] += 1
            if st == "SUCCESS":
                r["discharged"] += 1
            elif ".unwind." in p.get("property", "") or "unwinding assertion" in d or ".recursion" in p.get("property", ""):
                unw.append(p["property"])
            elif d.startswith("VP:shape:"):
                unw.append(d + " (the code is outside the shape this proof handles)")
            else:
                fails.append(p)
        r["labels"] = sorted({p["description"][3:] for p in res if p.get("description", "").startswith("VP:")})
        if any("VP:shape:" in u for u in unw):
            r["why"] = ", ".join(unw[:3])
            return self.fallback(job, r)
        if fails:
            return self.report_failure(job, r, cmd, fails)
        if unw:
            r["why"] = "not decided: " + ", ".join(unw[:4])
            return self.fallback(job, r)
        if reach_bad or (reach_ok == 0 and not job.dfcc):
            r["why"] = "vacuous: canary not reachable " + ",".join(reach_bad)
            return self.fallback(job, r)
        if r["obligations"] == 0:
            r["why"] = "no obligations generated"
            return self.fallback(job, r)
        r["status"] = "held"
        return r

    def fallback(self, job, r):
        """Undecided by the verifier: a stated, bounded native exploration of the
        same harness; only a concrete failing input turns it into a violation."""
        r["status"] = "undecided"
        if job.native:
            secs = int(min(job.explore, max(0, self.left() - 10)))
            x = self.explore(job, secs)
            if x and x[0] == "failed":
                r["status"] = "violated"
                r["failed"] = [{"obligation": x[1], "inputs": x[2], "replayed": True,
                                "detail": "found by the bounded native exploration (%s)" % r["why"]}]
            elif x:
                r["explored"] = "%d seeded inputs (%d inside the precondition), none fails" % (x[1], x[2])
        return r

    def report_failure(self, job, r, cmd, fails):
        r["status"] = "violated"
        got = None
        fails.sort(key=lambda p: 0 if p.get("description", "").startswith("VP:") else 1)
        tried = []
        for p in fails[:4]:
            rc, o, e, t = sh(cmd + ["--json-ui", "--trace", "--property", p["property"]], max(20, min(job.timeout, self.left() - 60)))
            r["secs"] = round(r["secs"] + t, 2)
            vals, txt = [], ""
            try:
                for m in json.loads(o):
                    if isinstance(m, dict) and "result" in m:
                        for q in m["result"]:
                            if q.get("status") == "FAILURE" and "trace" in q:
                                for s in q["trace"]:
                                    if s.get("stepType") == "input" and s.get("inputID") == "vp":
                                        v = s["values"][0]
                                        b = v.get("binary")
                                        x = int(b, 2) if b else int(v["data"])
                                        if x >= 1 << 31:
                                            x -= 1 << 32
                                        vals.append(x)
            except Exception as ex:
                txt = "trace unreadable: %r" % ex
            rec = {"obligation": p.get("description"), "id": p.get("property"), "inputs": vals, "replayed": False,
                   "where": p.get("sourceLocation", {}), "detail": txt}
            if job.native and vals and not job.explore_entry:
                ok, what = self.replay(job, vals)
                rec["detail"] = what
                if ok:
                    rec["replayed"] = True
                    got = rec
            tried.append(rec)
            if got:
                break
        if not got and job.native:
            x = self.explore(job, int(min(job.explore, max(0, self.left() - 10))))
            if x and x[0] == "failed":
                got = dict(tried[0], inputs=x[2], replayed=True, detail="seeded input: " + x[1])
                tried.insert(0, got)
        r["failed"] = [got] if got else tried
        r["all_failed"] = [p.get("description") + " [" + p.get("property") + "]" for p in fails][:40]
        return r


def coq_lemmas(name, files):
    """Pure lemmas over the contracts, checked by coqc on every run."""
    def f(run):
        r = {"job": name, "kind": "proof", "functions": [], "backend": "coqc 8.16", "status": "undecided", "obligations": 0,
             "discharged": 0, "secs": 0.0, "why": "", "failed": []}
        for x in files:
            p = os.path.join(run.dir, x)
            shutil.copy(os.path.join(VERIF, "lemmas", x), p)
            n = len(re.findall(r"(?m)^Lemma ", open(p).read()))
            rc, o, e, t = sh(["coqc", "-q", x], 120, cwd=run.dir)
            r["obligations"] += n
            r["secs"] += round(t, 2)
            if rc == 0 and "Axioms" not in o:
                r["discharged"] += n
            else:
                r["why"] = (o + e)[-300:]
        if r["obligations"] and r["obligations"] == r["discharged"]:
            r["status"] = "held"
        return r
    return f


def scan_assumptions():
    """Mechanical scan of the harness sources for everything assumed."""
    out = []
    for f in sorted(os.listdir(HARN)):
        n = 0
        try:
            t = open(os.path.join(HARN, f)).read()
        except (UnicodeDecodeError, IsADirectoryError):
            continue
        n = len(re.findall(r"\bREQUIRE\(|__CPROVER_assume\(", t))
        if n:
            out.append("%s: %d assume sites (preconditions)" % (f, n))
    return out


def main():
    import obligations
    prop = sys.argv[1]
    jobs = [j for j in obligations.JOBS.get(prop, [])]
    info = obligations.INFO.get(prop, {})
    if TIER == "quick":
        jobs = [j for j in jobs if j.tier == "quick"]
    if "--jobs" in sys.argv:
        rx = re.compile(sys.argv[sys.argv.index("--jobs") + 1])
        jobs = [j for j in jobs if rx.search(j.name)]
    run = Run(prop)
    results = []
    try:
        for arch, shrink in {(j.arch, j.shrink) for j in jobs}:
            run.tree(arch, shrink)
        uniq = {}
        for j in jobs:
            uniq.setdefault(run.gb(j), j)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = {k: ex.submit(run.build_gb, j) for k, j in uniq.items()}
            for k, f in futs.items():
                run.compiled[k] = f.result()
        order = sorted(jobs, key=lambda j: -j.timeout)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = {ex.submit(run.run_job, j): j for j in order}
            for f in cf.as_completed(futs):
                try:
                    r = f.result()
                except Exception as exn:  # an engine fault never becomes an alarm
                    r = {"job": futs[f].name, "kind": futs[f].kind, "functions": [], "backend": "", "status": "undecided",
                         "obligations": 0, "discharged": 0, "secs": 0, "why": "engine: %r" % exn, "failed": []}
                results.append(r)
                if VERBOSE:
                    print("%-28s %-10s %3d/%3d %6.1fs %s %s" % (r["job"], r["status"], r["discharged"], r["obligations"], r["secs"], r["why"], r.get("explored", "")), flush=True)
                    for x in r["failed"]:
                        print("      FAILED", {k: v for k, v in x.items() if k != "where"})
        for extra in (info.get("extra", []) if "--jobs" not in sys.argv else []):
            results.append(extra(run))
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
    results.sort(key=lambda r: r["job"])
    known = load_known(prop)
    viol = []
    lines = []
    for r in results:
        if r["status"] != "violated":
            continue
        f = r["failed"][0]
        k = match_known(known, r, f)
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            r["status"] = "known-finding"
            continue
        viol.append((r, f))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for r, f in viol:
        path = os.path.join(VERIF, "evidence", "replay-%s-%s.json" % (prop, re.sub(r"\W+", "_", r["job"])))
        json.dump({"property": prop, "job": r["job"], "failed_obligation": f.get("obligation"), "result": r,
                   "how_to_replay": "VERIF_TIER=%s python3 engine/vp.py %s --jobs '^%s$' -v (inputs below are fed in order to the harness entry compiled natively with the real sources)" % (TIER, prop, re.escape(r["job"]))},
                  open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if f.get("replayed") else " no-failing-input-found"))
    write_evidence(prop, info, jobs, results, len(viol), time.time() - run.t0)
    # violations with a replayed input first
    lines.sort(key=lambda l: ("no-failing" in l, l))
    for l in dict.fromkeys(lines):
        print(l)
    nd = sum(r["discharged"] for r in results)
    no = sum(r["obligations"] for r in results)
    und = [r["job"] for r in results if r["status"] == "undecided"]
    print("%s: %d/%d obligations discharged in %d harnesses, %d undecided%s, %.0fs" % (
        prop, nd, no, len(results), len(und), (" (" + ", ".join(und[:8]) + ")") if und else "", time.time() - run.t0))
    sys.exit(1 if viol else 0)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == prop and k.get("status") == "open"]


def match_known(known, r, f):
    for k in known:
        if k.get("job") == r["job"] and k.get("obligation") == f.get("obligation"):
            return k
    return None


def write_evidence(prop, info, jobs, results, nviol, wall):
    proof = [r for r in results if r["kind"] == "proof"]
    bounded = [r for r in results if r["kind"] != "proof"]
    byj = {j.name: j for j in jobs}
    fns = sorted({f for r in proof if r["status"] == "held" for f in r["functions"]})
    level = info.get("level", "proof")
    cov = {
        "explanation": info.get("explain", ""),
        "obligations": sum(r["obligations"] for r in proof),
        "discharged": sum(r["discharged"] for r in proof),
        "checker_cmd": "cbmc 6.11.0 (SAT back end unless stated) over goto-cc of /repo/src, see engine/vp.py cbmc_cmd",
        "trusted_base": ["goto-cc/cbmc 6.11.0 and its SAT/SMT solver", "the specification text in /verif/harness (ISA semantics, spec functions)"]
        + info.get("trusted", []) + scan_assumptions(),
        "functions_under_contract": fns,
        "harnesses": [{k: r.get(k) for k in ("job", "kind", "status", "obligations", "discharged", "secs", "backend", "labels", "why", "explored", "external", "functions") if r.get(k)}
                      | ({"bound": byj[r["job"]].bound} if r["job"] in byj and byj[r["job"]].bound else {}) for r in results],
        "bounded_obligations": sum(r["obligations"] for r in bounded),
        "bounded_discharged": sum(r["discharged"] for r in bounded),
        "undecided": [r["job"] for r in results if r["status"] == "undecided"],
        "solver_seconds": round(sum(r["secs"] for r in results), 1),
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": info.get("assumptions", []) + sorted({e for r in results for e in r.get("external", [])}),
          "wall_s": round(wall, 1), "violations": nviol}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
