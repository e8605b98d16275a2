#!/usr/bin/env python3
"""Decide one property of tezc/sc with CBMC over the real sources in /repo.

usage: run.py PROPERTY quick|thorough [--only HARNESS] [--keep]
       run.py --replay FILE

For every harness of the property: goto-cc compiles /repo's current sources
with the harness, CBMC decides every obligation (library assertions, memory
safety, overflow, unwinding) for all values of the symbolic inputs within the
stated bounds, and WITNESS obligations must come back violated (vacuity guard).
A counterexample is replayed natively (gcc, ASan+UBSan) against the same
sources before it is reported.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(HERE, "lib")
HDIR = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
import spec  # noqa: E402

OK, VIOL, INCON = "ok", "violation", "inconclusive"
procs = set()
plock = threading.Lock()
stop_all = threading.Event()


def sh(cmd, timeout=None, env=None, out=None, mem_gb=12, cwd=None):
    """Run, return (rc, stdout, stderr, timed_out)."""
    if stop_all.is_set():
        return 99, "", "stopped", True

    def lim():
        import resource
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    of = open(out, "w") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=of, stderr=subprocess.PIPE, text=True,
                         errors="replace", env=env, preexec_fn=lim, cwd=cwd)
    with plock:
        procs.add(p)
    to = False
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
    with plock:
        procs.discard(p)
    if out:
        of.close()
    return p.returncode, o or "", e or "", to


def kill_all():
    stop_all.set()
    with plock:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass


class Job:
    """One harness at one tier."""

    def __init__(self, prop, h, tier, work):
        self.prop, self.h, self.tier = prop, h, tier
        self.name = h["name"]
        t = dict(h)
        t.update(h.get(tier, {}))
        defs = dict(h.get("defs", {}))
        defs.update(h.get(tier, {}).get("defs", {}))
        t["defs"] = defs
        self.t = t
        self.dir = os.path.join(work, self.name)
        os.makedirs(self.dir, exist_ok=True)
        self.res = {"harness": self.name, "what": h.get("what", ""),
                    "bounds": t.get("bounds", h.get("bounds", ""))}

    # -- command lines ----------------------------------------------------
    def srcs(self):
        return [os.path.join(REPO, s) for s in self.t.get("srcs", [])]

    def cflags(self, tool="goto-cc"):
        f = ["-std=gnu99", "-D_GNU_SOURCE", "-DSC_HAVE_CONFIG_H", "-I" + LIB,
             "-I" + HDIR]
        dirs = set(os.path.dirname(s) for s in self.srcs())
        for d in self.t.get("incs", []):
            dirs.add(os.path.join(REPO, d))
        f += ["-I" + d for d in sorted(dirs)]
        for k, v in sorted(self.t["defs"].items()):
            f.append("-D%s" % k if v is None else "-D%s=%s" % (k, v))
        return f

    def incl(self):
        """force-included stub header: only for library sources"""
        s = self.t.get("stub")
        return ["-include", os.path.join(HDIR, s)] if s else []

    def harness_c(self):
        return os.path.join(HDIR, self.h["file"])

    def build_goto(self):
        objs = []
        for s in self.srcs():
            o = os.path.join(self.dir, os.path.basename(s) + ".gb")
            rc, so, se, to = sh(["goto-cc"] + self.cflags() + ["-DCBMC"] + self.incl() +
                                self.t.get("srcflags", []) + ["-c", s, "-o", o], 120)
            if rc:
                return None, so + se
            for fn in self.t.get("replace", []):
                rc, so, se, to = sh(["goto-instrument", "--remove-function-body", fn, o, o], 120)
                if rc:
                    return None, so + se
            objs.append(o)
        for s in [self.harness_c(), os.path.join(LIB, "verif.c"),
                  os.path.join(LIB, "libc_extra.c")]:
            o = os.path.join(self.dir, os.path.basename(s) + ".h.gb")
            rc, so, se, to = sh(["goto-cc"] + self.cflags() + ["-DCBMC", "-c", s, "-o", o], 120)
            if rc:
                return None, so + se
            objs.append(o)
        out = os.path.join(self.dir, "h.gb")
        rc, so, se, to = sh(["goto-cc"] + objs + ["--function", self.h["entry"], "-o", out], 120)
        if rc:
            return None, so + se
        return out, ""

    def native_variants(self):
        yield "gcc-san", ["gcc", "-O1", "-g", "-fsanitize=address,undefined",
                          "-fno-sanitize-recover=all", "-fno-builtin",
                          "-fno-omit-frame-pointer", "-fwrapv-pointer" if False else "-g"], {}
        yield "gcc-plain-zero", ["gcc", "-O0", "-g", "-ftrivial-auto-var-init=zero"], {"V_FILL": "0"}
        yield "gcc-plain-ff", ["gcc", "-O0", "-g", "-ftrivial-auto-var-init=pattern"], {"V_FILL": "255"}
        yield "gcc-plain-aa", ["gcc", "-O2", "-g"], {"V_FILL": "170"}

    def build_native(self, variant, cc):
        exe = os.path.join(self.dir, "native-" + variant)
        if os.path.exists(exe):
            return exe, ""
        objs = []
        for i, s in enumerate(self.srcs()):
            o = os.path.join(self.dir, "n%d-%s.o" % (i, variant))
            rep = self.t.get("replace", [])
            rc, so, se, to = sh(cc + ["-w"] + self.cflags() + self.incl() +
                                self.t.get("srcflags", []) + (["-fPIC", "-fno-inline", "-fno-ipa-cp", "-fno-ipa-sra"] if rep else []) +
                                ["-c", s, "-o", o], 120, mem_gb=0)
            if rc:
                return None, so + se
            for fn in rep:
                rc, so, se, to = sh(["objcopy", "--weaken-symbol=" + fn, o], 60, mem_gb=0)
                if rc:
                    return None, so + se
            objs.append(o)
        rc, so, se, to = sh(cc + ["-w"] + self.cflags() + ["-DENTRY=" + self.h["entry"]] +
                            [self.harness_c(), os.path.join(LIB, "verif.c")] + objs +
                            ["-lpthread", "-o", exe], 120, mem_gb=0)
        if rc:
            return None, so + se
        return exe, ""

    def run_native(self, values, want=None, variants=None):
        """Replay. Returns (kind, text); kind: failed / clean / assume / error"""
        last = ("error", "no native build")
        inp = os.path.join(self.dir, "input-%d-%d.txt" % (threading.get_ident(), time.time_ns()))
        with open(inp, "w") as f:
            f.write("\n".join(str(v) for v in values) + "\n")
        for vname, cc, env in self.native_variants():
            if variants and vname not in variants:
                continue
            exe, err = self.build_native(vname, cc)
            if not exe:
                last = ("error", "native build failed: " + err[-2000:])
                continue
            e = dict(os.environ)
            e.update(env)
            e["V_INPUT"] = inp
            e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=103:"
                                 "allocator_may_return_null=1:detect_stack_use_after_return=1")
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=104:halt_on_error=1"
            rc, so, se, to = sh([exe], 20, env=e, mem_gb=0, cwd=self.dir)
            txt = "[%s] rc=%s%s\n%s\n%s" % (vname, rc, " TIMEOUT" if to else "", so[-3000:], se[-6000:])
            if to and not stop_all.is_set():
                return "failed", txt + "\nthe call does not return (20 s)"
            if rc == 101 or rc in (103, 104) or rc < 0:
                return "failed", txt
            if rc == 102:
                if last[0] != "clean":
                    last = ("assume", txt)
                continue
            if rc == 0:
                last = ("clean", txt)
                if want and want in se:
                    return "clean", txt
            else:
                last = ("error", txt)
        return last

    # -- solving ----------------------------------------------------------
    def cbmc(self, gb, unwind, extra_flags=(), solver=None, tag=""):
        out = os.path.join(self.dir, "out%s.json" % tag)
        cov = os.path.join(self.dir, "cov%s.xml" % tag)
        cmd = ["cbmc", gb, "--json-ui", "--trace", "--unwinding-assertions",
               "--drop-unused-functions", "--no-malloc-may-fail",
               "--object-bits", str(self.t.get("object_bits", 10)),
               "--verbosity", "8", "--unwind", str(unwind), "--symex-coverage-report", cov]
        for l in self.harness_loops(gb):
            cmd += ["--unwindset", "%s:%d" % (l, self.t.get("hunwind", 130) * unwind // self.t["unwind"])]
        for l, n in self.closure_loops(gb):
            cmd += ["--unwindset", "%s:%d" % (l, n)]
        cmd += self.t.get("flags", [])
        for l in self.t.get("unwindset", []):
            cmd += ["--unwindset", l]
        if solver in ("z3", "cvc5", "bitwuzla"):
            cmd += ["--" + solver]
        elif solver:
            cmd += ["--sat-solver", solver]
        cmd += list(extra_flags)
        t0 = time.time()
        rc, so, se, to = sh(cmd, self.t.get("timeout", 400), out=out,
                            mem_gb=self.t.get("mem_gb", 14))
        return {"rc": rc, "err": se, "to": to, "out": out, "cov": cov,
                "wall": time.time() - t0, "cmd": cmd}

    def harness_loops(self, gb):
        """loops of the harness itself (not of the code under test)"""
        if not hasattr(self, "_loops"):
            rc, so, se, to = sh(["cbmc", gb, "--show-loops", "--json-ui"], 60)
            self._loops = []
            for m in json.loads(so):
                for l in m.get("loops", []):
                    if l.get("sourceLocation", {}).get("file", "").startswith(HERE):
                        self._loops.append(l["name"])
        return self._loops

    def closure_loops(self, gb):
        """funwind: a bound for all loops a public function can reach"""
        want = self.t.get("funwind")
        if not want:
            return []
        if not hasattr(self, "_closure"):
            rc, so, se, to = sh(["goto-instrument", "--call-graph", gb], 60)
            edges = re.findall(r"^(\S+) -> (\S+)", so, re.M)
            rc, so, se, to = sh(["cbmc", gb, "--show-loops", "--json-ui"], 60)
            loops = [l["name"] for m in json.loads(so) for l in m.get("loops", [])]
            self._closure = []
            for f, n in want.items():
                fs = {f}
                while True:
                    more = {b for a, b in edges if a in fs} - fs
                    if not more:
                        break
                    fs |= more
                self._closure += [(l, n) for l in loops if l.rsplit(".", 1)[0] in fs]
        return self._closure

    def parse(self, r):
        if r["to"]:
            return None, "solver budget of %d s exceeded" % self.t.get("timeout", 400)
        try:
            with open(r["out"]) as f:
                msgs = json.load(f)
        except Exception as e:
            return None, "cbmc output unreadable rc=%s: %s %s" % (r["rc"], e, r["err"][-1500:])
        res = None
        text = []
        for m in msgs:
            if "result" in m:
                res = m["result"]
            if "messageText" in m:
                text.append((m.get("messageType", ""), m["messageText"]))
        if res is None:
            return None, "no result from cbmc rc=%s: %s" % (
                r["rc"], "\n".join(t for k, t in text if k in ("ERROR", "WARNING") and "provided with unwindset" not in t)[-1500:] or
                "\n".join(t for k, t in text[-5:]))
        return {"result": res, "text": text}, ""

    @staticmethod
    def values(trace):
        vals = []
        for st in trace or []:
            if st.get("stepType") == "input" and st.get("inputID") == "nd":
                v = st["values"][0]
                if "binary" in v:
                    vals.append(int(v["binary"], 2))
                else:
                    vals.append(int(re.sub(r"[^0-9-]", "", str(v.get("data", "0"))) or "0") & (2**64 - 1))
        return vals

    def run(self):
        t0 = time.time()
        try:
            st = self._run()
        except Exception as e:  # an internal error is never a verdict
            import traceback
            st = INCON
            self.res["reason"] = "internal error: %s\n%s" % (e, traceback.format_exc())
        self.res["status"] = st
        self.res["wall_s"] = round(time.time() - t0, 2)
        if st == VIOL and not os.environ.get('VERIF_NOSTOP'):
            kill_all_except_current()
        return self

    def _run(self):
        gb, err = self.build_goto()
        if not gb:
            self.res["reason"] = "goto-cc failed: " + err[-3000:]
            return INCON
        unwind = self.t["unwind"]
        for attempt in range(3):
            r = self.cbmc(gb, unwind, tag=str(attempt), solver=self.t.get("solver", "cadical"))
            p, why = self.parse(r)
            if p is None:
                self.res["reason"] = why
                return INCON
            st, retry = self.judge(p, r, unwind)
            if not retry:
                return st
            unwind = unwind * 2
        self.res["reason"] = "unwinding bound exceeded (tried up to %d)" % unwind
        return INCON

    def judge(self, p, r, unwind):
        res, text = p["result"], p["text"]
        nobody = sorted(set(re.sub(r".*no body for (callee|function) ", "", t) for k, t in text
                            if "no body for" in t))
        allowed = set(self.t.get("nobody", []))
        nobody = [n for n in nobody if n not in allowed]
        skip = tuple("WITNESS " + w for w in self.t.get("nowit", []))
        wit = [x for x in res if x["description"].startswith("WITNESS") and x["description"] not in skip]
        other = [x for x in res if not x["description"].startswith("WITNESS")]
        bad = [x for x in other if x["status"] == "FAILURE"]
        unk = [x for x in other if x["status"] not in ("FAILURE", "SUCCESS")]
        solve = 0.0
        steps = vcc = 0
        for k, t in text:
            m = re.search(r"Runtime Solver: ([0-9.e+-]+)s", t)
            if m:
                solve += float(m.group(1))
            m = re.search(r"size of program expression: (\d+) steps", t)
            if m:
                steps = int(m.group(1))
            m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
            if m:
                vcc = int(m.group(2))
        queries = sum(1 for k, t in text if re.search(r"Runtime Solver", t))
        fn, lines = self.coverage(r["cov"])
        self.res.update({
            "unwind": unwind, "obligations": len(other),
            "discharged": sum(1 for x in other if x["status"] == "SUCCESS"),
            "property_assertions": sum(1 for x in other if x["description"].startswith("CHECK")),
            "solver_s": round(solve, 2), "sat_calls": queries, "ssa_steps": steps,
            "vccs_sent_to_solver": vcc, "functions_encoded": fn,
            "repo_lines_encoded": lines, "cbmc_cmd": re.sub(r"--unwindset (h_|v_|vt_)\S+ ?", "", " ".join(r["cmd"][2:]))[:600],
            "witnesses": [], "no_body": nobody})
        if bad:
            st, retry = self.triage(bad)
            if st == VIOL:
                return VIOL, False
            if retry:
                return INCON, True
            return INCON, False
        if unk:
            self.res["reason"] = "undecided obligations: " + ", ".join(x["property"] for x in unk[:5])
            return INCON, False
        if nobody:
            self.res["reason"] = "functions without a model: " + ", ".join(nobody)
            return INCON, False
        # vacuity and encoding validation
        if not wit:
            self.res["reason"] = "harness has no reachability witness"
            return INCON, False
        miss = [x["description"] for x in wit if x["status"] != "FAILURE"]
        if miss:
            self.res["reason"] = "vacuous: witness not reachable: " + "; ".join(miss)
            return INCON, False
        validated = 0
        samples = []
        for x in wit:
            vals = self.values(x.get("trace"))
            kind, txt = self.run_native(vals, want=x["description"], variants=["gcc-san"])
            good = kind == "clean" and ("REACHED " + x["description"]) in txt
            if kind == "failed":
                # the solver says this run satisfies everything, the machine disagrees
                self.res["reason"] = "witness run fails natively: " + txt[-1500:]
                self.save_replay(x, vals, txt)
                return INCON, False
            validated += 1 if good else 0
            self.res["witnesses"].append({"goal": x["description"], "native_replay_agrees": good})
            if not good:
                self.res.setdefault("witness_mismatch", []).append(txt[-600:])
            samples.append({"harness": self.name, "goal": x["description"][8:],
                            "inputs": vals[:40]})
        self.res["validated"] = validated
        self.res["samples"] = samples
        return OK, False

    def triage(self, bad):
        """Replay counterexamples; decide violation / retry / inconclusive."""
        def prio(x):
            d = x["description"]
            if d.startswith("CHECK"):
                return 0
            if ".unwind." in x["property"] or "unwinding" in d or "recursion" in x["property"]:
                return 2
            return 1
        bad = sorted(bad, key=prio)
        only_unwind = all(prio(x) == 2 for x in bad)
        notes = []
        for x in bad[:12]:
            vals = self.values(x.get("trace"))
            kind, txt = self.run_native(vals)
            if kind == "failed":
                self.save_replay(x, vals, txt)
                self.res["reason"] = x["description"]
                self.res["native"] = txt[-3000:]
                return VIOL, False
            notes.append("%s: native replay: %s %s" % (x["description"], kind, txt[-500:]))
            if only_unwind:
                break
        if only_unwind:
            return INCON, True
        # memory-safety class: no sanitizer confirms e.g. intra-object overruns
        for x in bad:
            cls = x["property"].rsplit(".", 2)[-2] if x["property"].count(".") >= 2 else ""
            if "V_CLAMP" in self.t["defs"]:
                break
            if prio(x) == 1 and cls in ("pointer_dereference", "array_bounds", "precondition_instance",
                                        "bounds"):
                if "invalid" in x["description"] and not self.t.get("report_invalid", True):
                    continue
                if x.get("sourceLocation", {}).get("file", "").startswith(HERE):
                    continue
                vals = self.values(x.get("trace"))
                self.save_replay(x, vals, "not reproduced by the sanitizers; solver-only: \n" + "\n".join(notes)[-3000:])
                self.res["reason"] = x["description"] + " (memory safety, solver verdict; sanitizers do not observe it)"
                return VIOL, False
        self.res["reason"] = "counterexample did not reproduce: " + "\n".join(notes)[-4000:]
        return INCON, False

    def save_replay(self, x, vals, txt):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, self.name))
        calls = []
        for st in x.get("trace") or []:
            if st.get("stepType") == "assignment" and not st.get("hidden") and \
               st.get("sourceLocation", {}).get("file", "").startswith(REPO):
                v = st.get("value", {})
                if "data" in v:
                    calls.append("%s:%s %s=%s" % (os.path.basename(st["sourceLocation"]["file"]),
                                                  st["sourceLocation"].get("line"),
                                                  st.get("lhs"), v["data"]))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "harness": self.name,
                       "entry": self.h["entry"], "obligation": x["property"],
                       "failed": x["description"],
                       "location": x.get("sourceLocation", {}), "inputs": vals,
                       "library_assignments_tail": calls[-60:], "native": txt}, f, indent=1)
        self.res["replay"] = path

    def coverage(self, cov):
        fns, n = [], 0
        try:
            root = ET.parse(cov).getroot()
        except Exception:
            return fns, n
        for c in root.iter("class"):
            fn = c.get("filename", "")
            if not fn.startswith(REPO):
                continue
            for m in c.iter("method"):
                hit = sum(1 for l in m.iter("line") if int(l.get("hits", "0")) > 0)
                tot = sum(1 for l in m.iter("line"))
                if hit:
                    fns.append("%s:%s %d/%d lines" % (os.path.basename(fn), m.get("name"), hit, tot))
                    n += hit
        return sorted(fns), n


def kill_all_except_current():
    stop_all.set()
    kill_all()


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) harness=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def replay(path):
    j = json.load(open(path))
    p = spec.PROPS[j["property"]]
    h = [x for x in p["harnesses"] if x["name"] == j["harness"]][0]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        job = Job(j["property"], h, j.get("tier", "quick"), work)
        kind, txt = job.run_native(j["inputs"])
        print(txt)
        print("replay:", kind)
        return 1 if kind == "failed" else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    keep = "--keep" in sys.argv
    verbose = "-v" in sys.argv
    P = spec.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    results = []
    try:
        jobs = []
        for h in P["harnesses"]:
            if only and not re.fullmatch(only, h["name"]):
                continue
            if h.get("tier") == "thorough" and tier != "thorough" and not only:
                continue
            jobs.append(Job(prop, h, tier, work))
        # longest first
        jobs.sort(key=lambda j: -j.t.get("cost", 10))
        with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            results = list(ex.map(lambda j: j.run(), jobs))
        # jobs that ran out of memory beside others get a second chance alone
        for i, j in enumerate(results):
            if (j.res["status"] == INCON and time.time() - t0 < 450 and not any(x.res["status"] == VIOL for x in results)
                    and re.search("memory|unreadable|undecided|no result", j.res.get("reason", ""))):
                k = Job(prop, j.h, tier, os.path.join(work, "again"))
                results[i] = k.run()
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    wall = time.time() - t0
    viol = [j for j in results if j.res["status"] == VIOL]
    inc = [j for j in results if j.res["status"] == INCON]
    for j in results:
        r = j.res
        print("%-26s %-12s obligations=%s discharged=%s solver=%ss wall=%ss %s" % (
            j.name, r["status"], r.get("obligations", "-"), r.get("discharged", "-"),
            r.get("solver_s", "-"), r.get("wall_s"), "" if r["status"] == OK else r.get("reason", "")[-2500 if verbose else -700:]))
        if r.get("witness_mismatch"):
            print("   note: witness replay mismatch:", r["witness_mismatch"][0][-400:])
    if not only:
        write_evidence(prop, P, tier, seed, results, wall, viol)
    for hname, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if viol:
        for j in viol:
            print("VIOLATION property=%s replay=%s" % (prop, j.res.get("replay", "none")))
        return 1
    if inc:
        print("INCONCLUSIVE: " + ", ".join(j.name for j in inc))
        return 2
    return 0


def write_evidence(prop, P, tier, seed, results, wall, viol):
    R = [j.res for j in results]
    fns = sorted(set(f for r in R for f in r.get("functions_encoded", [])))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "other"),
        "coverage": {
            "explanation": "Bounded model checking with CBMC 6.11 of the current /repo sources: each "
                           "harness is decided by SAT for all values of its symbolic inputs within the "
                           "bounds given per harness; loops are fully unwound (unwinding assertions are "
                           "among the obligations). Witness goals are reachability checks replayed "
                           "natively under ASan/UBSan.",
            "harnesses": len(R),
            "obligations": sum(r.get("obligations", 0) for r in R),
            "discharged": sum(r.get("discharged", 0) for r in R),
            "property_assertions": sum(r.get("property_assertions", 0) for r in R),
            "sat_calls": sum(r.get("sat_calls", 0) for r in R),
            "solver_s": round(sum(r.get("solver_s", 0) for r in R), 2),
            "ssa_steps": sum(r.get("ssa_steps", 0) for r in R),
            "vccs_sent_to_solver": sum(r.get("vccs_sent_to_solver", 0) for r in R),
            "traces_validated_against_impl": sum(r.get("validated", 0) for r in R),
            "functions_encoded": fns,
            "per_harness": [{k: r.get(k) for k in
                             ("harness", "what", "bounds", "status", "reason", "unwind", "obligations",
                              "discharged", "property_assertions", "solver_s", "sat_calls", "ssa_steps",
                              "repo_lines_encoded", "witnesses", "wall_s", "cbmc_cmd") if r.get(k) is not None}
                            for r in R],
            "samples": [s for r in R for s in r.get("samples", [])][:12],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: (kill_all(), sys.exit(3)))
    sys.exit(main())
