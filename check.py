#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--keep]

Decides one property: compiles /repo's current sources and the property's
harness to LLVM bitcode, executes the harness entry points symbolically (Z3
decides every branch, safety condition and assertion), replays counterexamples
and witnesses on a native build of the same sources, and writes
evidence/<property>.json.  Exit 0 / 1 only.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

CLANG = ["clang++-18", "-w", "-std=c++20", "-O1", "-gline-tables-only", "-DNDEBUG", "-DVF_ENGINE", "-fno-vectorize",
         "-fno-slp-vectorize", "-fno-pic", "-fno-pie", "-fno-unroll-loops", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
         "-I" + HERE + "/shim"]
NPROC = os.cpu_count() or 4


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_many(jobs):
    """jobs: list of (cmd, desc); returns list of error strings"""
    errs = []
    def one(j):
        r = run(j[0])
        if r.returncode:
            return "%s: %s" % (j[1], r.stderr.decode(errors="replace")[-2000:])
    with ThreadPoolExecutor(NPROC) as ex:
        for e in ex.map(one, jobs):
            if e:
                errs.append(e)
    return errs


class Check:
    def __init__(self, pid, tier, repo, jobs):
        self.pid, self.tier, self.repo, self.jobs = pid, tier, repo, jobs
        self.p = PROPS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir="/tmp")
        self.notes = []
        self.native_bins = {}

    # ---- builds
    def engine(self):
        src = sorted(glob.glob(HERE + "/engine/*"))
        h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
        out = "%s/build/vfengine-%s" % (HERE, h)
        os.makedirs(HERE + "/build", exist_ok=True)
        if not os.path.exists(out):
            tmpo = out + ".%d" % os.getpid()
            r = run(["bash", HERE + "/engine/build.sh", tmpo])
            if r.returncode:
                raise RuntimeError("engine build failed: " + r.stderr.decode()[-2000:])
            os.replace(tmpo, out)
        return out

    def sources(self):
        return sorted(glob.glob(self.repo + "/src/*.cpp"))

    def harness(self):
        return HERE + "/harness/" + self.p.get("harness", self.pid + ".cpp")

    def bitcode(self):
        inc = ["-I" + HERE + "/harness", "-I" + self.repo + "/include"]
        jobs, outs = [], []
        for f in self.sources() + [HERE + "/runtime/rt_sym.cpp", HERE + "/runtime/rt_libc.cpp", self.harness()]:
            o = "%s/%s.bc" % (self.tmp, os.path.basename(f)[:-4] + ("_h" if f == self.harness() else ""))
            jobs.append((CLANG + self.p.get("cflags", []) + inc + ["-emit-llvm", "-c", f, "-o", o], f))
            outs.append(o)
        errs = compile_many(jobs)
        if errs:
            raise RuntimeError("; ".join(errs)[:4000])
        allbc = self.tmp + "/all.bc"
        r = run(["llvm-link-18"] + outs + ["-o", allbc])
        if r.returncode:
            raise RuntimeError("link: " + r.stderr.decode()[-2000:])
        r = run(["llvm-nm-18", "--defined-only", "--format=just-symbols", outs[-1]])
        names = r.stdout.decode().split()
        ent = [n for n in names if n.startswith("h_")]
        if self.tier == "thorough":
            ent += [n for n in names if n.startswith("t_")]
        return allbc, sorted(ent)

    def native(self, kind):
        """plain | asan | pattern | zero: native builds of the same sources + harness"""
        if kind in self.native_bins:
            return self.native_bins[kind]
        fl = {"plain": ["-O2", "-g"], "asan": ["-O1", "-g", "-fsanitize=address,bounds", "-fno-omit-frame-pointer"],
              "pattern": ["-O1", "-g", "-ftrivial-auto-var-init=pattern"], "zero": ["-O1", "-g", "-ftrivial-auto-var-init=zero"]}[kind]
        inc = ["-I" + HERE + "/harness", "-I" + self.repo + "/include"]
        d = self.tmp + "/n_" + kind
        os.makedirs(d, exist_ok=True)
        jobs, outs = [], []
        for f in self.sources() + [HERE + "/runtime/rt_native.cpp", self.harness()]:
            o = "%s/%s.o" % (d, os.path.basename(f)[:-4] + ("_h" if f == self.harness() else ""))
            jobs.append((["g++", "-w", "-std=c++20", "-DNDEBUG"] + fl + inc + ["-c", f, "-o", o], f))
            outs.append(o)
        errs = compile_many(jobs)
        exe = d + "/run"
        if not errs:
            r = run(["g++"] + fl + outs + ["-rdynamic", "-ldl", "-o", exe])
            if r.returncode:
                errs = [r.stderr.decode()[-1000:]]
        if errs:
            self.notes.append("native build failed: " + errs[0][:500])
            exe = None
        self.native_bins[kind] = exe
        return exe

    def exec_native(self, kind, entry, model, env=None, timeout=60):
        exe = self.native(kind)
        if not exe:
            return None, ""
        d = tempfile.mkdtemp(dir=self.tmp)
        with open(d + "/assign", "w") as f:
            for k, v in model.items():
                if v:
                    f.write("%s %s\n" % (k, v))
        e = dict(os.environ, VF_ASSIGN=d + "/assign", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1000000:malloc_fill_byte=170", **(env or {}))
        os.makedirs(d + "/w")
        cmd = ["bash", "-c", 'ulimit -t 60; %s exec "$0" "$@"' % ("" if kind == "asan" else "ulimit -v 8000000;"), exe, entry]
        try:
            r = run(cmd, cwd=d + "/w", env=e, timeout=timeout)
            rc, out = r.returncode, r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, out = -99, "timeout"
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    def reproduce(self, v):
        """replay a solver model on the native build; returns description or None"""
        tries = [("plain", {})]
        if v["kind"] in ("memory", "arith", "abort", "resource"):
            tries = [("asan", {}), ("plain", {})]
        if v["uninit"]:
            tries += [("plain", {"MALLOC_PERTURB_": str(x)}) for x in (85, 255, 1)]
            tries += [("pattern", {"MALLOC_PERTURB_": "170"}), ("zero", {}), ("asan", {})]
        elif v["kind"] in ("check", "exception"):
            tries += [("asan", {})]
        for kind, env in tries:
            rc, out = self.exec_native(kind, v["entry"], v["model"], env)
            if rc is None or rc in (0, 3, 5):
                continue
            line = next((l for l in out.splitlines() if "FAILED" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l or l == "timeout"), "")
            if v["kind"] == "resource" and rc not in (-99, 137, -9, 152, -24) and "bad_alloc" not in out and "AddressSanitizer" not in out:
                if not line:
                    continue
            return "%s%s exit %s: %s" % (kind, " " + str(env) if env else "", rc, line.strip()[:300])
        return None

    # ---- main
    def go(self):
        p = self.p
        budget = p.get("time", {}).get(self.tier, 240 if self.tier == "quick" else 780)
        res = dict(viol=[], reach=[], incomplete=[], stat=[], fns=[], crash=0)
        encoded = True
        try:
            eng = self.engine()
            bc, entries = self.bitcode()
            out = self.tmp + "/out.jsonl"
            cmd = [eng, bc, "--out", out, "--jobs", str(self.jobs), "--time", str(budget), "--rlimit", str(p.get("rlimit", 400000000)),
                   "--max-inst", str(p.get("max_inst", 60000000)), "--conc-limit", str(p.get("conc_limit", 4096))]
            for e in entries:
                cmd += ["--entry", e]
            try:
                r = run(cmd, timeout=budget + 60)
                if r.returncode:
                    raise RuntimeError("engine exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-500:]))
                slow = [l for l in r.stderr.decode(errors="replace").splitlines() if "slow query" in l]
                if slow:
                    self.notes.append("%d queries over 5 s" % len(slow))
            except subprocess.TimeoutExpired:
                res["incomplete"].append(dict(entry="*", why="engine did not stop within its budget"))
            for l in open(out, errors="replace"):
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                t = j.pop("t")
                if t == "fns":
                    res["fns"] = j["list"]; res["fn_total"] = j["total"]
                elif t == "crash":
                    res["incomplete"].append(dict(entry="*", why="%d explorer process(es) ended abnormally" % j["n"]))
                elif t in res:
                    res[t].append(j)
        except RuntimeError as ex:
            encoded = False
            entries = []
            self.notes.append("NOT ENCODED: " + str(ex))
            print("note: property=%s could not be encoded from the current tree: %s" % (self.pid, str(ex)[:600]))
        return self.report(res, entries, encoded)

    def report(self, res, entries, encoded):
        pid = self.pid
        known = []
        try:
            known = [k for k in json.load(open(HERE + "/known_findings.json"))["findings"] if k["property"] == pid]
        except FileNotFoundError:
            pass
        seen_known, violations, spurious = {}, [], []
        done = set()
        rdir = HERE + "/evidence/replay"
        nrep = 0
        t_rep = time.time()
        for v in sorted(res["viol"], key=lambda v: (v["entry"], v["kind"], v["msg"])):
            kf = next((k for k in known if re.fullmatch(k["entry"], v["entry"]) and k["kind"] == v["kind"] and re.search(k["match"], v["msg"] + " @ " + v["loc"] + " < " + v.get("trace", ""))), None)
            key = (v["entry"], v["kind"], v["msg"] if v["kind"] == "check" else v["loc"])
            if key in done or (kf and kf["id"] in seen_known):
                continue
            if len(violations) >= 5 or time.time() - t_rep > 200:
                continue
            rep = self.reproduce(v)
            nrep += 1
            if not rep:
                spurious.append(dict(entry=v["entry"], kind=v["kind"], msg=v["msg"], loc=v["loc"], uninit=v["uninit"]))
                continue
            done.add(key)
            if kf:
                seen_known[kf["id"]] = kf
                continue
            os.makedirs(rdir, exist_ok=True)
            path = "%s/%s-%d.json" % (rdir, pid, len(violations) + 1)
            json.dump(dict(property=pid, entry=v["entry"], kind=v["kind"], msg=v["msg"], loc=v["loc"], trace=v.get("trace"), reproduced=rep, model=v["model"]), open(path, "w"), indent=1)
            violations.append((path, v, rep))
        # witnesses: the encoding's reachable ends, replayed on the native build
        wit_ok, wit_bad, wit_n = 0, [], 0
        lim = self.p.get("witnesses", 24)
        if res["reach"] and not violations:
            ws = sorted(res["reach"], key=lambda w: (w["entry"], w["label"]))
            step = max(1, len(ws) // lim)
            ws = ws[::step][:lim]
            self.native("plain")
            with ThreadPoolExecutor(NPROC) as ex:
                for w, (rc, out) in zip(ws, ex.map(lambda w: self.exec_native("plain", w["entry"], w["model"], {"VF_REACH": "1"}), ws)):
                    if rc is None:
                        continue
                    wit_n += 1
                    ok = ("REACH " + w["label"]) in out
                    if ok:
                        wit_ok += 1
                    else:
                        wit_bad.append(dict(entry=w["entry"], label=w["label"], rc=rc, out=out[-300:], model=w["model"]))
        for w in wit_bad:
            m = re.search(r"FAILED (.*)", w["out"])
            kf = next((k for k in known if re.fullmatch(k["entry"], w["entry"]) and m and re.search(k["match"], m.group(1))), None)
            if kf:
                continue
            if w["rc"] in (1, 4) and m and not any(v["msg"] in m.group(1) and v["entry"] == w["entry"] for _, v, _ in violations):
                # the real code fails a check on a solver-produced input
                os.makedirs(rdir, exist_ok=True)
                path = "%s/%s-w%d.json" % (rdir, pid, len(violations) + 1)
                v = dict(property=pid, entry=w["entry"], kind="check", msg=m.group(1), loc="", reproduced="plain", model=w["model"])
                json.dump(v, open(path, "w"), indent=1)
                violations.append((path, v, "plain exit %d" % w["rc"]))
        S = lambda k: sum(s[k] for s in res["stat"])
        reached = {r["entry"] for r in res["reach"]}
        vac = [e for e in entries if e not in reached]
        fns = []
        for f in res["fns"]:
            f = re.sub(r"\(.*", "", f)
            f = re.sub(r"\[abi:cxx11\]", "", f)
            if f.startswith("sedaman::") or re.match(r"^[\w:<> ]+ sedaman::", f):
                fns.append(f)
        fns = sorted(set(fns))
        inc = [dict(entry=i["entry"], why=i["why"], loc=i.get("loc", "")) for i in res["incomplete"]]
        samples = [dict(entry=r["entry"], reached=r["label"], inputs={k: v[:64] for k, v in list(r["model"].items())[:12]}) for r in res["reach"][:4]]
        cov = dict(
            states=S("paths"), transitions=S("forks") + S("queries"), traces_validated_against_impl=wit_ok, samples=samples or ["none"],
            harness_entries=len(entries), paths_explored=S("paths"), infeasible_paths=S("infeasible"),
            assertions_evaluated=S("checks"), assertions_decided_by_solver=S("checks_solver"), assertions_concrete_on_path=S("checks_concrete"),
            queries=S("queries"), queries_sat=S("sat"), queries_unsat=S("unsat"), queries_unknown=S("unknown"), solver_time_s=round(S("solver_s"), 3),
            instructions=S("insts"), symbolic_input_bytes=S("symbytes"), case_split_values=S("enumerated"),
            functions_encoded=fns, functions_encoded_total=res.get("fn_total", 0), bounds=self.p["bounds"].get(self.tier, self.p["bounds"]["quick"]) if isinstance(self.p["bounds"], dict) else self.p["bounds"],
            outside_the_bounds=self.p.get("outside", ""), incomplete=inc, entries_without_reachability_witness=vac,
            witnesses_replayed=wit_n, witness_mismatches=[dict(entry=w["entry"], label=w["label"], rc=w["rc"], out=w["out"]) for w in wit_bad], counterexamples_replayed=nrep, counterexamples_not_reproduced=spurious,
            known_findings=[k["id"] for k in seen_known.values()], notes=self.notes,
            exhaustive=bool(encoded and not inc and not vac and not spurious),
        )
        ev = dict(property=pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov, assumptions=self.p.get("assumptions", []) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - self.t0, 2), violations=len(violations))
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (HERE, pid), "w") as f:
            json.dump(ev, f, indent=1)
        for k in seen_known.values():
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        for path, v, rep in violations:
            print("  %s: %s [%s] %s" % (v["entry"], v["msg"], v["loc"], rep))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        print("property=%s tier=%s entries=%d paths=%d checks=%d queries=%d solver=%.1fs incomplete=%d vacuous=%d spurious=%d witnesses=%d/%d known=%d violations=%d wall=%.1fs"
              % (pid, self.tier, len(entries), cov["states"], cov["assertions_evaluated"], cov["queries"], cov["solver_time_s"], len(inc), len(vac), len(spurious), wit_ok, wit_n, len(seen_known), len(violations), ev["wall_s"]))
        if os.environ.get("VF_VERBOSE"):
            for i in inc: print("   incomplete:", i)
            for i in vac: print("   no witness:", i)
            for i in spurious: print("   not reproduced:", i)
            for i in wit_bad: print("   witness mismatch:", {k: i[k] for k in ("entry", "label", "rc", "out")})
            for s in sorted(res["stat"], key=lambda s: -s["solver_s"])[:6]: print("   ", s["entry"], "paths", s["paths"], "solver", s["solver_s"], "q", s["queries"], "insts", s["insts"])
        return 1 if violations else 0


COMMON_ASSUMPTIONS = [
    "the bitcode clang 18 -O1 makes of /repo's sources stands for the g++ build (witness and counterexample models are replayed on a g++ build)",
    "std::fstream/std::ostringstream are the in-memory models of /verif/shim; no disk-full or media errors other than end of file, except in C36",
    "memory allocation succeeds; single-threaded use; x86-64, little-endian, IEEE-754 binary64, round to nearest",
    "libm pow/ldexp/exp2 are exact on powers of two; log is monotone and evaluated by the host libm where its argument is constant",
    "Z3 4.8.12 and the engine in /verif/engine are trusted for `unsat`; `sat` models are cross-checked by concrete evaluation and by native replay",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--engine", action="store_true", help="only build the engine")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", type=int, default=NPROC)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.engine:
        c = Check("C01", "quick", a.repo, 1)
        shutil.rmtree(c.tmp, ignore_errors=True)
        print(c.engine())
        return
    c = Check(a.property, a.tier, a.repo, a.jobs)
    try:
        rc = c.go()
    finally:
        if a.keep:
            print("kept", c.tmp)
        else:
            shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
