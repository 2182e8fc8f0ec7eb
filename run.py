#!/usr/bin/env python3
"""Decides one property of lalib by generated-input search.

  run.py C07                 tier and seed from VERIF_TIER / VERIF_SEED (default quick / 1)
  run.py C07 --thorough
  run.py --replay FILE       re-executes a replay file written by an earlier run

The harness props/<id>.cpp is compiled against the headers in /repo's working tree for every
backend, optimised as the repository does and again with the sanitizers, and then driven over a fixed number of generated
cases. Exit 0: held on everything explored. Exit 1: VIOLATION line and a replay file.
"""
import concurrent.futures as cf, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LALIB_REPO", "/repo")
CORES = max(2, min(8, os.cpu_count() or 8))

BACKENDS = {
    "I": (["-DLALIB_INTERNAL_BACKEND"], []),
    "B": (["-DLALIB_BLAS_BACKEND"], ["-lopenblas"]),
    "L": (["-DLALIB_BLAS_BACKEND", "-DLALIB_LAPACK_BACKEND"], ["-llapacke", "-lopenblas"]),
    "A": (["-DLALIB_INTERNAL_BACKEND", "-DLALIB_USE_ACCELERATOR"], []),      # offloading falls back to the host
}
BUILDS = {
    "plain": ["-O2", "-DNDEBUG"],
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
}

from config import CONFIG, DEFAULT

ENV = dict(os.environ, OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false", OPENBLAS_NUM_THREADS="2", MALLOC_PERTURB_="128",
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:malloc_fill_byte=255:max_malloc_fill_size=1048576:allocator_may_return_null=0",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:die_after_fork=0",
           UBSAN_OPTIONS="print_stacktrace=1")


class CompileError(Exception):
    pass


def compile_cmd(src, out, build, backend, conf, fuzz=False):
    defs, libs = BACKENDS[backend]
    flags = list(conf.get("builds", {}).get(build, BUILDS[build]))
    omp = [] if "-fsanitize=thread" in flags else ["-fopenmp"]        # libgomp is not instrumented
    if build == "san" and conf.get("san_opt"):
        flags[0] = conf["san_opt"]
    if fuzz:
        return ["clang++", "-std=gnu++20", "-O1", "-g1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
                "-DPBT_FUZZ", f"-I{REPO}/include", *defs, src, "-o", out, *libs]
    return ["g++", "-std=gnu++20", *omp, *flags, f"-I{REPO}/include", *defs, src, "-o", out, *libs]


CONTROL = "#include <vector>\n#include <omp.h>\n#include <complex>\nint main() { std::vector<double> v(3, 1.0); return v[0] > 2; }\n"


def compile_one(src, out, build, backend, conf, work, fuzz=False):
    cmd = compile_cmd(src, out, build, backend, conf, fuzz)
    for attempt in (0, 1, 2):
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
        if r.returncode == 0:
            return
        # a compiler that was killed or ran out of space says nothing about the code
        if r.returncode < 0 or re.search(r"internal compiler error|Killed|No space left|out of memory|Cannot allocate", r.stderr):
            time.sleep(2 + 3 * attempt)
            continue
        ctl = os.path.join(work, f"control.{build}.{backend}.cpp")
        open(ctl, "w").write(CONTROL)
        c = subprocess.run(compile_cmd(ctl, ctl + ".out", build, backend, conf, False), capture_output=True, text=True)
        if c.returncode != 0:
            raise RuntimeError("the toolchain does not work here: " + c.stderr[:500])
        raise CompileError(" ".join(cmd) + "\n" + "\n".join(l for l in r.stderr.splitlines() if "error" in l or "undefined" in l)[:4000])
    raise RuntimeError("the compiler was killed: " + r.stderr[-500:])


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.conf = {**DEFAULT, **CONFIG[pid]}
        self.t0 = time.time()
        self.src = os.path.join(HERE, "props", pid + ".cpp")
        self.work = tempfile.mkdtemp(prefix=f"lalib-{pid}-")
        self.stop = threading.Event()
        self.procs, self.lock = set(), threading.Lock()
        self.violation = None          # (replay dict)
        self.flaky = []
        self.stats = []
        self.replay_dir = os.path.join(HERE, "evidence", "replays")

    def spawn(self, cmd, timeout):
        p = subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, ""
        finally:
            with self.lock:
                self.procs.discard(p)

    def kill_all(self):
        self.stop.set()
        with self.lock:
            for p in self.procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass

    def remaining(self):
        return self.conf["hard_cap"] - (time.time() - self.t0)

    def violate(self, replay):
        with self.lock:
            if self.violation is None:
                self.violation = replay
        self.kill_all()

    def shard(self, exe, variant, scale, shard, shards):
        for attempt in range(3):
            if self.stop.is_set():
                return
            out = os.path.join(self.work, f"{variant}.{shard}.{attempt}")
            cap = max(5.0, self.conf["soft_cap"][self.tier] - (time.time() - self.t0))
            rc, text = self.spawn([exe, "run", "--variant", variant, "--seed", str(self.seed), "--scale", str(scale), "--shard", str(shard),
                                   "--shards", str(shards), "--seconds", f"{cap:.0f}", "--out", out], max(30, self.remaining()))
            if self.stop.is_set():
                return
            self.flaky += [open(f).read() for f in glob.glob(out + ".*.flaky")]
            rep = glob.glob(out + ".*.replay.json")
            if rc == 1 and rep:
                r = json.load(open(rep[0]))
                r["property"] = self.pid
                self.violate(r)
                return
            if rc == 0:
                with self.lock:
                    for f in glob.glob(out + ".*.json"):
                        if not f.endswith(".replay.json"):
                            self.stats.append((variant, json.load(open(f)), f + ".hashes"))
                return
            if rc is None:
                raise RuntimeError(f"{variant} shard {shard} ran out of time")
        raise RuntimeError(f"{variant} shard {shard} ended with {rc}: {text[-800:]}")

    def fuzz(self, exe, k, seconds):
        """One libFuzzer process over the same harness (thorough tier)."""
        d = os.path.join(self.work, f"corpus{k}")
        os.makedirs(d, exist_ok=True)
        rc, text = self.spawn([exe, d, f"-seed={self.seed * 100 + k + 1}", f"-max_total_time={seconds}", "-max_len=1500", "-timeout=120", "-rss_limit_mb=3000",
                               "-len_control=20", "-print_final_stats=1", f"-artifact_prefix={self.work}/art{k}-"], seconds + 200)
        if self.stop.is_set():
            return
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text or "")
        execs = int(m.group(1)) if m else 0
        corpus = len(os.listdir(d))
        with self.lock:
            self.fuzzed = [self.fuzzed[0] + execs, self.fuzzed[1] + corpus]
        if rc not in (0, None):
            m = re.search(r"PBT-FUZZ-FAIL facet=(.*?) choices=([\d,]*)", text)
            if m:
                self.violate({"property": self.pid, "facet": m.group(1), "variant": "fuzz-I", "kind": "choices", "seed": self.seed,
                              "choices": [int(x) for x in m.group(2).split(",") if x], "message": (re.search(r"PBT-FUZZ-MSG (.*)", text) or [0, ""])[1]})
            elif re.search(r"AddressSanitizer: (?!out-of-memory|allocation)|runtime error:|deadly signal", text):
                arts = glob.glob(f"{self.work}/art{k}-*")
                self.violate({"property": self.pid, "facet": "", "variant": "fuzz-I", "kind": "bytes", "seed": self.seed, "choices": [],
                              "bytes": open(arts[0], "rb").read().hex() if arts else "", "message": text[-2500:]})

    def run(self):
        conf, tier = self.conf, self.tier
        scale = conf[tier]
        jobs = []
        ex = cf.ThreadPoolExecutor(CORES)
        self.fuzzed = [0, 0]
        errors = []

        def guarded(fn, *a):
            try:
                fn(*a)
            except CompileError as e:
                self.violate({"property": self.pid, "facet": "(compile)", "variant": a[1] if len(a) > 1 else "", "kind": "compile", "choices": [], "message": str(e)})
            except Exception as e:  # noqa: BLE001
                errors.append(str(e))
                self.kill_all()

        def build_and_queue(build, backend):
            variant = f"{build}-{backend}"
            exe = os.path.join(self.work, variant)
            if self.stop.is_set():
                return
            compile_one(self.src, exe, build, backend, conf, self.work)
            if "-fsanitize=thread" in conf.get("builds", {}).get(build, []) and subprocess.run([exe, "list"], env=ENV, capture_output=True).returncode != 0:
                self.notes.append("ThreadSanitizer does not start in this environment; that build was skipped")
                return
            sc = scale * (conf["san_share"] if build == "san" else 1.0)
            n = conf["shards"][build]
            for k in range(n):
                pending.append(ex.submit(guarded, self.shard, exe, variant, sc, k, n))

        def build_fuzz():
            exe = os.path.join(self.work, "fuzz-I")
            try:
                compile_one(self.src, exe, "plain", "I", conf, self.work, fuzz=True)
            except CompileError as e:
                # clang rejecting what g++ accepts is reported as missing coverage, not as a violation
                self.fuzz_note = "clang could not build the harness: " + str(e)[:300]
                return
            for k in range(4):
                pending.append(ex.submit(guarded, self.fuzz, exe, k, conf["fuzz_seconds"]))

        self.fuzz_note, self.notes = "", []
        pending = []
        # the sanitizer builds take longest, so they start first
        order = [("san", b) for b in conf["san_backends"]] + [("plain", b) for b in conf["plain_backends"]]
        for build, backend in order:
            pending.append(ex.submit(guarded, build_and_queue, build, backend))
        if tier == "thorough" and conf["fuzz_seconds"]:
            pending.append(ex.submit(guarded, build_fuzz))
        i = 0
        while i < len(pending):
            pending[i].result()
            i += 1
        ex.shutdown()
        return errors

    def evidence(self):
        facets, hashes, samples, ev, capped = {}, set(), [], 0, 0
        per_variant = {}
        for variant, st, hf in sorted(self.stats, key=lambda x: (x[0], x[1]["facet"])):
            f = facets.setdefault(st["facet"], {"evaluations": 0, "labels": {}})
            f["evaluations"] += st["evaluations"]
            ev += st["evaluations"]
            per_variant[variant] = per_variant.get(variant, 0) + st["evaluations"]
            for k, v in st["labels"].items():
                if k.startswith("(stopped"):
                    capped += 1
                    continue
                f["labels"][k] = f["labels"].get(k, 0) + v
            if os.path.exists(hf):
                data = open(hf, "rb").read()
                hs = set(struct.unpack(f"<{len(data) // 8}Q", data))
                hashes |= hs
                f.setdefault("h", set()).update(hs)
            if st["samples"] and not any(s["facet"] == st["facet"] for s in samples):
                samples.append({"facet": st["facet"], "variant": variant, "case": st["samples"][0]})
        for f in facets.values():
            f["distinct_nontrivial"] = len(f.pop("h", ()))
        cov = {
            "evaluations": ev, "distinct_nontrivial": len(hashes), "rule": self.conf["rule"], "samples": samples[:16],
            "evaluations_per_build": per_variant, "facets": facets,
        }
        if self.tier == "thorough":
            cov["libfuzzer_executions"] = self.fuzzed[0]
            cov["libfuzzer_corpus"] = self.fuzzed[1]
            if self.fuzz_note:
                cov["libfuzzer_note"] = self.fuzz_note
        if getattr(self, "notes", None):
            cov["notes"] = self.notes
        if capped:
            cov["shards_stopped_at_wall_cap"] = capped
        if self.flaky:
            cov["unreproducible_crashes_not_reported"] = self.flaky[:5]
        if self.violation:
            cov["violation"] = {k: self.violation.get(k) for k in ("facet", "variant", "message", "input")}
        doc = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
               "assumptions": self.conf["assumptions"], "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.violation else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as w:
            json.dump(doc, w, indent=1)
        os.replace(path + ".tmp", path)
        return ev, len(hashes)

    def main(self):
        try:
            errors = self.run()
            ev, nt = self.evidence()
            if self.violation:
                os.makedirs(self.replay_dir, exist_ok=True)
                path = os.path.join(self.replay_dir, f"{self.pid}-{self.tier}-{self.seed}.json")
                json.dump(self.violation, open(path, "w"), indent=1)
                print(f"{self.violation['facet']} [{self.violation['variant']}]: {self.violation['message'][:1500]}")
                if self.violation.get("input"):
                    print("input: " + self.violation["input"][:1500])
                print(f"re-run with: python3 {HERE}/run.py --replay {path}")
                print(f"VIOLATION property={self.pid} replay={path}")
                return 1
            if errors:
                print("ERROR: " + errors[0])
                return 2
            if ev == 0 or nt == 0:
                print("ERROR: nothing was explored")
                return 2
            print(f"{self.pid} held: {ev} cases, {nt} distinct non-trivial, {time.time() - self.t0:.1f} s")
            return 0
        finally:
            self.kill_all()
            shutil.rmtree(self.work, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    conf = {**DEFAULT, **CONFIG[r["property"]]}
    work = tempfile.mkdtemp(prefix="lalib-replay-")
    try:
        src = os.path.join(HERE, "props", r["property"] + ".cpp")
        build, _, backend = (r.get("variant") or "plain-I").partition("-")
        backend = backend if backend in BACKENDS else "I"
        exe = os.path.join(work, "h")
        try:
            if r["kind"] == "bytes":
                compile_one(src, exe, "plain", backend, conf, work, fuzz=True)
                art = os.path.join(work, "input")
                open(art, "wb").write(bytes.fromhex(r["bytes"]))
                return 1 if subprocess.run([exe, art], env=ENV).returncode else 0
            compile_one(src, exe, "san" if build == "fuzz" else build if build in BUILDS else "plain", backend, conf, work)
        except CompileError as e:
            print("FAIL does not compile:\n" + str(e))
            return 1
        if r["kind"] == "compile":
            print("PASS")
            return 0
        cmd = [exe, "replay", "--facet", r["facet"], "--out", os.path.join(work, "o"), "--choices", ",".join(map(str, r["choices"]))]
        if r["kind"] == "batch":
            cmd += ["--kind", "batch", "--start", str(r["start"]), "--case", str(r["case"]), "--shards", str(r["step"]), "--seed", str(r["seed"]), "--variant", r["variant"]]
        return subprocess.run(cmd, env=ENV).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.exit(Runner(sys.argv[1], tier, seed).main())
