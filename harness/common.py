"""Shared machinery: run TLC, collect what it emits, judge, write evidence."""
import contextlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # Only for trying out changes.
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
CLASSES = os.path.join(BUILD, "classes")
EVID = os.path.join(VERIF, "evidence")
TLAJARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)


class MachineryError(Exception):
    """The check itself failed; says nothing about the property."""


class Stuck(Exception):
    """The implementation does not finish."""


JAVA = ["BigRat", "RMat"]


def ensure_classes():
    """Compile the overrides, if the sources are newer."""
    srcs = [os.path.join(VERIF, "java", n + ".java") for n in JAVA]
    outs = [os.path.join(CLASSES, n + ".class") for n in JAVA]
    if all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(s)
           for s, o in zip(srcs, outs)):
        return
    os.makedirs(CLASSES, exist_ok=True)
    tmp = os.path.join(BUILD, f"classes.{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    subprocess.run(["javac", "-cp", TLAJARS, "-d", tmp] + srcs, check=True, capture_output=True)
    for n in os.listdir(tmp):
        os.replace(os.path.join(tmp, n), os.path.join(CLASSES, n))
    os.rmdir(tmp)


def tla(v):
    """A Python value as a TLA+ expression for a configuration file."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        raise MachineryError("sequences are not allowed in a TLC configuration file")
    raise MachineryError(f"cannot write {v!r} as a TLA+ constant")


class TLCResult:
    def __init__(self):
        self.records = []
        self.states = 0
        self.generated = 0
        self.ok = True
        self.violated = None
        self.output = ""
        self.wall = 0.0


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.violations = []
        self.known_hits = {}
        self.samples = []
        self.groups = {}
        self.tlc_runs = []
        self.assumptions = []
        self._lock = threading.Lock()
        self.work = os.path.join(BUILD, "run", f"{prop}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self._n = 0
        self.known = load_known(prop)
        self.case = None
        self.abort = False
        ensure_classes()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC ---------------------------------------------------------------------

    def tlc(
        self,
        module,
        constants=None,
        invariants=(),
        properties=(),
        init="Init",
        next="Next",
        spec=None,
        constraint=None,
        view=None,
        postcondition=None,
        simulate=None,
        depth=None,
        workers="auto",
        timeout=None,
        expect_ok=True,
        extra=(),
        heap="4g",
        seed=None,
    ):
        """Run TLC on a module of /verif/spec. Returns a `TLCResult`.

        If `constants` contains the key `Out`, its value is replaced by the path of a
        file that the specification appends JSON records to. The value of `In` is written
        to a file that the specification reads.
        """
        with self._lock:
            self._n += 1
            n = self._n
        d = os.path.join(self.work, f"tlc{n}")
        os.makedirs(d)
        constants = dict(constants or {})
        out = None
        if "Out" in constants:
            out = os.path.join(d, "out.ndjson")
            constants["Out"] = out
        if "In" in constants:
            src = os.path.join(d, "in.json")
            with open(src, "w") as f:
                json.dump(constants["In"], f)
            constants["In"] = src
        lines = []
        if spec:
            lines.append(f"SPECIFICATION {spec}")
        else:
            lines += [f"INIT {init}", f"NEXT {next}"]
        for k, v in constants.items():
            lines.append(f"CONSTANT {k} = {tla(v)}")
        for i in invariants:
            lines.append(f"INVARIANT {i}")
        for p in properties:
            lines.append(f"PROPERTY {p}")
        if constraint:
            lines.append(f"CONSTRAINT {constraint}")
        if view:
            lines.append(f"VIEW {view}")
        if postcondition:
            lines.append(f"POSTCONDITION {postcondition}")
        lines.append("CHECK_DEADLOCK FALSE")
        cfg = os.path.join(d, "m.cfg")
        with open(cfg, "w") as f:
            f.write("\n".join(lines) + "\n")
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            f"-Xmx{heap}",
            "-Xss64m",
            f"-Djava.io.tmpdir={d}",
            f"-DTLA-Library={SPEC}",
            "-cp",
            f"{CLASSES}:{TLAJARS}",
            "tlc2.TLC",
            "-metadir",
            os.path.join(d, "meta"),
            "-config",
            cfg,
            "-workers",
            str(1 if simulate else workers),
            "-noGenerateSpecTE",
            "-seed",
            str(self.seed if seed is None else seed),
            "-fp",
            "1",
        ]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth)]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        timeout = timeout or self.pick(800, 3000)
        try:
            p = subprocess.run(
                cmd, capture_output=True, text=True, timeout=timeout, cwd=d
            )
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC on {module} exceeded {timeout} s")
        r = TLCResult()
        r.wall = time.time() - t0
        r.output = p.stdout + p.stderr
        r.ok = p.returncode == 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", r.output)
        if m:
            r.generated = int(m[-1][0].replace(",", ""))
            r.states = int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", r.output)
        if m:
            r.generated = max(r.generated, int(m[-1].replace(",", "")))
            r.states = max(r.states, r.generated)
        m = re.search(r"Invariant (\S+) is violated", r.output)
        if m:
            r.violated = m.group(1)
        if out and os.path.exists(out):
            with open(out) as f:
                recs = [json.loads(x) for x in f if x.strip()]
            recs = [json.loads(x) if isinstance(x, str) else x for x in recs]
            # With several workers the order is not deterministic.
            recs = sorted(recs, key=lambda x: json.dumps(x, sort_keys=True))
            seen = None
            for x in recs:
                key = json.dumps(x, sort_keys=True)
                if key != seen:
                    r.records.append(x)
                seen = key
        if expect_ok and not r.ok:
            sys.stderr.write("\n".join(
                x for x in r.output.splitlines()
                if not re.match("(Parsing|Semantic|Linting|Loading)", x))[:6000])
            raise MachineryError(f"TLC failed on {module} (exit {p.returncode})")
        with self._lock:
            self.states += r.states
            self.transitions += r.generated
            self.tlc_runs.append(
                {
                    "module": module,
                    "mode": f"simulate {simulate}x{depth}" if simulate else "exhaustive",
                    "invariants": list(invariants) + list(properties),
                    "states": r.states,
                    "generated": r.generated,
                    "emitted": len(r.records),
                    "wall_s": round(r.wall, 1),
                }
            )
        return r

    # -- Judging -----------------------------------------------------------------

    def ok(self, group="comparisons", n=1):
        self.comparisons += n
        self.groups[group] = self.groups.get(group, 0) + n

    def fail(self, clause, detail, case=None):
        """Record that the implementation does not do what the specification says."""
        case = self.case if case is None else case
        for k in self.known:
            if re.search(k["match"], f"{clause}: {detail}"):
                self.known_hits[k["what"]] = self.known_hits.get(k["what"], 0) + 1
                return
        if len(self.violations) < 50:
            self.violations.append({"clause": clause, "detail": detail, "case": case})
            if len(self.violations) < 6:
                sys.stderr.write(f"[{self.prop}] {clause}: {detail[:1000]}\n")

    def expect(self, cond, clause, detail="", group=None):
        self.ok(group or clause)
        if not cond:
            self.fail(clause, detail)
        return bool(cond)

    def close(self, got, want, clause, rtol=1e-6, atol=1e-9, what=""):
        """Compare numbers or arrays. Anything that is not finite or has the wrong
        shape is a failure."""
        import numpy as np

        self.ok(clause)
        try:
            g = np.asarray(got, dtype=float)
        except Exception as e:
            self.fail(clause, f"{what} not numeric: {type(got).__name__}: {e}")
            return False
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(clause, f"{what} shape {g.shape}, expected {w.shape}")
            return False
        bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        # The same infinity is fine.
        bad &= ~(np.isinf(g) & np.isinf(w) & (g == w))
        if np.any(bad):
            i = tuple(int(k) for k in np.argwhere(bad)[0]) if g.ndim else ()
            self.fail(
                clause,
                f"{what} at {i}: got {float(g[i])!r}, specification says "
                f"{float(w[i])!r} ({int(bad.sum())} of {g.size} differ)",
            )
            return False
        return True

    def guarded(self, clause, f, *args, **kw):
        """Call the implementation; an exception on an input for which the
        specification defines a result is a violation."""
        try:
            return True, f(*args, **kw)
        except MachineryError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next(
                (f"{os.path.basename(x.filename)}:{x.lineno}" for x in reversed(tb)
                 if "/repo/" in x.filename or "site-packages" in x.filename),
                "?",
            )
            self.ok(clause)
            self.fail(clause, f"raised {type(e).__name__}: {str(e)[:200]} ({where})")
            return False, None

    @contextlib.contextmanager
    def limit(self, seconds):
        """What takes more processor time than this is stuck. Only in the main thread."""

        def stuck(*_):
            raise Stuck(f"not finished after {seconds} s of processor time")

        signal.signal(signal.SIGPROF, stuck)
        signal.setitimer(signal.ITIMER_PROF, seconds)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def raises(self, clause, excs, f, *args, **kw):
        self.ok(clause)
        try:
            r = f(*args, **kw)
        except excs:
            return True
        except Exception as e:
            self.fail(clause, f"raised {type(e).__name__}: {str(e)[:200]}, expected "
                              f"{excs}")
            return False
        self.fail(clause, f"did not raise; returned {str(r)[:200]}")
        return False

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    # -- Several processes ---------------------------------------------------------

    def replay_all(self, records, fn="replay", procs=7):
        """Call `fn(check, record)` of the module of this property for all records, in
        several processes. Every record is one behaviour."""
        records = list(records)
        if records:
            text = json.dumps(records[0])
            self.sample({"function": fn, "first": records[0] if len(text) < 2000 else text[:2000] + "..."})
        procs = max(1, min(procs, (len(records) + 1) // 2))
        jobs = []
        env = dict(os.environ)
        # The order of sets of strings must not matter.
        base = self.seed * 100
        env["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
        for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            env[v] = "1"
        for i in range(procs):
            src = os.path.join(self.work, f"{fn}{i}.json")
            dst = os.path.join(self.work, f"{fn}{i}.out.json")
            with open(src, "w") as f:
                json.dump(records[i::procs], f)
            cmd = [sys.executable, os.path.join(VERIF, "run_check.py"), self.prop,
                   "--worker", fn, src, dst]
            job = dict(env, PYTHONHASHSEED=str(base + i))
            jobs.append((dst, subprocess.Popen(cmd, env=job, stdout=sys.stderr)))
        bad = []
        for dst, p in jobs:
            p.wait()
            if not os.path.exists(dst):
                bad.append(p.returncode)
                continue
            with open(dst) as f:
                r = json.load(f)
            self.traces += r["traces"]
            self.comparisons += r["comparisons"]
            for k, v in r["groups"].items():
                self.groups[k] = self.groups.get(k, 0) + v
            for k, v in r["known_hits"].items():
                self.known_hits[k] = self.known_hits.get(k, 0) + v
            self.violations += r["violations"]
        if bad:
            raise MachineryError(f"workers ended with {bad}")

    def worker(self, mod, fn, src, dst):
        with open(src) as f:
            records = json.load(f)
        for rec in records:
            self.case = rec
            # A behaviour takes seconds.
            with self.limit(self.pick(300, 1500)):
                self.guarded("evaluates", getattr(mod, fn), self, rec)
            self.traces += 1
            if len(self.violations) > 10:
                break
        with open(dst + ".tmp", "w") as f:
            json.dump(dict(traces=self.traces, comparisons=self.comparisons,
                           groups=self.groups, known_hits=self.known_hits,
                           violations=self.violations), f, default=str)
        os.replace(dst + ".tmp", dst)
        shutil.rmtree(self.work, ignore_errors=True)

    # -- End ---------------------------------------------------------------------

    def finish(self, explanation=None, extra=None):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "evaluations": self.comparisons,
            "comparisons_by_clause": self.groups,
            "tlc_runs": self.tlc_runs,
            "samples": self.samples or ["none"],
        }
        if explanation:
            cov["explanation"] = explanation
        cov.update(extra or {})
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for what in self.known_hits:
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        if self.violations:
            path = os.path.join(EVID, f"replay-{self.prop}.json")
            with open(path, "w") as f:
                json.dump(self.violations, f, indent=1, default=str)
            v = self.violations[0]
            print(f"{v['clause']}: {v['detail']}")
            print(f"VIOLATION property={self.prop} replay={path}")
            sys.stdout.flush()
            return 1
        if self.traces == 0 or self.comparisons == 0:
            sys.stderr.write("vacuous: nothing was compared\n")
            return 2
        print(
            f"{self.prop}: held on {self.traces} behaviours, {self.comparisons} "
            f"comparisons, {self.states} states ({time.time() - self.t0:.0f} s)"
        )
        sys.stdout.flush()
        return 0


def load_known(prop):
    """Known findings: lines of JSON with `property`, `what` and `match` (a regular
    expression on `clause: detail`). Lines that say `fixed:` suppress nothing."""
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    k = json.loads(line)
                    if k["property"] == prop:
                        res.append(k)
    return res


def F(s):
    """A rational of the specification as a `Fraction`."""
    return Fraction(s)


def fl(s):
    """A rational of the specification as a float."""
    return float(Fraction(s))


def setup_repo():
    """Import the code from /repo's working tree."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.WARNING)
    try:
        import lab.jax  # noqa: F401
        import wbml.out
    except Exception as e:
        raise MachineryError(f"cannot import the dependencies: {e}")
    try:
        import gpcm  # noqa: F401
    except Exception as e:
        return e
    if not os.path.abspath(gpcm.__file__).startswith(REPO + "/"):
        raise MachineryError(f"gpcm was imported from {gpcm.__file__}")
    wbml.out.streams[:] = []
    return None
