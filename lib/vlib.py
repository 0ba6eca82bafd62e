"""Common machinery of all checks: environment, calling the code under test,
running TLC, evidence files and verdicts."""
import atexit
import contextlib
import json
import math
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SCRATCH = tempfile.mkdtemp(prefix="vp_einet_")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))

os.environ.setdefault("MPLCONFIGDIR", SCRATCH)
os.environ["WANDB_MODE"] = "offline"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ.setdefault("TQDM_DISABLE", "1")
sys.dont_write_bytecode = True

T0 = time.time()
RNG = random.Random(SEED * 7919 + 13)


def setup_paths():
    """Make /repo importable, with the stand-in for the missing third-party package."""
    try:
        import fast_pytorch_kmeans  # noqa: F401
    except Exception:
        sys.path.insert(0, os.path.join(VERIF, "stubs"))
    sys.path.insert(0, REPO)


def load_torch():
    import torch

    torch.set_num_threads(int(os.environ.get("VERIF_THREADS", "4")))
    torch.manual_seed(SEED)
    import numpy as np

    np.random.seed(SEED % (2**31))
    import warnings

    warnings.filterwarnings("ignore")
    return torch


class CallTimeout(Exception):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise CallTimeout(f"call did not return within {seconds}s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_timeouts = 0


def guarded(fn, *a, limit=120, **k):
    """Call code under test; an exception is an observation, not an error of the check.
    Returns (value, "") or (None, description).
    A call that does not return is an observation too; after the first one less patience is shown, and after the
    fourth the code under test is not called any more, so that the check still reports within its time."""
    global _timeouts
    if _timeouts >= 4:
        return None, "timeout: not called, earlier calls did not return"
    if _timeouts:
        limit = min(limit, 20)
    try:
        with time_limit(limit):
            with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
                return fn(*a, **k), ""
    except CallTimeout as e:
        _timeouts += 1
        return None, f"timeout: {e}"
    except (Exception, SystemExit) as e:  # noqa: BLE001
        msg = re.sub(r"0x[0-9a-f]+", "0x", f"{type(e).__name__}: {e}")
        return None, msg[:300].replace("\n", " ")


# ----------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.rc = None
        self.out = ""
        self.states = 0
        self.transitions = 0
        self.bad = []      # parsed BAD records
        self.emitted = []  # parsed EMIT records
        self.violated = None
        self.wall = 0.0


class MachineryError(Exception):
    pass


def run_tlc(module, cfg_text, data=None, env=None, workers=8, heap="3g", timeout=600, extra=(), deadlock=False,
            simulate=None):
    """Run TLC on spec/<module>.tla with the given cfg; `data` is written as JSON and its
    path handed over in the environment variable DATA."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=SCRATCH)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    if data is not None:
        p = os.path.join(d, "data.json")
        with open(p, "w") as f:
            json.dump(data, f)
        e["DATA"] = p
    e.update(env or {})
    cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-config", module + ".cfg", "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [module + ".tla"]
    r = TlcResult()
    t = time.time()
    try:
        pr = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                            text=True, errors="replace")
        r.rc, r.out = pr.returncode, pr.stdout
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out on {module}: {str(ex.stdout)[-2000:]}")
    r.wall = time.time() - t
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
    for line in r.out.splitlines():
        for tag, dst in (("BAD ", r.bad), ("EMIT ", r.emitted)):
            s = line.strip()
            if s.startswith('"' + tag):
                try:
                    dst.append(json.loads(json.loads(s)[len(tag):]))
                except Exception as ex:
                    raise MachineryError(f"cannot parse TLC output line {s[:300]}: {ex}")
    m = re.search(r"Invariant (\S+) is violated|property (\S+) is violated|Action property (\S+)", r.out)
    if m:
        r.violated = next(g for g in m.groups() if g)
    if r.rc not in (0, 12, 13):
        raise MachineryError(f"TLC failed on {module} (rc {r.rc}):\n" + "\n".join(l for l in r.out.splitlines() if not re.match(r"\d+\. Line|\s+at |Semantic|Parsing|Linting", l))[-9000:])
    if r.rc != 0 and not r.violated:
        raise MachineryError(f"TLC reported {r.rc} without a violated invariant:\n{r.out[-6000:]}")
    shutil.rmtree(d, ignore_errors=True)
    return r


# ----------------------------------------------------------------------------- verdicts
class Check:
    """Collects what a run covered, matches violations against known findings, and
    produces evidence, VIOLATION lines and the exit code."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.extra = {}
        self.assumptions = []

    def add_tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, detail):
        """key: stable short identification of what fails (matched against known findings)."""
        self.violations.append((key, detail))

    def judge(self, events, r, keyf, module):
        """Turn BAD records of a trace run into violations.  Events are what was recorded."""
        self.add_tlc(r)
        seen = set()
        for b in r.bad:
            if b["i"] in seen:  # TLC prints an enabled action's output more than once
                continue
            seen.add(b["i"])
            ev = events[b["i"] - 1]
            self.violation(keyf(ev), {"spec": module, "clause": b.get("why", ""), "event": ev, "expected": b.get("exp")})
        if r.rc != 0 and not r.bad:
            raise MachineryError("invariant violated without a BAD record:\n" + r.out[-4000:])

    def finish(self):
        findings = load_known(self.prop)
        rep_dir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rep_dir, exist_ok=True)
        new, seen = [], {}
        for key, det in self.violations:
            hit = next((f for f in findings if f["key"] == key), None)
            if hit:
                seen.setdefault(hit["key"], hit)
            else:
                new.append((key, det))
        for f in seen.values():
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        path = os.path.join(rep_dir, f"{self.prop}.json")
        if new:
            with open(path, "w") as f:
                json.dump([{"key": k, "detail": d} for k, d in new[:40]], f, indent=1, default=str)
        elif os.path.exists(path):
            os.remove(path)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   evaluations=self.evals, samples=self.samples or ["(no sample)"])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier="thorough" if THOROUGH else "quick", seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            for k in dict.fromkeys(k for k, _ in new[:200]):
                print(f"  {self.prop}: {k}")
            k, d = new[0]
            print("  first: " + json.dumps(d, default=str)[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop}: held on {self.traces} recorded traces, {self.states} spec states, "
              f"{time.time() - T0:.1f}s")
        return 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if os.path.exists(p):
        for f in json.load(open(p)).get("findings", []):
            if f["property"] == prop:
                out.append(f)
    return out


def main(prop, fn, level="model_checking"):
    """Entry point of a check script."""
    ck = Check(prop, level)
    try:
        fn(ck)
        rc = ck.finish()
    except MachineryError as e:
        print(f"check error: {e}", file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
