"""Shared machinery of the checks: building, running, judging, evidence."""
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
T186 = "1.86.0"
NIGHTLY25 = "nightly-2025-04-15"
NIGHTLY = "nightly"
TRIPLE = "x86_64-unknown-linux-gnu"
NCPU = max(2, min(8, os.cpu_count() or 2))

MEM_LIMIT = 6 << 30


class Inconclusive(Exception):
    """The check could not reach a verdict (exit 2)."""


class Violation(Exception):
    def __init__(self, why, replay):
        super().__init__(why)
        self.why = why
        self.replay = replay


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def log(*a):
    print(*a, flush=True)


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del e[k]
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "MOCKALL_DEBUG", "RUST_BACKTRACE", "MIRIFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(extra or {})
    return e


class Result:
    def __init__(self, cmd):
        self.cmd = cmd
        self.rc = None
        self.out = ""
        self.err = ""
        self.timed_out = False
        self.cpu = 0.0
        self.wall = 0.0


def _kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def tail_read(f, limit=64 << 20):
    f.seek(0, 2)
    n = f.tell()
    f.seek(max(0, n - limit))
    return f.read().decode("utf-8", "replace")


def run(cmd, timeout, cwd=None, extra_env=None, keep_err=1 << 20):
    """Run a command to completion, or kill its process group."""
    import resource
    import tempfile

    r = Result(cmd)
    t0 = time.time()
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, cwd=cwd, env=env(extra_env), stdout=fo, stderr=fe,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        # wait4 gives us the CPU time of this very child
        res = {}

        def waiter():
            try:
                _, st, ru = os.wait4(p.pid, 0)
                res["st"] = st
                res["ru"] = ru
            except ChildProcessError:
                pass

        th = threading.Thread(target=waiter, daemon=True)
        th.start()
        th.join(timeout)
        if th.is_alive():
            r.timed_out = True
            _kill_group(p)
            th.join(30)
        _kill_group(p)
        st = res.get("st", 0)
        r.rc = os.waitstatus_to_exitcode(st) if res else -9
        p.returncode = r.rc
        if "ru" in res:
            r.cpu = res["ru"].ru_utime + res["ru"].ru_stime
        r.out = tail_read(fo)
        r.err = tail_read(fe, keep_err)
    r.wall = time.time() - t0
    return r


def run_many(cmds, timeout, cwd=None, extra_env=None, jobs=NCPU):
    """cmds: list of argv.  Returns Results in order."""
    out = [None] * len(cmds)
    it = iter(range(len(cmds)))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                i = next(it, None)
            if i is None:
                return
            e = extra_env[i] if isinstance(extra_env, list) else extra_env
            out[i] = run(cmds[i], timeout, cwd, e)

    ths = [threading.Thread(target=work) for _ in range(min(jobs, len(cmds)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return out


def par(*fns):
    """Run functions at once; returns their results, raises their first exception
    (violations first)."""
    res = [None] * len(fns)
    exc = []

    def go(i):
        try:
            res[i] = fns[i]()
        except Exception as e:  # noqa: BLE001
            exc.append(e)

    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(fns))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    exc.sort(key=lambda e: not isinstance(e, Violation))
    if exc:
        raise exc[0]
    return res


# ---------------------------------------------------------------- building
def cargo(args, toolchain, target_dir, manifest_dir=HARNESS, extra_env=None, timeout=800):
    os.makedirs(target_dir, exist_ok=True)
    cmd = ["cargo", f"+{toolchain}"] + args + ["--offline", "--target-dir", target_dir]
    return run(cmd, timeout, cwd=manifest_dir, extra_env=extra_env)


def errors_of(stderr, n=40):
    lines = stderr.splitlines()
    out = []
    for i, l in enumerate(lines):
        if l.startswith("error"):
            out += lines[i:i + 12]
            if len(out) > n:
                break
    return "\n".join(out[:n])


def build(bins, toolchain=T186, name="main", features=(), flags="", zbuildstd=False, release=False,
          timeout=800, manifest_dir=HARNESS, package="vh"):
    """Build harness binaries.  Returns {bin: path}.

    If the harness's own code does not compile although the trivial `canary`
    mock compiles and works, then mockall no longer produces usable mocks for
    supported definitions: a violation.  If even the canary fails: inconclusive.
    """
    td = os.path.join(BUILD, name)
    args = ["build"]
    for b in bins:
        args += ["--bin", b]
    if features:
        args += ["--features", ",".join(features)]
    if release:
        args.append("--release")
    sub = "release" if release else "debug"
    ex = {}
    if flags:
        ex["RUSTFLAGS"] = flags
        args += ["--target", TRIPLE]
        sub = f"{TRIPLE}/{sub}"
    if zbuildstd:
        args.append("-Zbuild-std")
    r = cargo(args, toolchain, td, manifest_dir, extra_env=ex, timeout=timeout)
    if r.timed_out:
        raise Inconclusive("the build timed out")
    if r.rc == 0:
        return {b: os.path.join(td, sub, b) for b in bins}
    cargs = ["build", "--bin", "canary"] + (["--features", ",".join(features)] if features else [])
    if release:
        cargs.append("--release")
    if flags:
        cargs += ["--target", TRIPLE]
    if zbuildstd:
        cargs.append("-Zbuild-std")
    c = cargo(cargs, toolchain, td, extra_env=ex, timeout=timeout)
    if c.rc != 0:
        raise Inconclusive("mockall itself, or the simplest mock, does not build:\n" + errors_of(c.err))
    k = run([os.path.join(td, sub, "canary")], 60)
    if k.rc != 0:
        raise Inconclusive("the simplest mock does not work: " + k.err[-500:])
    if f"could not compile `{package}`" not in r.err:
        raise Inconclusive("the build failed outside of the harness:\n" + errors_of(r.err))
    raise Violation("supported definitions or uses no longer compile: " + errors_of(r.err, 14),
                    {"kind": "build", "bins": list(bins), "toolchain": toolchain,
                     "features": list(features), "errors": errors_of(r.err, 80)})


def externs(name, crates, toolchain=T186, manifest_dir=HARNESS, features=(), timeout=800):
    """Build a package's library; returns flags with which rustc finds these crates."""
    td = os.path.join(BUILD, name)
    r = cargo(["build", "--lib", "--message-format=json"] + (["--features", ",".join(features)] if features else []),
              toolchain, td, manifest_dir, timeout=timeout)
    if r.timed_out:
        raise Inconclusive("the build timed out")
    if r.rc != 0:
        build(["canary"], toolchain, name, [f for f in features if f == "nightly"])
        raise Inconclusive("the library does not build:\n" + errors_of(r.err))
    found = {}
    for l in r.out.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("reason") == "compiler-artifact":
                for f in d["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        found[d["target"]["name"]] = f
    if any(c not in found for c in crates):
        raise Inconclusive("cargo did not say where the crates are")
    return [x for c in crates for x in ("--extern", c + "=" + found[c])] + ["-L", "dependency=" + os.path.join(td, "debug", "deps")]


HARNESS_CRATES = ["mockall", "vh", "futures", "async_trait", "predicates"]


def miri_run(agg, binname, argsets, timeout, flags="", features=(), name="miri"):
    """Interpret `binname` once per element of argsets, in parallel.  Judges the runs."""
    td = os.path.join(BUILD, name)

    def cmd(args):
        c = ["cargo", f"+{NIGHTLY}", "miri", "run", "--offline", "--target-dir", td, "--bin", binname]
        if features:
            c += ["--features", ",".join(features)]
        return c + ["--"] + args

    e = {"MIRIFLAGS": ("-Zmiri-disable-isolation " + flags).strip()}
    # one run alone, to build it
    b = run(cmd(["--count", "0"]), 400, cwd=HARNESS, extra_env=e)
    if b.timed_out or "could not compile" in b.err:
        raise Inconclusive("Miri could not build the harness: " + errors_of(b.err))
    if b.rc != 0 and not miri_report(b):
        raise Inconclusive("Miri does not run: " + b.err[-600:])
    for args, r in zip(argsets, run_many([cmd(a) for a in argsets], timeout, cwd=HARNESS, extra_env=e)):
        rep = miri_report(r)
        desc = {"bin": binname, "args": args, "tool": "miri", "flags": flags}
        if rep:
            v = agg.add_lines(r.out)
            if v is None:
                raise Violation("Miri: " + rep, dict(kind="miri", report=r.err[-8000:], cmd=r.cmd, **desc))
            raise Violation(v["why"], dict(v, cmd=r.cmd, **desc))
        judge_proc(r, agg, desc)
        agg.count("miri_runs")


def miri_report(r):
    m = re.search(r"^error: (Undefined Behavior|memory leaked|abnormal termination|the evaluated program"
                  r"|Data race|.*deadlock)[^\n]*", r.err, re.M)
    return m.group(0)[:400] if m else None


# ---------------------------------------------------------------- judging
class Agg:
    """Collects what the monitors reported."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.counters = {}
        self.sets = {}
        self.samples = []
        self.runs = 0
        self.extra = {}

    def add_lines(self, text):
        """Parse JSON lines; returns the first violation, if any."""
        v = None
        for l in text.splitlines():
            if not l.startswith("{"):
                continue
            try:
                d = json.loads(l)
            except json.JSONDecodeError:
                continue
            t = d.get("t")
            if t == "violation" and v is None:
                v = d
            elif t == "sample" and len(self.samples) < 4:
                self.samples.append(d["v"])
            elif t == "stats":
                self.evaluations += d["evaluations"]
                self.nontrivial += d["nontrivial"]
                for k, n in d["counters"].items():
                    self.counters[k] = self.counters.get(k, 0) + n
                for k, s in d["sets"].items():
                    self.sets.setdefault(k, set()).update(s)
        return v

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def note(self, k, x):
        self.sets.setdefault(k, set()).add(x)


SIGNAMES = {-6: "SIGABRT", -11: "SIGSEGV", -4: "SIGILL", -7: "SIGBUS", -5: "SIGTRAP", -8: "SIGFPE"}


def last_history(err):
    m = re.findall(r"^H (\d+)$", err, re.M)
    return int(m[-1]) if m else None


def judge_proc(r, agg, desc, rerun=None):
    """Judge one monitored process.  `rerun(history)` gives a command which
    repeats just that history (for crashes and hangs)."""
    agg.runs += 1
    v = agg.add_lines(r.out)
    if v is not None:
        raise Violation(v["why"], dict(v, cmd=r.cmd, **desc))
    if r.timed_out:
        h = last_history(r.err)
        if rerun and h is not None:
            n = 0
            for _ in range(2):
                q = run(rerun(h), 120)
                if q.timed_out:
                    n += 1
            if n == 2:
                raise Violation(f"history {h} never finishes (hung twice for 120 s, CPU {q.cpu:.1f} s)",
                                dict(kind="hang", history=h, cmd=rerun(h), **desc))
        raise Inconclusive(f"{desc}: timed out after {r.wall:.0f} s")
    m = re.search(r"(WARNING: ThreadSanitizer: (data race|heap-use|lock-order|double lock|unlock)|ERROR: AddressSanitizer|ERROR: LeakSanitizer)[^\n]*",
                  r.err)
    if m:
        raise Violation(m.group(0)[:300], dict(kind="sanitizer", report=r.err[m.start():m.start() + 8000],
                                               history=last_history(r.err[:m.start()]), cmd=r.cmd, **desc))
    if r.rc == 0:
        if '"t":"stats"' not in r.out.replace(" ", ""):
            raise Inconclusive(f"{desc}: no statistics were reported")
        return
    if r.rc in SIGNAMES or "panicked" in r.err or "AddressSanitizer" in r.err:
        h = last_history(r.err)
        again = ""
        if rerun and h is not None:
            q = run(rerun(h), 120)
            again = f"; repeating history {h} alone ends with {q.rc}"
        if r.rc in SIGNAMES:
            raise Violation(f"the process died of {SIGNAMES[r.rc]} in history {h}{again}: {r.err[-600:]}",
                            dict(kind="crash", history=h, cmd=r.cmd, stderr=r.err[-3000:], **desc))
    raise Inconclusive(f"{desc}: unexpected exit {r.rc}: {r.err[-800:]}")


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """(signature-regex, text) of the recorded, unrepaired findings of a property."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- driver
def finish(pid, level, agg, rule, t0, assumptions, violation=None, extra=None):
    cov = {
        "evaluations": agg.evaluations,
        "distinct_nontrivial": agg.nontrivial,
        "rule": rule,
        "samples": agg.samples[:4] or ["(none)"],
        "monitored_processes": agg.runs,
        "observed": dict(sorted(agg.counters.items())),
    }
    for k, s in sorted(agg.sets.items()):
        cov["distinct_" + k] = len(s)
        if len(s) <= 200 and k not in ("history_signatures",):
            cov[k] = sorted(s)
    if "history_signatures" in agg.sets:
        cov["distinct_nontrivial"] = min(cov["distinct_nontrivial"], len(agg.sets["history_signatures"]))
    cov.update(agg.extra)
    cov.update(extra or {})
    ev = {
        "property": pid,
        "tier": tier(),
        "seed": seed(),
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def write_replay(pid, v):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    body = dict(v.replay, property=pid, why=v.why, seed=seed(), tier=tier())
    s = json.dumps(body, indent=1, default=str)
    h = hashlib.sha256(s.encode()).hexdigest()[:10]
    path = os.path.join(d, f"replay-{pid}-{h}.json")
    with open(path, "w") as f:
        f.write(s)
    return path
