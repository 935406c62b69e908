"""The checks, one per property."""
import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import gen_defs
import gen_double
import gen_exp
import gen_ffi
import gen_fit
import vlib
from vlib import run_many, build, judge_proc, miri_run, par, seed, tier, NCPU

CHECKS = {}

COMMON = [
    "the sequential reference model in harness/src/model.rs states the documented behaviour",
    "the Rust toolchains, the predicates and downcast crates and the standard library are trusted",
    "only definitions and operations the workload drives are judged; runs are finite",
]
RULE = ("random histories of operations (create, expect, call, checkpoint, drop, unwinding drop, contexts, "
        "sequences) over a zoo of real mocks, generated from the seed; non-trivial: at least one call was "
        "answered and at least one verification ran; distinct by the sequence of (channel, expectation index, "
        "outcome) of its calls")


class Check:
    def __init__(self, fn, rule, assumptions, level="exploration"):
        self.fn = fn
        self.rule = rule
        self.assumptions = assumptions
        self.level = level


def check(pid, rule=RULE, assumptions=(), level="exploration"):
    def deco(fn):
        CHECKS[pid] = Check(fn, rule, list(assumptions) + COMMON, level)
        return fn
    return deco


def pick(quick, thorough):
    return quick if tier() == "quick" else thorough


def core(agg, profile, secs, jobs=NCPU, exe=None, tag=0, count=100000000):
    """Model-checked histories in parallel processes."""
    exe = exe or build(["core"])["core"]
    base = seed() * 1000 + tag * 100
    cmds = [[exe, "--profile", profile, "--seed", str(base + j), "--count", str(count),
             "--budget-ms", str(secs * 1000), "--samples", "1" if j == 0 else "0"] for j in range(jobs)]
    for j, r in enumerate(run_many(cmds, secs + 240)):
        s = str(base + j)
        judge_proc(r, agg, {"profile": profile, "bin": "core", "process_seed": s},
                   lambda h, s=s: [exe, "--profile", profile, "--seed", s, "--only", str(h), "--samples", "0"])


def hist(agg, exe, args, secs, jobs=NCPU, tag=0, desc=None, env=None, timeout=None):
    """Run a history-based monitor (--seed/--count/--budget-ms/--only) in parallel processes."""
    base = seed() * 1000 + tag * 100
    cmds = [[exe] + args + ["--seed", str(base + j), "--count", "1000000000", "--budget-ms", str(secs * 1000)]
            for j in range(jobs)]
    for j, r in enumerate(run_many(cmds, timeout or secs + 240, extra_env=env)):
        judge_proc(r, agg, dict({"bin": os.path.basename(exe), "args": args, "process_seed": base + j}, **(desc or {})),
                   lambda h, j=j: [exe] + args + ["--seed", str(base + j), "--only", str(h)])


def prog(agg, exe, args, timeout=300, desc=None):
    """A self-judging monitor program."""
    (r,) = run_many([[exe] + args], timeout)
    judge_proc(r, agg, desc or {"bin": os.path.basename(exe), "args": args})


def modes(mode, n, count):
    """Arguments of n Miri runs"""
    return [["--mode", mode, "--seed", str(seed() * 1000 + i), "--count", str(count)] for i in range(n)]


def asan(bins):
    return build(bins, vlib.NIGHTLY, "asan", flags="-Zsanitizer=address")


def asan_env(exe, agg):
    """LeakSanitizer needs ptrace; where that is forbidden, go without it (Miri finds leaks, too)"""
    e = {"ASAN_OPTIONS": "detect_leaks=1:exitcode=67"}
    r = vlib.run([exe, "--count", "0"], 60, extra_env=e)
    if r.rc != 0:
        agg.count("runs_without_leak_sanitizer")
        e = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=67"}
    return e


@check("C01")
def c01(agg):
    core(agg, "C01", pick(15, 300))
    core(agg, "C01many", pick(8, 150), tag=1)


@check("C02")
def c02(agg):
    core(agg, "C02", pick(15, 300))
    core(agg, "C02big", pick(10, 120), tag=1)


@check("C03")
def c03(agg):
    b = build(["core", "extra"])
    core(agg, "C03", pick(18, 300), exe=b["core"])
    core(agg, "C03long", pick(8, 120), tag=1, exe=b["core"])
    hist(agg, b["extra"], ["--mode", "longseq"], pick(10, 120), tag=2)


@check("C04")
def c04(agg):
    core(agg, "C04", pick(20, 400))


@check("C05")
def c05(agg):
    (b, _) = par(lambda: build(["core", "extra"]),
                 lambda: miri_run(agg, "extra", modes("ctxbusy", pick(6, 48), pick(4, 12)), 400,
                                  flags="-Zmiri-preemption-rate=0.05"))
    core(agg, "C05", pick(18, 400), exe=b["core"])
    hist(agg, b["extra"], ["--mode", "ctxbusy"], pick(12, 200), tag=1)


@check("C06")
def c06(agg):
    b = build(["core", "extra"])
    core(agg, "C06", pick(20, 400), exe=b["core"])
    hist(agg, b["extra"], ["--mode", "localtypes"], pick(8, 120), tag=1)


@check("C07")
def c07(agg):
    (b, n) = par(lambda: build(["core", "extra"]),
                 lambda: build(["extra"], vlib.NIGHTLY25, "n25", features=["nightly"]))
    core(agg, "C07", pick(20, 300), exe=b["core"])
    hist(agg, b["extra"], ["--mode", "conv"], pick(8, 100), tag=1)
    hist(agg, n["extra"], ["--mode", "conv"], pick(8, 100), tag=2, desc={"features": "nightly"})


@check("C08")
def c08(agg):
    (b, a, _) = par(lambda: build(["core", "extra"]), lambda: asan(["extra"]),
                    lambda: miri_run(agg, "extra", modes("refs", pick(8, 48), pick(6, 20)), 400))
    core(agg, "C08", pick(15, 250), exe=b["core"])
    hist(agg, b["extra"], ["--mode", "refs"], pick(12, 200), tag=1)
    hist(agg, a["extra"], ["--mode", "refs"], pick(8, 100), tag=2, desc={"tool": "asan"}, env=asan_env(a["extra"], agg))


@check("C09")
def c09(agg):
    core(agg, "C09", pick(20, 400))


@check("C10")
def c10(agg):
    b = build(["core", "extra"])
    core(agg, "C10", pick(20, 400), exe=b["core"])
    hist(agg, b["extra"], ["--mode", "nested"], pick(12, 200), tag=1)


@check("C11", rule="small random concurrent histories (2-4 threads, 2-4 calls each, plus concurrent expect and "
       "checkpoint of statics), each checked for a linearization against the sequential model; big ones for "
       "conservation of counts; natively with injected delays, under ThreadSanitizer, and under Miri with many "
       "schedules; non-trivial: calls overlapped in time; distinct by interleaving and outcomes",
       assumptions=["ThreadSanitizer and Miri report every data race on the executions they observe"])
def c11(agg):
    (n, t) = par(lambda: build(["conc"])["conc"],
                 lambda: build(["conc"], vlib.NIGHTLY, "tsan", flags="-Zsanitizer=thread", zbuildstd=True)["conc"])
    hist(agg, n, ["--mode", "small"], pick(12, 250))
    hist(agg, n, ["--mode", "stress"], pick(8, 120), tag=1)
    hist(agg, t, ["--mode", "both"], pick(10, 200), tag=2, desc={"tool": "tsan"},
         env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"})
    k = pick(8, 64)
    miri_run(agg, "conc", [["--mode", "both", "--seed", str(seed() * 1000 + i), "--count", str(pick(8, 24))]
                           for i in range(k)], 400, flags="-Zmiri-many-seeds=0..%d -Zmiri-preemption-rate=0.05" % pick(2, 4))


@check("C12", rule="random histories over several threads: expectations with and without single-thread matchers and "
       "providers are set, called and dropped by different threads, every callback records the thread it runs on; "
       "and races of owner and foreign calls; non-trivial: some call was answered and some was refused; distinct by "
       "sequence of operations and outcomes",
       assumptions=["ThreadSanitizer and Miri report every data race on the executions they observe"])
def c12(agg):
    (n, t, _) = par(lambda: build(["threads"])["threads"],
                    lambda: build(["threads"], vlib.NIGHTLY, "tsan", flags="-Zsanitizer=thread", zbuildstd=True)["threads"],
                    # a wrong-thread teardown during a panic leaks on purpose
                    lambda: miri_run(agg, "threads", modes("race", pick(4, 24), pick(4, 12)) +
                                     modes("history", pick(4, 24), pick(3, 10)), 400, flags="-Zmiri-ignore-leaks"))
    hist(agg, n, ["--mode", "history"], pick(15, 250))
    hist(agg, n, ["--mode", "race"], pick(8, 120), tag=1)
    hist(agg, t, ["--mode", "race"], pick(8, 150), tag=2, desc={"tool": "tsan"},
         env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"})


@check("C13", rule="random histories over values, closures, matchers and arguments that are all counted in a ledger, "
       "compared after every single operation with the set of values still owned; the same and the general histories "
       "under AddressSanitizer/LeakSanitizer and Miri; non-trivial: values were created; distinct by sequence of "
       "operations and outcomes",
       assumptions=["AddressSanitizer and Miri report every memory error on the executions they observe"])
def c13(agg):
    k = pick(4, 24)
    (b, a, _) = par(lambda: build(["core", "drops"]), lambda: asan(["core", "drops"]),
                    lambda: (miri_run(agg, "drops", modes("history", 2 * k, pick(8, 20)), 400),
                             miri_run(agg, "core", [["--profile", p, "--seed", str(seed() * 1000 + i), "--samples", "0",
                                                     "--count", str(pick(4, 12))]
                                                    for i in range(k) for p in ("C13", "C13static")], 400)))
    hist(agg, b["drops"], ["--mode", "history"], pick(15, 250))
    e = asan_env(a["drops"], agg)
    hist(agg, a["drops"], ["--mode", "history"], pick(10, 150), tag=1, desc={"tool": "asan"}, env=e)
    for i, p in enumerate(("C13", "C13static")):
        base = seed() * 1000 + 500 + i * 100
        cmds = [[a["core"], "--profile", p, "--seed", str(base + j), "--count", "100000000", "--budget-ms",
                 str(pick(8, 120) * 1000), "--samples", "0"] for j in range(NCPU)]
        for j, r in enumerate(run_many(cmds, 600, extra_env=e)):
            judge_proc(r, agg, {"profile": p, "bin": "core", "tool": "asan", "process_seed": base + j})


@check("C16", rule="random failing and passing histories over methods of every kind (inherent, trait, generic, static, "
       "concretized, async, module and foreign functions, with printable and unprintable arguments); each panic message "
       "is read for type, method, argument, matcher, count and bound, and compared with an independent account; "
       "non-trivial: a call was judged; distinct by operations and outcomes")
def c16(agg):
    b = build(["extra"])
    hist(agg, b["extra"], ["--mode", "msgs"], pick(25, 500))


@check("C18", rule="random calls of concretized methods in every supported parameter form; values, addresses, order and "
       "number of what matchers and closures receive are compared with what the caller passed, mutations with what the "
       "caller sees afterwards; plus model-checked histories over concretized mocks; the same in Miri; non-trivial: a "
       "call was answered; distinct by operations and outcomes")
def c18(agg):
    (b, _) = par(lambda: build(["core", "extra"]),
                 lambda: miri_run(agg, "extra", modes("concid", pick(6, 48), pick(8, 24)), 400))
    core(agg, "C18", pick(15, 250), exe=b["core"])
    hist(agg, b["extra"], ["--mode", "concid"], pick(12, 200), tag=1)


@check("C19", rule="random schedules of calling, polling, moving, completing and dropping the futures and other impl "
       "Trait results of several outstanding calls, judged against the ordinary expectation rules; the same in Miri; "
       "non-trivial: a result was obtained; distinct by operations and outcomes")
def c19(agg):
    k = pick(4, 24)
    (b, _) = par(lambda: build(["core", "asyncs"]),
                 lambda: miri_run(agg, "asyncs", modes("schedule", k, pick(6, 20)) + modes("exclusive", k, pick(6, 20)), 400))
    hist(agg, b["asyncs"], ["--mode", "schedule"], pick(15, 250))
    hist(agg, b["asyncs"], ["--mode", "exclusive"], pick(8, 120), tag=1)


def ffi(agg, i, nfuns, secs, variadic=False):
    """Generate, build and drive one program of foreign functions."""
    name = f"ffi{i}"
    src = os.path.join(vlib.BUILD, "src-" + name)
    gen_ffi.generate(seed() * 100 + i, nfuns, src, vlib.REPO, vlib.HARNESS, variadic)
    b = build(["vhffi"], vlib.NIGHTLY25 if variadic else vlib.T186, name, features=["nightly"] if variadic else [],
              manifest_dir=src, package="vhffi")
    agg.count("generated_functions", nfuns)
    return lambda: hist(agg, b["vhffi"], ["--mode", "ffi"], secs, tag=i, desc={"program": src, "variadic": variadic})


@check("C20", rule="random foreign functions (all scalar types, structs by value, unions, enums, arrays, data and function "
       "pointers, references, up to eleven parameters; blocks of several ABIs, functions defined in the module, variadic "
       "ones) are mocked, and called from gcc-compiled C directly, through a pointer and on another thread, and from Rust; "
       "the bits that matchers and closures see are compared with the bits sent, the bits the caller receives with those "
       "configured, and counts with a model; non-trivial: calls were made; distinct by operations and outcomes",
       assumptions=["gcc implements the C ABI"])
def c20(agg):
    n = pick(2, 10)
    size = pick(60, 120)
    go = par(*([lambda i=i: ffi(agg, i, size, pick(12, 60)) for i in range(n)] +
               [lambda: ffi(agg, n, size, pick(8, 60), True)]))
    for g in go:
        g()


def defs(agg, i, n, edition, toolchain, secs, kind=False):
    """Generate, build and drive one program of definitions."""
    name = f"defs{i}"
    src = os.path.join(vlib.BUILD, "src-" + name)
    its = gen_defs.items(seed() * 1000 + i, n, kind)
    # the newest compilers dislike the parentheses in `&(dyn A + Send)` when they end up elsewhere
    gen_defs.write(src, vlib.REPO, vlib.HARNESS, its, edition, "unused_parens, " if toolchain == "stable" else "")
    b = build(["vhdefs"], toolchain, name, features=["nightly"] if toolchain == vlib.NIGHTLY25 else [],
              manifest_dir=src, package="vhdefs")
    agg.note("compilers", toolchain)
    agg.count("generated_definitions", n)
    agg.note("editions", edition)
    for it in its:
        for f in it[3]:
            agg.note("definition_features", f)
    return lambda: hist(agg, b["vhdefs"], ["--mode", "defs"], secs, tag=i,
                        desc={"program": src, "edition": edition, "toolchain": toolchain})


def fit(agg):
    """The compiler accepts and refuses the same uses of a mock as of the original."""
    flags = vlib.externs("fit", vlib.HARNESS_CRATES)
    d = os.path.join(vlib.BUILD, "src-fit")
    os.makedirs(d, exist_ok=True)
    cases = gen_fit.cases()

    def go(c):
        name, a, b = c
        f = re.sub(r"\W", "_", name)
        try:
            x = gen_fit.compile_one(["rustc", "+" + vlib.T186], flags, os.path.join(d, f + "_o.rs"), a)
            y = gen_fit.compile_one(["rustc", "+" + vlib.T186], flags, os.path.join(d, f + "_m.rs"), b)
        except (RuntimeError, subprocess.TimeoutExpired) as e:
            return name, None, str(e), a, b
        return name, x, y, a, b

    with ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(go, cases))
    for name, x, y, a, b in res:
        if x is None:
            raise vlib.Inconclusive(f"{name}: {y}")
        agg.evaluations += 1
        agg.count("uses_compared")
        agg.count("uses_accepted" if not x[0] else "uses_refused")
        for c in x[0]:
            agg.note("error_codes", c)
        if not gen_fit.agree(x[0], y[0]):
            raise vlib.Violation(f"{name}: the compiler says {x[0] or 'ok'} {x[1][:1]} of the original but {y[0] or 'ok'} {y[1][:1]} of the mock",
                                 {"kind": "fit", "case": name, "original": a, "mock": b, "says": [x, y]})
        agg.nontrivial += 1


@check("C14", rule="random definitions from all documented features (traits, impls, mock!, modules; receivers, generics, lifetimes, "
       "patterns, attributes, associated types, hostile names, macros, editions) must compile under deny(warnings) and their "
       "mocks must do as they are told in generated tests (arguments seen, results, messages, counts); hand-made uses of "
       "originals must be accepted or refused by the compiler exactly as of their mocks; non-trivial: a mock was exercised, or a "
       "use was judged", assumptions=["rustc's verdict on the original defines which uses are right"])
def c14(agg):
    n = pick(3, 16)
    size = pick(70, 120)
    eds = ["2021", "2024", "2018"]
    jobs = [lambda i=i: defs(agg, i, size, eds[i % 3], vlib.T186, pick(5, 30)) for i in range(n)]
    jobs.append(lambda: defs(agg, n, size, "2021", vlib.NIGHTLY25, pick(5, 30)))
    jobs.append(lambda: defs(agg, n + 1, size, "2021", "stable", pick(5, 30)))
    jobs += [lambda i=i: defs(agg, n + 2 + i, size, eds[i % 3], vlib.T186, pick(5, 30), "walk") for i in range(pick(1, 6))]
    jobs.append(lambda: fit(agg))
    for g in par(*jobs):
        if g:
            g()


@check("C15", rule="generated definitions (every item kind, two to five lifetimes, type parameters, traits, attributes, functions each) and the "
       "harness's own mocks are expanded in many fresh rustc processes, under differing environments, directories, file and crate "
       "names, item orders, duplications, subsets and unrelated neighbours; the expansions of each item, less white space, must be "
       "identical; non-trivial: an expansion was compared with an earlier one of the same item",
       assumptions=["rustc -Zunpretty=expanded prints what the macros emitted"])
def c15(agg):
    flags = vlib.externs("fit", vlib.HARNESS_CRATES)
    rustc = vlib.run(["rustup", "which", "--toolchain", vlib.T186, "rustc"], 60).out.strip()  # HOME will change
    root = os.path.join(vlib.BUILD, "src-exp")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    rnd = random.Random(seed())
    jobs = []  # (description, argv, environment, cwd, output file, key of a whole program or None)

    def job(desc, src, group, environment=None, cwd=root, crate="exp", more=(), whole=None):
        out = os.path.join(root, f"out{len(jobs)}")
        cmd = [rustc, "--edition", "2021", "--crate-type", "lib", "--crate-name", crate, "-Zunpretty=expanded",
               "-o", out, *flags, *more, src]
        e = {"RUSTC_BOOTSTRAP": "1"}
        e.update(environment or {})
        jobs.append((desc, cmd, e, cwd, out, group, whole))

    odd = [{"MOCKALL_DEBUG": "1", "HOME": "/nonexistent", "TZ": "Asia/Tokyo", "LANG": "tr_TR.UTF-8"},
           {"CARGO_PKG_NAME": "other", "CARGO_CRATE_NAME": "other", "CARGO_PKG_VERSION": "9.9.9", "CARGO_MANIFEST_DIR": "/tmp", "OUT_DIR": "/tmp"},
           {"PROFILE": "release", "RUST_BACKTRACE": "full", "SOURCE_DATE_EPOCH": "1", "USER": "nobody", "RUST_TEST_THREADS": "1", "CI": "true"}]
    for p in range(pick(2, 12)):
        its = gen_exp.items(seed() * 500 + p, 27, 20)
        group = f"p{p}"

        def prog(name, items, salt, d=root):
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, f"{group}_{name}.rs")
            with open(f, "w") as h:
                h.write(gen_exp.program(items, salt))
            return f

        base = prog("base", its, 0)
        for k in range(pick(3, 8)):
            job("the same again", base, group)
        for k, e in enumerate(odd):
            job(f"another environment: {e}", base, group, e)
        job("another directory", base, group, cwd="/")
        job("another file and crate name", prog("zz", its, 0, os.path.join(root, "x", "src")), group, crate="another")
        for k in range(pick(2, 6)):
            o = its[:]
            rnd.shuffle(o)
            job("another order", prog(f"order{k}", o, 0), group)
            job("unrelated neighbours", prog(f"near{k}", its, 1 + k), group)
            job("only some of the items", prog(f"some{k}", rnd.sample(its, len(its) // 3), 50 + k), group)
        job("each item twice", prog("twice", [x for i in its for x in (i, i)], 0), group)
        job("all items twice", prog("again", its + its, 7), group)
    for f, ty in (("src/lib.rs", "vh"), ("src/bin/core/main.rs", "core"), ("src/bin/extra/main.rs", "extra")):
        for k in range(pick(3, 10)):
            job("the same again" if k != 1 else "another environment", os.path.join(vlib.HARNESS, f), ty, odd[0] if k == 1 else None, crate=ty, whole=ty)

    def go(j):
        r = vlib.run(j[1], 400, cwd=j[3], extra_env=j[2])
        return r

    with ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(go, jobs))
    seen = {}
    for j, r in zip(jobs, res):
        if r.timed_out:
            raise vlib.Inconclusive(f"an expansion timed out: {j[1]}")
        try:
            text = open(j[4]).read()
        except OSError:
            raise vlib.Inconclusive(f"rustc printed no expansion: {r.err[-600:]}")
        os.unlink(j[4])
        if r.rc != 0:
            agg.count("expansions_with_errors")
        agg.count("expansions")
        agg.runs += 1
        pieces = gen_exp.cut(text) if j[6] is None else [("whole", re.sub(r"\s+", " ", text))]
        if not pieces:
            raise vlib.Inconclusive("no item was found in an expansion")
        for key, piece in pieces:
            agg.evaluations += 1
            agg.count("bytes_expanded", len(piece))
            k = (j[5], key)
            if k not in seen:
                seen[k] = (piece, j)
                continue
            agg.nontrivial += 1
            agg.count("comparisons: " + j[0].split(":")[0])
            if seen[k][0] != piece:
                a, b = seen[k][0], piece
                n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                raise vlib.Violation(f"item {key} of {j[5]} expands differently ({j[0]}): ...{a[max(0, n - 120):n + 120]}... and "
                                     f"...{b[max(0, n - 120):n + 120]}...",
                                     {"kind": "expansion", "item": key, "variation": j[0], "first": seen[k][1][1], "second": j[1],
                                      "a": a[max(0, n - 2000):n + 2000], "b": b[max(0, n - 2000):n + 2000]})
    agg.count("items", len(seen))
    agg.samples.append({"item": "p0/r0", "expansion_begins": seen.get(("p0", "r0"), ("", 0))[0][:400]})
    shutil.rmtree(root, ignore_errors=True)


DOUBLE_CARGO = """[package]
name = "vhdouble"
version = "0.1.0"
edition = "2021"

[workspace]

[features]
nightly = ["mockall/nightly", "mockall_double/nightly"]

[dependencies]
mockall = { path = "%s/mockall" }
mockall_double = { path = "%s/mockall_double" }
"""


@check("C17", rule="random programs (module trees with every kind of item and its mock, by hand or by #[automock]; use statements and type "
       "aliases marked with #[double]: nested, grouped, renamed, self, relative, absolute, of all visibilities, in modules and "
       "functions) are compiled without and with cfg(test), optimised or not, and print what each imported name resolves to, compared "
       "with what the generator imported; unsupported forms and missing mocks must not compile under test; non-trivial: a name's "
       "identity was observed, or a program was refused", assumptions=["std::any::type_name tells items apart"])
def c17(agg):
    tools = []
    for tc, feats in ((vlib.T186, []), (vlib.NIGHTLY25, ["nightly"])):
        d = os.path.join(vlib.BUILD, "src-double")
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        for f, t in (("Cargo.toml", DOUBLE_CARGO % (vlib.REPO, vlib.REPO)), ("src/lib.rs", ""),
                     ("Cargo.lock", open(os.path.join(vlib.HARNESS, "Cargo.lock")).read())):
            with open(os.path.join(d, f), "w") as h:
                h.write(t)
        tools.append((tc, vlib.externs("double-" + tc, ["mockall", "mockall_double"], tc, d, feats)))
    root = os.path.join(vlib.BUILD, "double-progs")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    jobs = []
    rnd = random.Random(seed())
    for i in range(pick(42, 160)):
        g = gen_double.Gen(seed() * 1000 + i)
        text = g.program(pick(40, 60))
        f = os.path.join(root, f"p{i}.rs")
        with open(f, "w") as h:
            h.write(text)
        for x in g.feats:
            agg.note("features", x)
        tc, fl = tools[1 if i % 7 == 6 else 0]
        ed = "2018" if i % 5 == 3 else "2024" if i % 5 == 4 else "2021"
        for test in (False, True):
            opts = rnd.choice([[], ["-Cdebug-assertions=off"], ["-O"], ["-Cdebug-assertions=on"]]) + ["--cfg", 'feature="test"', "--cfg", rnd.choice(["mock", "debug", "not_test"])]
            jobs.append((g, f, tc, ["--edition", ed, *fl, *opts, *(["--test"] if test else [])], test, None))
    for k, (name, text) in enumerate(gen_double.REFUSED):
        f = os.path.join(root, f"n{k}.rs")
        with open(f, "w") as h:
            h.write("#![allow(unused, dead_code)] use mockall_double::double;\n" + text + "\nfn main() {}\n")
        for tc, fl in tools:
            jobs.append((None, f, tc, ["--edition", "2021", *fl, "--test"], True, name))

    def go(j):
        n, (g, f, tc, args, test, _) = j
        exe = f"{f[:-3]}_{n}"
        c = vlib.run(["rustc", "+" + tc, "--crate-name", "prog", "-o", exe, *args, f], 300)
        o = None
        if c.rc == 0 and g is not None:
            o = vlib.run([exe] + (["--nocapture", "--test-threads", "1"] if test else []), 60)
            os.unlink(exe)
        return c, o

    with ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(go, list(enumerate(jobs))))
    for (g, f, tc, args, test, refused), (c, o) in zip(jobs, res):
        agg.runs += 1
        mode = "with cfg(test)" if test else "without cfg(test)"
        src = open(f).read()
        if c.timed_out or (o and o.timed_out) or c.rc < 0:
            raise vlib.Inconclusive(f"{f}: timed out")
        if refused:
            agg.evaluations += 1
            if c.rc == 0:
                raise vlib.Violation(f"#[double] silently accepted: {refused}", {"kind": "double-accepted", "program": src, "args": args})
            agg.nontrivial += 1
            agg.count("programs_refused")
            continue
        if c.rc != 0:
            raise vlib.Violation(f"a program with #[double] does not compile {mode}: " + vlib.errors_of(c.err, 14),
                                 {"kind": "double-build", "program": src, "args": args, "errors": c.err[-6000:]})
        if o.rc != 0:
            raise vlib.Inconclusive(f"{f} ends with {o.rc}: {o.err[-500:]}")
        got = dict(re.findall(r"\bID (\S+) (.*)$", o.out, re.M))
        for key, real, mock, statement in g.expected:
            agg.evaluations += 1
            want = mock if test else real
            if got.get(key) != want:
                raise vlib.Violation(f"{mode}, the name {key.split(':')[1]} resolves to {got.get(key)}, not to {want}; it was imported by: {statement}",
                                     {"kind": "double", "key": key, "program": src, "args": args})
            agg.nontrivial += 1
            agg.count("names_resolved_" + ("with_test" if test else "without_test"))
        agg.count("programs")
    agg.samples += [dict(zip(("name", "real", "mock", "statement"), x)) for x in jobs[0][0].expected[:3]]
    shutil.rmtree(root, ignore_errors=True)
