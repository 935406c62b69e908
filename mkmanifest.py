#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the checks that exist."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
import checks  # noqa: E402

MODEL = "online monitor: real mocks driven by random histories against a sequential reference model"
NOTE = ("No divergence between mockall and the oracle on the executions counted in the evidence; nothing is "
        "claimed about executions that were not run. Trusts the oracle, the toolchains and the dependencies. ")
T = {
    "C01": (MODEL, "Model-checks the answering expectation, value, arguments and callback runs of every call."),
    "C02": (MODEL, "All range forms, bounds up to 65537 really reached, verification at drop and checkpoint."),
    "C03": (MODEL, "Many sequences across objects, methods, generics and statics; more than 65536 members."),
    "C04": (MODEL, "Checkpoints and drops at random points on all kinds of mock."),
    "C05": (MODEL, "Contexts opened, dropped, dropped while unwinding, checkpointed, module checkpoints."),
    "C06": (MODEL, "Look-alike type arguments, including same-named local types."),
    "C07": (MODEL, "All provider variants, overrides, conversions, stateful closures, nightly defaults."),
    "C08": (MODEL + "; address monitor", "Addresses and contents of returned references are tracked."),
    "C09": (MODEL, "Truth-table matchers over all argument kinds, by position."),
    "C10": (MODEL + "; fault injection by panics", "Panicking callbacks, drops while unwinding; aborts are seen by the parent process."),
    "C11": ("linearizability checker over recorded concurrent histories, conservation under stress, ThreadSanitizer, Miri schedules",
            "Interleavings are sampled with injected delays and Miri's scheduler, not enumerated."),
    "C12": ("thread-id monitors on callbacks, compile-time Send/Sync assertions", "Random cross-thread histories."),
    "C13": ("drop ledger, Miri and AddressSanitizer/LeakSanitizer over random histories", "Sampled histories."),
    "C14": ("generated definitions compiled with warnings denied, then run with behaviour monitors", "Random definitions from the documented feature set."),
    "C15": ("offline comparison of recorded expansions across processes and environments", "Repeated expansions."),
    "C16": ("monitor of panic messages against independently derived facts", "Recognises facts, not exact wording."),
    "C17": ("generated programs report the identity every name resolved to", "Random use trees, test and non-test builds."),
    "C18": (MODEL + "; referent identity monitor", "Concretized arguments' addresses, values, order."),
    "C19": ("poll/drop schedule monitor over mocked async methods", "Random completion orders."),
    "C20": ("C caller recorded on both sides of the ABI", "C code compiled with gcc calls the mocks."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks: only mockall's public API and the compiler's output are observed.",
}
for p in props:
    if p in checks.CHECKS:
        t, n = T[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "technique": t,
            "level": checks.CHECKS[p].level,
            "level_note": NOTE + n,
        })
    else:
        m["not_applicable"].append({"property": p, "reason": "its monitor is not finished yet"})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
