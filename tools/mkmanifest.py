#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitoring: generated declarations and hostile token streams through the real derives, outcomes judged by a reference model of the documentation"
META = "runtime monitoring: metamorphic relations between recorded runs of the derived code"
COMP = "runtime monitoring of the compiler: diagnostics and expanded source of generated declarations"
T = {f"C{i:02}": MODEL for i in range(1, 31)}
T["C09"] = META + " (permutations, re-spacing, trailing comma)"
T["C16"] = "runtime monitoring: offline check of recorded histories (order, repetition, threads, processes)"
T["C15"] = "runtime monitoring: token soup and fuzzing of every derived parser under a panic hook, abort detection and a CPU watchdog"
T["C12"] = "runtime monitoring: recorded source positions of every span compared with the positions of the tokens of the input"
T["C22"] = "runtime monitoring: printed token trees (with positions and spacing) compared with a model printer"
T["C23"] = "runtime monitoring: round trips between the derived parser and the derived printer, token by token"
T["C25"] = MODEL + "; generic declarations and their hand-instantiated twins"
T["C24"] = COMP + ", verdicts of the documented rules"
T["C26"] = COMP + "; behaviour in hostile scopes against the reference model"
T["C27"] = COMP + ", compared across processes, orders and positions"
T["C28"] = COMP + ", dumped code compared with the normal expansion"
T["C29"] = "runtime monitoring: exhaustive small combinations of the value types' operations against boolean logic"
NOTE = "Held on every execution observed: randomly generated declarations and inputs from VERIF_SEED, plus systematic families; no claim beyond them. Trusted: the oracle (model of the documentation, independent of the generated code), syn/quote/proc-macro2, rustc."
checks = [dict(property=p, quick_cmd=f"./run.sh {p}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p}", evidence_file=f"evidence/{p}.json", technique=T[p], level="exploration", level_note=NOTE) for p in sorted(T)]
m = dict(version=1, setup_cmd="cargo +1.98.1-x86_64-unknown-linux-gnu build --offline -q --manifest-path engine/Cargo.toml --target-dir .build/target", checks=checks, not_applicable=[],
         notes="No hooks in /repo: everything is observed through the public API of the derived code and through the compiler. Every check builds what it needs from /repo's working tree.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
