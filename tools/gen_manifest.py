#!/usr/bin/env python3
"""MANIFEST.json from the check modules and properties.jsonl"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {
    "N01": "a pure function of its operands: no concurrency, time, I/O or history for a schedule or a fault to act on (sequences of calls under VPREC are part of P03, P12)",
    "N02": "a compile-time transformation of one input program without nondeterminism; the driver's stages and faults around it are P20",
    "N03": "a statistical statement about the generator's distribution, not about schedules or faults; bounds on each single perturbation are part of P14",
    "N04": "PRISM is header-only template code inlined at compile time with per-thread generators seeded from the system; it needs the C++ Highway dependency, which is not installed here, so it cannot be built or simulated",
    "N05": "interactive Bokeh server rendering in a browser: no browser here, and the display is a function of the stored files (whose completeness is P18)",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/props/%s.py" % i.lower()):
        m = importlib.import_module("props." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "deterministic simulation with fault injection: " + m.RULE.split(";")[0], "level": m.LEVEL,
                       "level_note": "seeded search, up to %d cases (quick) / %d cases (thorough); every run repeatable from its seed; assumptions: %s" % (
                           m.BUDGET["quick"][0], m.BUDGET["thorough"][0], "; ".join(m.ASSUMPTIONS))})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks were added to the repository: the simulator sits behind the library calls the code already makes (link-time and preload seams, the interflop handler table, the Python modules' own imports)", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check rebuilds the code under test from /repo's working tree into a scratch directory below /tmp and removes it. VERIF_SEED selects the seed, VERIF_TIME / VERIF_CASES / VERIF_JOBS limit a run; 'python3 check.py replay FILE' repeats a recorded violation."},
          open(V + "/MANIFEST.json", "w"), indent=1)
