#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property that has a check module; the others are listed as not claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("sanitizers (ASan+UBSan) over generated and mutated command lines and input files", "No report, crash or silent end on the commands run; says nothing about code not reached. Trusts gcc's sanitizer runtimes."),
 "C02": ("thread-count and seeded-schedule differential runs, ThreadSanitizer under a controlled OpenMP runtime", "Observed schedules only; TSan sees every access of the runs through a pthread OpenMP stand-in."),
 "C03": ("runtime monitor of exit status, error text and file effects over generated valid and invalid requests", "Catalogue of request rules taken from the documentation; the directory is snapshotted before and after."),
 "C04": ("runtime monitor: kernels recorded by the real program judged by an independent global-matrix solver", "Agreement to about 1e-6 on the models explored; trusts the reference solver (numpy, validated against half-space solutions)."),
 "C05": ("runtime monitor: recorded traces judged by independent wavenumber sums and inverse transforms", "Exact where the wavenumber grid is pinned, tolerance of the adaptive methods otherwise."),
 "C06": ("metamorphic runtime monitor over pairs of real runs", "Relations between runs; tolerances follow the truncation settings, which are pinned where possible."),
 "C07": ("runtime monitor: recorded static Green's functions judged by an independent static solver and Mindlin's solution", "As C04/C05 for the static problem."),
 "C08": ("runtime monitor: recorded synthetics judged by moment-tensor algebra on the recorded library", "Single precision rounding of the outputs is the only slack."),
 "C09": ("runtime monitor: recorded synthetics and pulses judged by direct time-domain reference", "Circular convolution with the documented damping, float rounding slack."),
 "C10": ("runtime monitor: recorded derivatives judged by finite differences of recorded displacements", "Tolerance set by finite-difference truncation, estimated per case from two steps."),
 "C11": ("runtime monitor: recorded strain, rotation and stress judged by tensor algebra on the recorded derivatives", "Floating-point slack only; attenuation reference as documented in DESIGN.md."),
 "C12": ("runtime monitor: recorded static synthetics judged by independent interpolation and fault geometry, and by Mindlin's solution", "Floating-point slack on randomised libraries; 4-10 percent physical check for half-spaces."),
 "C13": ("runtime monitor: recorded analytic results judged by Mindlin's point-force solution integrated over the fault", "Quadrature and differencing slack; independent of Okada's formulas."),
 "C14": ("runtime monitor: recorded times judged by an independent ray and head-wave search", "Reference minimisation converges to 1e-9; slack for the printed precision."),
 "C15": ("runtime monitor: recorded dispersion judged by an independent secular function and mode count", "Every reported value is checked; completeness judged by an independent count on the models explored."),
 "C16": ("runtime monitor: recorded eigenfunctions judged by ODE residuals, finite differences of recorded dispersion and perturbed-model runs", "Tolerances follow the output sampling."),
 "C17": ("runtime monitor: recorded modal sums judged by independent summation over recorded modes and by pole residues of the independent kernel", "Covers the modes recorded by the program's own search."),
 "C18": ("runtime monitor: recorded Lamb solutions judged by limits, symmetries and an independent Cagniard evaluation", "Slack of the numerical quadrature in the reference."),
 "C19": ("differential runtime monitor: Python interface and command line on the same request", "Equality up to float rounding; also snapshots caller arguments."),
 "C20": ("runtime monitor of every output header, attribute, name and text conversion", "Checks the values against the request and against the binary data."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --thorough", evidence_file=f"evidence/{i}.json",
                           technique=T[i][0], level="exploration", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason="no check built yet; nothing is claimed"))
fl = set()
import re
for c in checks:
    s = open(os.path.join(V, "checks", c["property"].lower() + ".py")).read()
    m = re.search(r"^FLAVORS\s*=\s*(.*)$", s, re.M)
    fl |= set(re.findall(r'"(\w+)"', m.group(1))) if m else {"plain"}
json.dump(dict(version=1, setup_cmd="/opt/pygrt-venv/bin/python -m vlib.build " + " ".join(sorted(fl)), checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check observes the real program through its files, exit status, sanitizer runtimes or a stand-in OpenMP runtime."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
