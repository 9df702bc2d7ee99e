#!/usr/bin/env python3
"""One line per property: the deciding monitor. Writes techniques.json, used by mkmanifest.py."""
import json, os
T = {
 "C01": "reference-model monitor: every cell of the constructed triangle against cell totals folded from the records",
 "C02": "reference-model monitor: running totals and carried gaps recomputed from the records",
 "C03": "differential monitor: four construction routes observed side by side",
 "C04": "round-trip and conservation monitors over recorded conversion histories",
 "C05": "state monitor: every geometry attribute against the live cells, in random query orders",
 "C06": "reference-model monitor over histories of exclusions and averages",
 "C07": "order-statistics oracle over observed link ratios",
 "C08": "metamorphic monitor: positional comparison of relabelled executions",
 "C09": "metamorphic monitor: dimensional comparison of rescaled executions",
 "C10": "snapshot monitor: everything the caller holds is deep-compared after every call of a random session",
 "C11": "history monitor: every answer compared with that of a fresh object in the same abstract state",
 "C12": "invariant monitor on every summary against an independent projection",
 "C13": "invariant monitor on every cell of the squared triangle",
 "C14": "reference-model monitor plus rejection monitor over factor sequences in every form",
 "C15": "reference-model monitor of Mack's estimators",
 "C16": "reference-model monitor of Mack's recursions on the result's own parameters",
 "C17": "closed-form distribution oracle on every quantile shown, plus rejection monitor",
 "C18": "reference-model monitor of the weighted Spearman statistic, under perturbed generator states",
 "C19": "reference-model monitor of the diagonal count test",
 "C20": "reference-model monitor of the over-dispersed Poisson fit and its residual statistics",
 "C21": "offline checker replaying every recorded replicate, plus seeded statistical monitors of the residual draws",
 "C22": "statistical monitors (probability integral transform, independence) over recorded process error draws",
 "C23": "offline checker recomputing summary and quantiles from the recorded simulations",
 "C24": "history monitor: replayed runs compared under perturbed generators, objects and processes; generator-state hooks",
 "C25": "contract monitor on every entry point that takes quantiles (labels, order, values, rejection)",
 "C26": "reference-model monitor: loads against independently parsed files and recorded digests",
 "C27": "reference-model monitor: queries against direct selection on synthetic databases",
 "C28": "artist monitor: figure contents read back and compared with triangle and projection",
 "C29": "artist monitor: densities, markers, paths and residuals read back and recomputed",
 "C30": "artist monitor: lines, areas and histogram bars read back and recomputed from the recorded simulations",
 "C31": "output monitor: printed text parsed back cell by cell",
 "C32": "differential monitor: DataFrame operations on the triangle against a plain DataFrame of its cells; pickled twin",
 "C33": "artist, file, screen and warning monitors over styled and unstyled exhibits",
 "C34": "consistency monitor over results held at once: options, components, cross-estimator agreement, pickled twins",
 "C35": "rejection monitor plus deep-comparison of state and of an untouched twin's answers after each refusal",
 "C36": "differential monitor of threaded against sequential executions under injected thread switches",
 "C37": "metamorphic monitor: the same data in different numeric representations",
 "C38": "reference-model monitor origin by origin, offline checker over recorded replicates, rejection monitor",
 "C40": "differential monitor under drawn process settings, process-state monitor after each request, other interpreters as twins",
 "C39": "artist monitor: figure contents read back for histories that are not square",
}
json.dump({k: {"tech": v} for k, v in T.items()}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json"), "w"), indent=1)
