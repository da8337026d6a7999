"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing against an explicit least-squares projection (QR) oracle", "Every pair's SDR within a conditioning-derived rounding bound of the textbook definition; assumes numpy's QR."),
 "C02": ("property-based testing against an explicit least-squares projection (QR) oracle", "SIR and SAR of every pair against the definition; systems up to order ~100 (quick), SIR unclamped where clamped values hide it."),
 "C03": ("property-based testing with exhaustive enumeration of matchings as oracle", "Optimality judged on the pairwise scores of the same backend; scipy's solver above six channels."),
 "C04": ("differential property-based testing between entry points", "All public routes to the same metric compared; common errors are left to C01 and C02."),
 "C05": ("differential property-based testing of the two backends", "Common errors are left to C01 and C02."),
 "C06": ("metamorphic property-based testing (gains)", "Gains within the range where the normalisation floor of 1e-6 is not reached."),
 "C07": ("property-based testing with mixtures of known score", "Constructed signals with exact decompositions; also that longer filters never lower the SDR."),
 "C08": ("metamorphic property-based testing (padding, delay)", "Relative to the unpadded call; absolute values are left to C01 and C02."),
 "C09": ("metamorphic property-based testing (batch against items)", "Batch shapes of up to three dimensions with unlike items."),
 "C10": ("metamorphic property-based testing (reordering, subsets)", "Ties between matchings are recognised by interval sums."),
 "C11": ("property-based testing of range and identity", "clamp_db from 0.5 to 300 dB, including values beyond what the precision can represent."),
 "C12": ("metamorphic property-based testing (offsets)", "Compared with explicitly centred signals."),
 "C13": ("differential property-based testing of the two solvers", "Well-conditioned systems and at least 20 iterations; tolerance 1e-3 in squared cosine because the iterations stop at a fixed residual."),
 "C14": ("property-based testing against extrapolated finite differences", "Directional derivatives in float64; float32 gradients against float64 ones; finiteness for degenerate estimates."),
 "C15": ("metamorphic property-based testing over memory layouts, with byte snapshots of the inputs", "CPU memory only."),
 "C16": ("stateful property-based testing of call histories and threads against newly imported copies", "Thread schedules are sampled (1 microsecond switch interval), not enumerated."),
 "C17": ("property-based testing of shape, type and precision under other torch defaults", "No accelerator is available: a default device of 'meta' stands in for data on another device than the default."),
 "C18": ("property-based testing with limit and dominance oracles, NaN injection", "Limits are judged with the conditioning-derived bound; SIR only for estimates with a component along the references."),
 "C19": ("property-based testing against scipy and exhaustive search", "Up to 16x16; termination judged by a CPU limit of 20 s per call (typical: milliseconds)."),
 "C20": ("differential property-based testing against interpreters with import faults injected", "Import failures are injected by a meta-path hook; numpy, scipy are always present."),
 "C21": ("property-based testing against the ridge formula, metamorphic removal of silent references", "Formula evaluated in float64 from FFT correlations."),
 "C22": ("property-based testing of algebraic invariants", "Exact relation within 64 rounding units wherever nothing saturates."),
 "C23": ("metamorphic property-based testing (integer against float samples)", "numpy only: torch has no integer path."),
 "C24": ("differential property-based testing of the two precisions", "Bound from the conditioning, growing with length only through log2 N + 0.03 sqrt N."),
 "C26": ("metamorphic property-based testing (time reversal, zero stuffing, block and sample reordering, orthogonal transforms)", "Relative to the untransformed call; absolute values are left to C01 and C02."),
 "C27": ("metamorphic property-based testing (nested and equal subspaces)", "Direct solver; bounds from the conditioning of both problems."),
 "C25": ("differential property-based testing against mir_eval", "Trusts the installed mir_eval 0.8.2; 512 taps, up to 4 sources."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
assert [p["id"] for p in props] == sorted(T), "properties and notes differ"
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -B -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import numpy, scipy, torch, mir_eval, hypothesis\"",
    checks=[dict(property=k, quick_cmd=f"./run.sh {k}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {k}", evidence_file=f"evidence/{k}.json", technique=T[k][0], level="exploration",
                 level_note=T[k][1] + " Sampled inputs: a pass is no proof of absence.") for k in sorted(T)],
    not_applicable=[],
    notes="Each check runs eight worker processes of a seeded Hypothesis search; ./run.sh Cxx --replay FILE re-runs one saved case. No hooks in /repo are needed.",
)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
