"""Generates MANIFEST.json from the check modules (level notes live here)."""
import json, glob, os

T = {
 "C01": ("runtime monitor: every returned value vs independent transfer-matrix oracle, generated stacks", "Exploration of generated stacks; trusts the reference transfer-matrix code (mon/ref/optics.py) and float tolerance scaled by conditioning."),
 "C02": ("runtime monitor: every returned value vs independent E-field RCWA oracle, generated patterns", "Exploration; trusts the reference RCWA (mon/ref/optics.py), ill-conditioned structures not judged."),
 "C03": ("metamorphic monitor over pairs of real simulations", "Exploration of structure/transformation pairs; needs no reference solution."),
 "C04": ("runtime invariant monitor (finiteness, passivity, energy balance)", "Exploration; lossless balance allows the documented relaxation loss."),
 "C05": ("runtime monitor: autograd gradients vs symmetric differences of the real outputs", "Exploration of structures and directions; two known degenerate inputs reported as KNOWN-FINDING."),
 "C06": ("recorded detector traces of every simulation grid vs independent Yee simulation (offline trace checker)", "Exploration of configurations; all field samples of both runs compared."),
 "C07": ("runtime monitor: settled FDTD spectra vs thin-film oracle and vs the TRCWA solver", "Exploration; tolerance is the scheme's discretisation error."),
 "C08": ("runtime monitor on synthetic signals vs independent extraction and the amplitude-square law", "Exploration of signal pairs incl. lengths at the window limits."),
 "C09": ("step-by-step state monitor: complete fields after every step vs independent Yee simulation, plus causality/linearity/absorption monitors", "Exploration of grids and components; trusts mon/ref/yee.py."),
 "C10": ("runtime monitor: loss values and training logs vs own formula on recorded designs", "Exploration of spectra and runs."),
 "C11": ("history monitor: torch hooks record every evaluated design; offline checker recomputes logs and best design", "Exploration of trajectories; spectra of recorded designs recomputed with the code under test."),
 "C12": ("fault injection (NaN schedules enumerated) with a trace monitor of parameters, rates and logs", "All failure subsets of short runs enumerated, longer ones sampled."),
 "C13": ("history monitor: equal configurations under different preceding histories, processes and hash seeds", "Exploration; single-threaded numerics."),
 "C14": ("runtime monitor: recorded network evaluations vs returned permittivity grid", "Exploration of outputs, bounds and shapes."),
 "C15": ("runtime monitor: recorded network evaluations vs returned likelihoods and permittivities", "Exploration of outputs and shapes."),
 "C16": ("runtime monitor: collections vs independently parsed tables; directory order fault-injected", "Exploration of frequency lists; all shipped tables used."),
 "C17": ("runtime monitor: point membership oracle on histories of built layers", "Exploration of geometries."),
 "C18": ("runtime monitor: frequency grids vs closed formulas", "Exploration of ranges and counts."),
 "C19": ("flaw injection: one flaw per entry enumerated at every entry point, acceptance monitor for valid ones", "Flaw catalogue enumerated over all entries; base configurations sampled."),
 "C20": ("history monitor: snapshots at save time vs loaded runs, file tree watched", "Exploration of save/load histories in a scratch folder."),
 "C21": ("history monitor: deep snapshots of arguments and process state around every call; results vs pristine process", "Exploration of interleavings over three worlds."),
 "C22": ("artist monitor: data read back from the real figures vs independent data", "Exploration of run shapes; colours not judged."),
 "C23": ("runtime monitor: recorded coordinates/outputs of real models, re-evaluation and back-propagation", "Exploration of sizes and shapes."),
 "C24": ("process monitor: script run in scratch, file tree and stored runs/pictures vs direct runs", "Exploration of folders."),
 "C25": ("history monitor: recorded parameters vs independently carried Adam state (online trace prediction)", "Exploration of trajectories; gradients of spectra taken from the code under test (C05)."),
 "C26": ("differential monitor: powers of every diffraction order vs independent E-field RCWA at oblique incidence", "Exploration of a continuous domain; tolerance derived from the sensitivity of the reference."),
 "C27": ("axiomatic monitor: returned fields vs Maxwell's equations, boundary conditions, power balance and quadrature", "Exploration of a continuous domain; no reference solution needed, the fields are judged by the equations."),
 "C28": ("artist and file monitor: pictures and stored readings of real simulations vs the fields and components observed", "Exploration of grids, planes and readings."),
}
ch = []
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mon/checks/c[0-9]*.py"))):
    m = os.path.basename(f)[:-3]
    p = m.split("_")[0].upper()
    t, n = T[p]
    ch.append({"property": p, "quick_cmd": f"./check.sh {m} quick", "thorough_cmd": f"./check.sh {m} thorough", "evidence_file": f"evidence/{p}.json", "technique": t, "level": "fault_enumeration" if p == "C12" else "exploration", "level_note": n})
json.dump({"version": 1, "setup_cmd": "true", "checks": ch, "not_applicable": [], "notes": "No hooks in /repo: all monitors attach from outside (torch global hooks, wrapped constructors, recorded outputs). Fix commits are listed in known_findings.jsonl."}, open("MANIFEST.json", "w"), indent=1)
print(len(ch))
