"""Writes MANIFEST.json.  Run after adding a property module."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    "C01": ("seeded simulated histories with crash points; one-step refinement against reference equations", "Every step of every sampled history is compared with an independent statement of the energy balance; sampled, not exhaustive."),
    "C02": ("seeded simulated histories with crash points; one-step refinement against reference equations", "Every step of every sampled history is compared with an independent statement of the exponential relaxation; sampled, not exhaustive."),
    "C03": ("seeded simulated histories with crash points; conservation invariant", "Budget closure is checked at every step of the sampled histories, within rounding."),
    "C04": ("seeded simulated histories with crash points, restart of the package as reference", "A reused model is compared, up to rounding, with a fresh model after arbitrary sampled histories."),
    "C05": ("seeded simulated batches with crash points; run-alone reference", "Each scenario is compared, up to rounding, with a run of its own; sampled batches."),
    "C06": ("instruction-level fault injection with retry; undisturbed shadow execution as reference", "Crash points are sampled from all instructions of the package's own code; libraries are atomic."),
    "C07": ("seeded instruction-level thread scheduler; run-alone reference", "Preemption at any instruction of the package's own code; libraries are atomic under the simulated scheduler."),
    "C08": ("seeded simulated histories with crash points; input fingerprints and aliasing probes", "Fingerprints of all inputs, defaults and earlier results after every sampled operation."),
    "C09": ("seeded simulated histories with rejected calls; shadow execution without them as reference", "Kinds of bad input are a fixed list, positions in the history are sampled."),
    "C10": ("two simulated replicas fed one history in different units, with crash points", "Unit table of the simulator is independent of the unit library; equality up to rounding."),
    "C11": ("seeded simulated histories with crash points; eigen-analysis oracle at random instants", "Conversions are judged against an eigenvalue analysis of the equations with the parameters in force."),
    "C12": ("seeded simulated histories with crash points; matrix-exponential reference and step refinement", "Agreement with the exact solution within rounding; convergence of the forward differencing at first order."),
    "C13": ("seeded simulated histories with crash points; refinement against a table model of the result", "Every row and label of every returned set is compared with an expected table."),
    "C14": ("seeded simulated sequences of scenario sets with crash points; time-step oracle", "Annual, monthly and unsupported axes in sampled orders."),
    "C15": ("simulated terminal, clock, interpreter restart and random state with fault injection", "The environment seams are stubs; results compared bitwise with a quiet environment."),
    "C16": ("simulated disk with fault injection (I/O errors, short reads, torn, replaced and missing files)", "The disk under one directory is simulated; results compared with runs from memory."),
    "C17": ("seeded simulated histories with corrupted and foreign series; noise-free shadow execution as reference", "Results with and without the noise are compared up to rounding."),
    "C18": ("bounded liveness after forcing stops changing, from states reached by seeded histories with crash points", "Step bound derived from the slowest timescale; only stable parameters."),
    "C19": ("paired simulated runs whose future drivers differ or are corrupted, with crash points", "Results up to the point of change are compared up to rounding."),
    "C20": ("simulated git processes with fault injection at every invocation", "git is a stub scripted per invocation; versions compared with an independent rendering."),
    "C23": ("process deaths at sampled instructions, restart from saved models, copies going their own way; uninterrupted execution as reference", "Deaths are sampled from the instructions of the package's own code; what survives is exactly what was pickled before."),
}
NA = [
    {"property": "C21", "reason": "convert_lambda_to_ecs is a pure function of two arguments: no schedule, clock, fault, state or history for a simulator to decide."},
    {"property": "C22", "reason": "A comparison of two files in the repository at rest: no execution of the system is involved."},
]

checks = []
for p in sorted(NOTES):
    if not os.path.exists(os.path.join(HERE, "sim", "props", p.lower() + ".py")):
        NA.append({"property": p, "reason": "check not built yet"})
        continue
    t, n = NOTES[p]
    checks.append(
        {
            "property": p,
            "quick_cmd": "./check --property %s" % p,
            "thorough_cmd": "./check --property %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection: " + t,
            "level": "exploration",
            "level_note": n,
        }
    )
doc = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": sorted(NA, key=lambda d: d["property"]),
    "notes": "No hooks in /repo: every seam is one Python already offers (module restart, subprocess.Popen, sys.stderr, tqdm's clock, file access, sys.monitoring events on the package's own code objects). See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(doc, fh, indent=1)
    fh.write("\n")
