#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist under dst/checks."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
NOTES = {
    "C01": ("seeded schedules of simulated MPI ranks (delays, stalls, preemption) against known per-trial verdicts",
            "Real simulation driver, codes, decoders and noise on simulated ranks; mpi4py and clocks are stubs. Trusts the collective semantics of the fake MPI."),
    "C02": ("seeded clock skews, jumps and quantised clocks on simulated MPI ranks and jobs; noise realisations and generator streams compared pairwise",
            "Clock readings are simulated; distinctness is decided on >=64 bits of drawn noise, so a false alarm needs a 2^-60 coincidence."),
    "C03": ("seeded interleavings of jobs at every file-system call with kills, torn and short writes, EIO, full disk; file history checked exactly-once",
            "File semantics come from the real kernel files of a scratch directory behind the interposed calls; process crashes are modelled, power loss (fsync) is not."),
    "C04": ("simulated jobs with clock jumps and skews; the row reread with a CSV reader is compared with the job that was run",
            "Covers run_ec_simulation and the command line entry executed as __main__."),
    "C05": ("the same seed executed under different identity hashes, hash seeds, clocks, entropy and histories; full outputs compared",
            "Identity hashes of package classes are seeded through a seam; set order of tuples and ints also through subprocesses with other PYTHONHASHSEED values."),
    "C06": ("seeded histories of trials with exceptions injected at arbitrary executed lines, compared with fresh objects",
            "The reference is the same code on fresh objects, so errors common to every history are left to the other properties."),
    "C07": ("multi-round error and erasure histories under permuted identity-hash orders, aborted decodes and every backend; syndrome recomputed by an independent lattice model",
            "Termination is decided as a bound on executed lines / wall time far above the observed maximum."),
    "C08": ("seeded adversarial fault placements below the distance over repeated rounds; independent lattice model decides syndrome and logical class",
            "Exploration over sampled placements plus systematically placed boundary cases, not exhaustive."),
    "C09": ("seeded syndromes and weights; recovery weight compared with an exact independent optimum and across backends",
            "The optimum is computed by shortest paths and subset dynamic programming on the independent lattice model, up to 16 odd stabilizers; larger syndromes are compared across backends."),
    "C10": ("injected residual states (stabilizer loops, logical operators) and decoded histories; verdict compared with the independent lattice model",
            "Logical class decided by parities over all parallel correlation surfaces of the independent model."),
    "C11": ("scripted and recorded generator streams (impulse, extreme draws) driven through the layer; outcomes compared with a small reference model",
            "The reference derives the expected outcome from the recorded draws."),
    "C12": ("scripted generator streams and repeated applications; reduced labels, bits and probabilities compared with the published rule and with noiseless parity",
            "The reference reads the micronodes' labels and homodyne outcomes from the macronode graph."),
    "C13": ("scripted generator streams with extreme draws; each bit compared with its own draw over repeated applications",
            "Draw-to-qubit order is taken as node order when it explains the result; otherwise a per-qubit comparison over several streams decides."),
    "C14": ("seeded edit histories with rejected operations and injected exceptions against a reference model of the graph",
            "The reference model is a dictionary of nodes, edges and indices."),
    "C15": ("threads of one process under a seeded line-level scheduler; every result compared with a solo run",
            "Preemption at line granularity of package code; C extensions run atomically."),
    "C16": ("inspections and failing inspections injected between the steps of a pipeline; results and generator state compared with the plain run",
            "Drawing runs real matplotlib on the Agg backend."),
    "C17": ("seeded histories of noise and decodings with mixed decoders and options; weights at decode time compared with the documented function",
            "Weights are read from the qubits and from the stabilizer graph at the moment the decoder runs."),
    "C18": ("import failures of optional components injected per simulated process; results compared with the complete installation",
            "The lemon extension is compiled from the current sources for the comparison."),
    "C23": ("seeded histories of constructions, uses, edits, constructions aborted at arbitrary lines and failing polarity functions; every object compared with an independent lattice model",
            "Extents up to 9 (20 along one direction), at most 100 unit cells; the model generates coordinates by parity rules and shares no code with the package."),
}
NA = {
    "C20": "pure function of its numeric arguments: no schedule, clock, I/O, randomness or history for a simulator to control; deciding it needs input generation or proof, not simulation",
    "C21": "pure function of two adjacency matrices: nothing for a scheduler or fault injector to control",
    "C22": "pure linear algebra of its arguments: nothing for a scheduler or fault injector to control",
}
checks, na = [], []
for pid, (tech, note) in NOTES.items():
    if (ROOT / "dst" / "checks" / f"{pid.lower()}.py").exists():
        checks.append({"property": pid, "quick_cmd": f"./dstctl check {pid}",
                       "thorough_cmd": f"./dstctl check {pid} --tier thorough",
                       "technique": "deterministic simulation with fault injection: " + tech,
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
na += [{"property": k, "reason": v} for k, v in NA.items()]
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./dstctl --help > /dev/null", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: all seams are interposed from outside (module images, os/io/time/"
             "random/fcntl calls, a fake mpi4py).",
}, indent=1) + "\n")
