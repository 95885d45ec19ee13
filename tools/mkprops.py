#!/usr/bin/env python3
"""Writes properties.jsonl (the single source for the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

SIM="flamingpy/simulations.py"; CV="flamingpy/noise/cv.py"; IID="flamingpy/noise/iid.py"
DEC="flamingpy/decoders/decoder.py"; MW="flamingpy/decoders/mwpm/algos.py"; MG="flamingpy/decoders/mwpm/matching.py"
LEM="flamingpy/decoders/mwpm/lemon.py"; CPP="flamingpy/cpp/lemonpy.cpp"
UF="flamingpy/decoders/unionfind/algos.py"; UFC="flamingpy/decoders/unionfind/uf_classes.py"
SC="flamingpy/codes/surface_code.py"; SG="flamingpy/codes/graphs/stabilizer_graph.py"; EG="flamingpy/codes/graphs/egraph.py"
ST="flamingpy/codes/stabilizer.py"; VIZ="flamingpy/utils/viz.py"; OPS="flamingpy/cv/ops.py"; GKP="flamingpy/cv/gkp.py"

p("C01","Monte Carlo error count is exact over any number of processes",
  "For every number of trials and every number of MPI processes (serial runs, no communicator, and more processes than trials included), the requested trials are executed exactly once each across all processes, and the error count returned by the serial run or by rank 0 equals the number of executed trials whose correction failed. The count does not depend on how the processes interleave or how long the messages between them take.",
  ["schedules","configurations","fault_sequences"],
  "every trials>=0, mpi size>=1, code, noise and decoder; every interleaving of the ranks, every message delay, slow or stalled ranks",
  "The tests run one process with a fixed handful of trial counts; no test runs more than one rank, so distribution and reduction of the trials over ranks are never exercised.",
  [SIM],[("ec_monte_carlo trial partition and Reduce",SIM),("ec_mc_trial",SIM)],
  state=[("local_successes","successful trials of this rank",SIM)],observe=["return value of ec_monte_carlo","errors, trials and mpi_size columns of the results row"])
p("C02","No two ranks or jobs of a simulation share a noise stream",
  "Every MPI rank of a Monte Carlo job draws its noise from its own pseudo-random stream, different from the stream of every other rank, whatever the machines' clocks read when the ranks start (equal, skewed or stepped). Two jobs started at different clock readings, and two jobs run one after the other by the same process, draw different noise, and within one rank successive trials continue one stream instead of restarting it.",
  ["schedules","fault_sequences","configurations"],
  "every mpi size, every vector of per-rank start-up clock readings (skew, steps, equal readings), every number of trials",
  "Tests use one rank and an explicitly seeded generator; they never start two processes with two clocks and never compare the streams of ranks.",
  [SIM,IID,CV],[("int_time seed read at import and default_rng seeding per rank",SIM)],
  state=[("int_time","clock-derived seed, read once per process",SIM)],observe=["noise realisation of every trial of every rank","logged seed"])
p("C03","Results file survives concurrent jobs, crashes and disk faults",
  "However jobs that share a results file interleave, and wherever any of them is killed or hits a disk error, the file starts with exactly one complete header line and contains the complete row of every job that finished successfully exactly once, unaltered. A job that fails adds at most its own row and never damages, hides or duplicates a row of another job. Only rank 0 of a job writes, exactly one row per job, and no row appears unless every rank of that job contributed its trials.",
  ["schedules","crash_points","fault_sequences"],
  "every interleaving of file-system calls of 1..n jobs sharing one file, a kill at any file-system or message operation, ENOSPC / EIO / short writes at any write, existing, absent or previously torn file",
  "The tests write one file from one process on a healthy disk; no schedule of two writers, no crash and no I/O error is ever produced.",
  [SIM],[("exclusive-create then append protocol in run_ec_simulation",SIM)],
  state=[("results file","CSV with one header and one row per job",SIM)],observe=["bytes of the results file after every run"])
p("C04","Each results row states exactly the job that was run",
  "After a successful job the row appended to the results file, read with a CSV reader under the header of that job, gives back the code, noise and decoder names, every argument value, the error count, the number of trials and the number of processes of that job, a wall-clock time between start and end of the job, and a simulation time equal to the elapsed monotonic time even if the wall clock jumps. The command-line entry point accepts the documented decoder spellings with the same outcome, and an invalid decoder is rejected before anything is run or written.",
  ["inputs","configurations","fault_sequences"],
  "every code/noise/decoder argument set (including tuple and list values), trials and mpi size, existing or new file, every wall-clock jump during the job",
  "The tests check the header text and the last column of one configuration; no argument value containing a comma, no clock jump and no reread of a whole row is tested.",
  [SIM],[("CSV writing in run_ec_simulation",SIM),("command-line parsing under __main__",SIM)],
  observe=["bytes of the results file","exception type of rejected invocations"])
p("C05","A seed fixes the whole pipeline run",
  "Two runs of the same code, noise, decoder and options with generators in the same state produce identical state labels, measurement outcomes, bit values, weights, recovery and verdict, whatever the hash seed, object addresses, wall clock, previous unrelated work in the process, or the state of global random generators. A run given a generator draws from that generator only and leaves every other generator untouched.",
  ["schedules","histories","configurations"],
  "every seed and configuration; every assignment of object identities/hash seeds, every clock, every prior history in the process",
  "Tests run each seed once in one process; a dependence on object addresses, hash seeds, or hidden random sources only shows as a difference between two runs under different conditions.",
  [CV,IID,DEC,UF,UFC,MG,SG,SC],[("rng threaded through apply_noise",CV),("explicit orderings instead of set orders",SC)],
  observe=["node attributes after each stage","verdict","state of numpy and random global generators"])
p("C06","Trials on reused objects do not influence each other",
  "A trial (noise, decoding, verdict) on code and noise objects that have been through any history of earlier trials, with any noise models, decoders and options, including trials aborted by an exception at an arbitrary point, produces exactly what the same trial produces on freshly built objects with the generator in the same state. (IID noise sets bit values only: state labels that an earlier CV layer put on the same code remain part of its state, which the Union-Find decoder reads.) Two noise layers or codes that share only user-supplied arguments do not influence each other either, and user-supplied arguments are not modified.",
  ["histories","crash_points","fault_sequences"],
  "every sequence of trials with any mix of noise parameters and decoders on the same code; an interruption (exception) injected at any executed line of any trial",
  "Tests reuse module-scoped fixtures without comparing against fresh objects, and no test interrupts a trial half way.",
  [CV,IID,DEC,SC,SG,SIM],[("per-trial overwrite of node attributes and of CVLayer.states",CV),("assign_weights overwrites weights",DEC)],
  state=[("states","state label to indices; regenerated per trial",CV),("node attributes","state, bit_val, hom_val_*, p_phase_cond, weight",EG)],observe=["node attributes of the syndrome qubits","verdict"])
p("C07","Decoding always terminates and clears the syndrome",
  "For every pattern of bit values and erasures on every supported code (both error complexes, all boundary types, anisotropic dimensions), each decoder (MWPM on every matching backend and stabilizer-graph backend, Union-Find) terminates within a bounded number of steps and the recovery it applies leaves every stabilizer of the decoded complex with even parity. The recovery flips only syndrome qubits of that complex.",
  ["inputs","configurations","histories"],
  "every error and erasure pattern, code size, boundary, error complex, backend and internal iteration order; sequences of rounds on one code",
  "The tests sample a few dozen random noise realisations on small cubic codes; rare cluster-merge orders, boundary touches and erasure shapes are not reached.",
  [DEC,MW,MG,UF,UFC,SG,ST,LEM,CPP],[("union_find growth loop, spanning forest, peeling",UF),("matching and path flipping",MW),("recovery",DEC)],
  observe=["stabilizer parities recomputed from the lattice","set of flipped qubits"])
p("C08","Every error within the code distance is corrected",
  "On a code of distance D (the extent along the direction(s) in which a logical error must cross), starting from any even-syndrome state without logical error, every set of s flipped qubits and e heralded erasures with 2s+e < D is corrected with success reported, by Union-Find, and by MWPM for e = 0, on every backend. This holds at every position including boundaries and across repeated rounds.",
  ["inputs","histories","configurations"],
  "every placement of at most floor((D-1)/2) faults (plus erasures for Union-Find) over all boundaries, both complexes, anisotropic dimensions of at least 3 in periodic directions; repeated rounds of faults and decoding on one code",
  "Tests check success for zero or random noise; a decoder that mis-corrects one placement in a thousand or only at a boundary passes them.",
  [DEC,MW,MG,UF,UFC,SG,SC],[("shortest paths plus minimum-weight matching",MG),("erasure-aware cluster growth",UF),("boundary points",SC)],
  observe=["verdict returned by correct","logical parity recomputed independently"])
p("C09","MWPM recovery has minimum weight on every backend",
  "The set of qubits flipped by the MWPM decoder has the minimum total weight among all sets of qubits that explain the syndrome, for the weights assigned to the qubits (uniform, or integer-rounded blueprint weights), and this minimum is the same for the networkx, rustworkx and lemon matching backends, given by name or as a matching graph type, and both stabilizer-graph backends.",
  ["inputs","configurations"],
  "every syndrome and integer weight assignment; every code boundary, complex and dimension; every backend pair",
  "Tests compare matchings of random graphs between backends and single-fault syndromes, never the weight of the actual recovery with the true optimum on the lattice.",
  [MW,MG,LEM,CPP,SG,DEC],[("shortest paths in stabilizer graph",SG),("min_weight_perfect_matching of each backend",MG),("virtual boundary points",MG)],
  observe=["set of flipped qubits and their weights"])
p("C10","The verdict is true exactly when no logical error remains",
  "After decoding, the reported verdict is success if and only if no logical operator was applied, i.e. the combined effect of noise and recovery crosses every correlation surface an even number of times, in each of the directions that matter for the boundary type; and since all stabilizers are even, every parallel surface gives the same answer. The verdict is the same with and without sanity checking, and depends on the state only through bit values of the syndrome qubits.",
  ["inputs","histories","configurations"],
  "every residual error pattern with even syndrome (trivial, stabilizer loops, logical operators in every direction and class), every boundary, complex, dimension; after every decoder",
  "Tests count success rates; which of the eight logical classes is reported, and in which direction a surface is taken for anisotropic or toric codes, is not distinguished by them.",
  [DEC,SC,EG],[("check_correction",DEC),("slice_coords",EG)],
  observe=["return value of check_correction and correct"])
p("C11","CV layer outcomes follow the drawn states, noise and entanglement",
  "For every sequence of random draws and every layer configuration, each qubit carries exactly one state label (p-squeezed with the requested probability or at the requested indices, GKP otherwise), each homodyne outcome equals the entangled combination of that qubit's and its graph neighbours' own fresh noise with the standard deviation prescribed for their states and the sampling order, and each syndrome bit is the chosen translation of that qubit's own outcome. Qubits designated as perfect get no noise. Outcomes and bit values asked for by mode index are those of that qubit.",
  ["inputs","histories","configurations"],
  "every generator stream (including extreme and impulse draws), delta, p_swap in [0,1], given p indices, sampling order, code, polarity, perfect qubits; every position in a sequence of repeated applications",
  "The tests check shapes, averages and a few labels after one application; a swapped neighbour, a wrong variance for one state or a stale label in the n-th application is statistically invisible.",
  [CV,OPS,GKP,EG],[("populate_states, measure_hom, inner_decoder",CV),("SCZ_apply",OPS)],
  state=[("states","label to indices",CV)],observe=["state, hom_val_p, hom_val_q and bit_val node attributes versus recorded draws"])
p("C12","Macronode reduction gives the right labels, bits and probabilities",
  "For every sequence of random draws, a reduced qubit is labelled GKP exactly if its macronode contains a GKP micronode, its bit value is 0 or 1 and its phase error probability lies in [0, 1/2]. In the limit of vanishing noise every stabilizer whose qubits have no p-squeezed neighbour has even parity; for finite noise the bit value and probability are the published function (arXiv:2104.03241) of the micronodes' state labels and homodyne outcomes.",
  ["inputs","histories","configurations"],
  "every generator stream, swap-out pattern, delta, boundary type, code dimension; repeated applications on one layer; user-supplied beamsplitter network",
  "The tests compare one implementation detail at a time on tiny lattices; parity of the reduced lattice under arbitrary swap-out patterns is not checked.",
  [CV,EG,OPS,GKP],[("CVMacroLayer.apply_noise and helpers",CV),("macronize",EG)],
  observe=["state, bit_val, p_phase_cond of reduced graph"])
p("C13","IID noise flips each qubit independently with its own draw",
  "Applying IID noise sets the bit of every qubit of the code from a fresh draw of the supplied generator: one with the given probability, independently of every other qubit and of previous bits, never for probability 0, always for probability 1. Probabilities outside [0,1] are rejected at construction, and nothing but the bit values changes.",
  ["inputs","histories","configurations"],
  "every generator stream including draws at the extremes of [0,1), every probability in [0,1] and outside, every code; repeated applications",
  "Tests check p=0, p=1 and averages; reuse of one draw for two qubits or dependence on the previous bit is not visible.",
  [IID],[("apply_noise",IID)],observe=["bit_val attributes versus recorded draws"])
p("C14","Graph states stay consistent through any edit history",
  "After any sequence of adding and removing qubits, generating indices and adjacency matrices, macronizing and rejected (erroneous) operations, a graph state's qubits, edges, index maps and macronode map agree with each other and with the sequence of accepted operations: indices and points are mutually inverse over exactly the present qubits, indices of untouched qubits never change, and the adjacency matrix, sparse or dense as requested, lists exactly the present edges in index order. A rejected operation leaves the graph state unchanged.",
  ["histories","inputs","fault_sequences"],
  "every history of add_qubit / remove_qubit / index_generator / adj_generator / macronize with valid and invalid arguments, plain and macronode graph states",
  "Each test performs one or two operations on a fresh graph; caches invalidated or indices regenerated in the wrong order need longer histories.",
  [EG],[("add_qubit, remove_qubit, index_generator, adj_generator",EG)],
  state=[("to_indices/to_points","mutually inverse index maps",EG),("adj_mat","cached adjacency matrix",EG),("macro_to_micro","macronode to micronodes",EG)],observe=["public attributes and return values"])
p("C15","Pipelines in concurrent threads do not interfere",
  "Pipelines (code construction, noise, decoding, verdict) that run in different threads of one process on their own objects and generators each produce exactly the result they produce when run alone, for every interleaving of the threads.",
  ["schedules"],
  "every preemption schedule at line granularity of 2..4 threads with any mix of codes, noise models and decoders",
  "No test runs two threads; a module-level cache or shared mutable default breaks only under particular interleavings.",
  [DEC,MW,MG,UF,UFC,SG,SC,CV,IID,EG],[("no shared mutable module state",DEC)],observe=["node attributes and verdict per thread"])
p("C16","Inspecting and drawing never changes a simulation",
  "Interleaving any inspection operation (drawing the graph, stabilizer graph or decoding, sanity checks, getters, index and adjacency generation, matching-graph construction, noise matrices) between the steps of a pipeline, including inspections that fail, changes neither the random stream consumed, the state of the global generators, nor any result of the pipeline, nor the qubits, edges and their attributes. Drawing a decoding with valid options never makes the decoding fail.",
  ["histories","fault_sequences"],
  "every placement of inspection calls, successful or failing (e.g. drawing errors, failing output), between and within pipeline steps",
  "Tests call drawing functions only to see that they do not crash, never comparing a pipeline with and without them.",
  [DEC,SC,EG,CV,VIZ,MG,SG],[("sanity_check and draw options",DEC),("draw functions",VIZ)],observe=["node attributes and verdict with and without inspections"])
p("C17","Decoder weights always reflect the current noise realisation",
  "At the moment of decoding, the weight of every syndrome qubit is the documented function of the present noise realisation: uniform weights, heralded-erasure weights for Union-Find from the present state labels, or the blueprint log-probability weights (optionally scaled and rounded) from the present state labels, outcomes or error probabilities. The stabilizer graph used for decoding carries exactly these weights, whatever was decoded on the same code before and with whichever decoder and options; an unsupported combination is rejected without producing a verdict.",
  ["histories","inputs","configurations"],
  "every sequence of noise applications and decodings with different decoders and weight options on one code; every delta, multiplier, swap-out pattern",
  "Tests check weights once on a fresh code; a stale weight from an earlier round with other options is not visible there.",
  [DEC,SG],[("assign_weights",DEC),("StabilizerGraph.assign_weights",SG)],
  state=[("weight","node attribute and stabilizer-graph edge data",DEC)],observe=["weight attributes of syndrome qubits","edge weights of the stabilizer graph"])
p("C18","Missing optional components do not change results",
  "When the optional components (MPI bindings, compiled lemon matching) cannot be imported, the package still imports and every code, noise model, decoder backend and serial simulation that does not need them produces exactly the same results as with them present. A decoder backend that needs a missing component fails with an error and never returns a wrong verdict.",
  ["fault_sequences","configurations"],
  "every subset of optional components (MPI bindings, lemon extension, file locking) failing to import, wholly or in part, with any kind of ImportError",
  "The test environment has one fixed set of installed components.",
  [SIM,LEM,"flamingpy/__init__.py"],[("try/except around optional imports",SIM),("try/except around lemonpy",LEM)],observe=["results of the pipeline with and without the component"])
p("C20","GKP binning and conditional phase-error probability",
  "The binning function maps every real outcome to the parity of the closest integer multiple of sqrt(pi), with its fractional part, and the (conditional) phase error probabilities are the documented normalised sums, lying in [0, 1].",
  ["inputs"],"every outcome, variance and summation range",
  "Tests sample a few values.",[GKP],[("integer_fractional, GKP_binner, Z_err, Z_err_cond",GKP)],observe=["return values"])
p("C21","LC-equivalence test is sound and complete",
  "Two graph states are reported LC-equivalent exactly if a local Clifford maps one to the other, and the returned Clifford does so.",
  ["inputs"],"every pair of graphs of equal size","Tests check a list of small known pairs.",
  ["flamingpy/utils/linalg.py",EG],[("are_lc_equivalent","flamingpy/utils/linalg.py")],observe=["return value"])
p("C22","Symplectic matrices preserve the symplectic form",
  "The matrices for CZ gates and the four-splitter are symplectic, and applying them in one shot or block-wise to vectors or matrices gives equal results, sparse or dense.",
  ["inputs"],"every adjacency matrix and quadrature array","Tests sample random small matrices.",
  [OPS],[("SCZ_mat, SCZ_apply, splitter_symp",OPS)],observe=["return values"])
p("C23","Codes and graph states have the documented structure in any process history",
  "Whatever a process built, used, edited or failed to build before (constructions aborted at any point, polarity functions that raise, objects of the same description that were edited), every newly built RHG lattice, surface code and standard graph state has the documented structure for its size, boundary and polarity: the RHG lattice (boundaries given by name or as any sequence of three) has exactly the documented qubits with their types and exactly the documented edges with the weights of the polarity function; a surface code numbers its qubits in sorted order, each of its stabilizers is a unit cell of its complex, each syndrome qubit lies in at most two stabilizers, and syndrome and boundary coordinates and the stabilizer graph agree with them; star, complete, ring and linear graph states have the documented edges. Objects built earlier keep their structure, and arguments are not modified.",
  ["histories","configurations","crash_points"],
  "every dimension, boundary combination, polarity and graph-state size, in every order of constructions, uses and edits in one process, with constructions interrupted at any line",
  "Tests check small cubic sizes, each on its own in a fresh fixture, and never interrupt a construction.",
  [SC,SG,ST,EG,"flamingpy/utils/graph_states.py"],[("RHG_graph, SurfaceCode.identify_stabilizers, identify_boundary",SC),("standard graph states","flamingpy/utils/graph_states.py")],
  state=[("module-level state","none today; any shared list, cache or graph would be visible to later constructions",SC)],observe=["nodes, edges and their attributes","stabilizers, syndrome and boundary coordinates, stabilizer graph"])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False)+"\n" for x in P))
print(len(P))
