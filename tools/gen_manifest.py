"""Writes /verif/MANIFEST.json from the properties and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('online value monitor with float64 reference oracle', 'Every log_prob/prob value the real code returned was compared with an independently written float64 density; rounding bounds are per-term. Trusts NumPy/SciPy special functions.'),
 'C02': ('offline statistical monitor over recorded samples (PIT/independence, two-stage)', 'Samples drawn by the real code are transformed with the true CDFs; false-alarm chance per test below 1e-15, so small deviations of the law below the sample resolution are not seen. Trusts the random generator of TensorFlow with one intra-op thread.'),
 'C03': ('run-time shape/dtype contract monitor over randomised shape knowledge', 'Announced static shapes are compared with run-time shapes for randomised placeholders of known, partial and unknown shape.'),
 'C04': ('online value monitor: batched vs element-wise reference', 'Every element of every batched result is compared with the float64 reference at that position.'),
 'C05': ('gradient-flow monitor: vector-Jacobian products vs pathwise/finite-difference oracle', 'Gradients of the real graph are judged per draw; finite differences of the reference density bound the accuracy to about 1e-6.'),
 'C06': ('fault injection of invalid arguments with must-raise / must-not-raise monitors', 'Every injected invalid argument has to raise, every valid one must not; both statically visible and only dynamically visible faults.'),
 'C07': ('model-based history monitor (shadow net) over random construction histories', 'A Python shadow model is stepped next to the real BayesianNet; every query answer is compared after each step.'),
 'C08': ('isolation monitor over nested, failing, repeated and concurrent observe() histories', 'Observes are driven through nesting, exceptions and threads with switch points injected; every node value is attributed to the observe that must own it.'),
 'C09': ('differential monitor across construction routes', 'All construction routes are given the same arguments and their values, shapes, dtypes, gradients and samples are compared.'),
 'C10': ('differential monitor: node vs value tensor in the same operation', 'Each operation is executed on the node and on its tensor in one session run.'),
 'C11': ('online monitor of objective values against enumeration/closed form', 'Objective values are recomputed from recorded per-sample log densities; exact posterior cases give the log evidence.'),
 'C12': ('gradient monitor: surrogate vs finite differences at recorded noise', 'Gradients are compared with float64 derivatives of the objective at the recorded noise.'),
 'C13': ('estimator monitor: exact enumeration over latents plus moving-mean history monitor', 'Expected gradients are exact sums over all latent configurations; the moving mean is tracked run by run under several schedules.'),
 'C14': ('estimator monitor: exact enumeration over latents plus per-sample signal oracle', 'Expected gradients are exact sums over all K-sample configurations.'),
 'C15': ('gradient monitor: normalised-weight score formula at recorded samples', 'Gradients are compared per draw with the formula in float64.'),
 'C16': ('trace monitor replaying each HMC transition in NumPy', 'Every transition is replayed in float64 from the reported momentum and step size.'),
 'C17': ('history monitor of the adaptation recursions', 'Step size and mass are tracked by shadow recursions over random flag histories.'),
 'C18': ('statistical invariance monitor (chains started in the target)', 'Two-stage tests with false-alarm chance below 1e-15; small biases below the resolution are not seen.'),
 'C19': ('trace monitor replaying each SGMCMC update, residual law test', 'Residuals after the deterministic part must be Gaussian with the documented variance (two-stage tests).'),
 'C20': ('schedule perturbation with delay injection and atomicity monitor', 'Delays are injected in front of reads and gradients; interleavings are sampled, not enumerated.'),
 'C21': ('online monitor: log density vs Jacobian determinant of the recorded map', 'Jacobians are taken from the real graph and their determinants compared with the returned log densities.'),
 'C22': ('event-log monitor over session runs of AIS, telescoping replay', 'All session.run calls of an AIS run are recorded and replayed.'),
 'C23': ('online value monitor with direct definition as oracle', 'Direct float64 evaluation of the definition.'),
 'C24': ('online value/gradient monitor with float64 reference', 'Direct float64 evaluation with extreme and infinite entries.'),
 'C25': ('graph monitor: reference dependency cone and order checker on random graphs', 'Returned lists are compared with an independently computed cone.'),
 'C26': ('replay monitor: complete programs executed again under the same seed, results compared bit for bit', 'Rebuilds, second sessions, thread counts, generator states and hash seeds are sampled; one intra-op thread.'),
 'C27': ('frame monitor: snapshots of all variables around every run of complete programs', 'Every variable of the graph is compared bit for bit around every run; changes inside a run that are undone are not seen.'),
 'C29': ('differential monitor: expressions built in every context of a graph against the same expression built plainly; law and freshness monitor for draws in loops', 'Contexts, their combinations and inputs are sampled; expressions creating variables are not put in control flow.'),
 'C30': ('monitor of reported attributes against the arguments and the computations; objects rebuilt from what they report', 'Objects, routes and arguments are sampled.'),
 'C31': ('leak and growth monitor: operation counts around runs, finalized graphs, weak references to dropped graphs', 'One surviving graph per program is tolerated (a bounded cache); memory inside TensorFlow is not observed.'),
 'C28': ('crash/resume histories under the shadow monitors of C13, C17 and C19', 'Histories are stopped at random points between runs, checkpointed and resumed in new sessions and rebuilt graphs; the shadows are not told.'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, 'zsmon', 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': 'bash check.sh ' + p,
                       'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p,
                       'technique': T[p][0], 'level': 'exploration', 'level_note': T[p][1]})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: all monitors attach to the public API.'}, f, indent=1)
    f.write('\n')
print(len(checks), len(na))
