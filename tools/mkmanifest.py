"""Writes MANIFEST.json from the checks present in props/."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {   # property: (technique, assurance)
 'C01': ('runtime monitor: every call checked against an independent double-precision reference model', 'every coefficient of every generated transform compared with an explicit evaluation of the definition'),
 'C02': ('differential runtime monitor across execution modes', 'each recorded call repeated under other modes and compared; FFTW planning (patience>0) only on small inputs'),
 'C03': ('runtime monitor: batched call vs calls on its items', 'items compared one by one, including isolation of one item\'s perturbation'),
 'C04': ('runtime monitor: round-trip and reference-model oracles on recorded transforms', 'reconstruction of band-limited signals within bounds; admissibility constants from quadrature independent of the code'),
 'C05': ('runtime monitor: every call checked against explicit DFT sums', 'every coefficient compared'),
 'C06': ('runtime monitor: round-trip oracle', 'sample-exact reconstruction wherever window overlap is non-zero'),
 'C07': ('runtime monitor: conservation checker over recorded transforms', 'column sums of input and output compared, in- and out-of-range and negligible coefficients counted'),
 'C08': ('runtime monitor: placement checker over every coefficient (trace oracle)', 'every coefficient of a recorded transform is located in the output; ties within rounding may go either way'),
 'C09': ('differential runtime monitor across output options', 'each recorded call repeated under other options'),
 'C10': ('runtime monitor: round-trip and definition oracles', 'inversions compared with band sums of the recorded transform'),
 'C11': ('runtime monitor: every phase value checked against its quotient', 'every value compared; magnitudes whose squares are representable'),
 'C12': ('sanitizer: bounds-checked builds of the kernels + guard zones + crash monitor under hostile workloads', 'out-of-bounds accesses reached by the workload raise (NUMBA_BOUNDSCHECK), or corrupt guard zones, or crash the worker'),
 'C13': ('race detection: shadow-memory monitor of prange iterations, permuted schedules, thread-count stress', 'conflicting accesses of distinct iterations in the executions observed'),
 'C14': ('runtime monitor: random call histories vs pristine instances, with injected failures and input hashing', 'state after each history compared with a fresh one'),
 'C15': ('runtime monitor: every sample checked against index-map model', 'every sample compared'),
 'C16': ('runtime monitor: invariants of generated scales and inference round trip', 'sampled configurations'),
 'C17': ('runtime monitor: every sample checked against formulas in double precision', 'sampled wavelets, parameters, scales'),
 'C18': ('runtime monitor: random histories of FFT calls checked against DFT, with retained outputs re-verified', 'sampled histories'),
 'C19': ('runtime monitor: configuration perturbation vs explicit arguments', 'every configured entry perturbed'),
 'C20': ('runtime monitor: extraction checked against executable model of penalized path and removal', 'sampled transforms'),
 'C21': ('runtime monitor: dtype checker plus double-precision reference', 'sampled calls'),
 'C22': ('metamorphic runtime monitor: rescaled units and amplitudes', 'sampled calls'),
 'C23': ('runtime monitor: reported moments vs independent quadrature', 'sampled wavelets and scales'),
 'C24': ('runtime monitor: generated signals vs analytic phase, length and noise model', 'sampled configurations'),
 'C25': ('runtime monitor: frequency maps vs independent peak location', 'sampled configurations'),
 'C26': ('metamorphic runtime monitor: non-finite inputs vs zeroed inputs', 'sampled calls'),
 'C27': ('runtime monitor: kernel contracts against executable specifications', 'sampled arrays'),
 'C28': ('runtime monitor: higher-order outputs vs reference model', 'sampled calls'),
 'C29': ('runtime monitor: localization of tones in recorded transforms', 'sampled tones'),
 'C30': ('fault injection: wisdom files damaged, writers killed; outcome monitored', 'faults enumerated over sampled offsets'),
 'C31': ('runtime monitor: catalogue of invalid arguments with valid neighbours', 'catalogue entries over random contexts'),
 'C33': ('runtime monitor: each result vs quadrature, exhaustive evaluation or formula', 'sampled wavelets, functions, signals'),
 'C34': ('runtime monitor: recorded matplotlib artists vs the data passed, argument hashing', 'sampled plotting calls on a headless canvas'),
}
NA = {'C32': 'needs a CUDA device with cupy and torch, which this sandbox does not have; no execution to monitor'}
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
present = {os.path.basename(p)[:3].upper() for p in glob.glob(HERE + '/props/c[0-9][0-9].py')}
checks, na = [], []
for p in props:
    i = p['id']
    if i in present:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick',
                           thorough_cmd=f'python3 check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=T[i][0],
                           level='fault_enumeration' if i == 'C30' else 'exploration',
                           level_note=T[i][1] + '. Held on the executions observed; says '
                           'nothing on inputs the workload does not reach. Trusts the '
                           'reference model, NumPy and SciPy.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup_check.py',
         hooks=dict(guard='SSQV_HOOKS', enable='none needed: monitors attach from the '
                    'harness, /repo carries no instrumentation', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
