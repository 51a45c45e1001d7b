"""Writes properties.jsonl (kept as a script so that the entries stay consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))
I, C, H, S, F, X = 'inputs', 'configurations', 'histories', 'schedules', 'fault_sequences', 'crash_points'

prop('C01', 'CWT equals its mathematical definition',
 "For every 1D or 2D real input, wavelet, scale vector, padding scheme and normalization, `cwt` returns the inverse DFT of the padded input's DFT times the wavelet sampled at each scale (Nyquist bin halved), unpadded to the input's length (or left padded upon `rpadded=True`), times sqrt(scale) when L2-normalized. With `derivative=True` it also returns the derivative of that same transform with respect to time in units of `1/fs` (or of `t`). The scales it returns are the ones each row was computed at.",
 [I, C], 'all input lengths (odd, even, powers of 2 and neighbours, tiny), batches, wavelets with parameters, scales kinds, padtypes (including None), norms, rpadded, fs/t, dtypes',
 'Tests compare variants of the implementation with each other or look at reconstruction error on a few power-of-2-ish lengths; an error common to all variants (padding offset, Nyquist, derivative scaling, wrong N) goes unseen.',
 ['ssqueezepy/_cwt.py', 'ssqueezepy/wavelets.py', 'ssqueezepy/utils/common.py'],
 [('cwt', '_cwt.py:cwt'), ('Wavelet.__call__/_halve_nyquist', 'wavelets.py:Wavelet'), ('padsignal/p2up', 'utils/common.py')],
 observe=['return values of cwt'])

prop('C02', 'CWT and SSQ execution modes do not change results',
 "`cwt` and `ssq_cwt` give the same outputs (to float precision) with `vectorized` True or False, `cache_wavelet` True, False or None, any FFT `patience`, parallel execution enabled or disabled, and the wavelet passed as a name, a (name, options) tuple or an instance. The same holds for `stft` and `ssq_stft` with parallel execution enabled or disabled. These settings affect speed and memory only.",
 [I, C, H], 'all pairs of execution modes over random signals, wavelets, scales, batches and dtypes, including repeated use of one wavelet instance for different lengths and scales',
 'Tests compare a few modes on one signal and one wavelet each, in one process-wide parallel setting.',
 ['ssqueezepy/_cwt.py', 'ssqueezepy/_ssq_cwt.py', 'ssqueezepy/wavelets.py', 'ssqueezepy/utils/fft_utils.py', 'ssqueezepy/configs.py'],
 [('vectorized/for-loop paths', '_cwt.py:cwt'), ('Psih cache', 'wavelets.py:Wavelet.Psih'), ('FFT patience', 'utils/fft_utils.py:FFT'), ('IS_PARALLEL', 'configs.py')],
 state=[('cached wavelet sampling', 'last sampled filterbank, with its scales, length and Nyquist handling', 'wavelets.py:Wavelet.Psih')])

prop('C03', 'A batched transform equals the transforms of its items',
 "For a 2D input, `cwt`, `ssq_cwt`, `stft`, `ssq_stft` (and `icwt` of a 3D transform) return along the first axis exactly what they return for each row alone, with all options. No item of a batch affects another.",
 [I, C], 'batch sizes 1..5, items of very different content (silent, huge, constant, non-finite), all main options of each transform',
 'Tests run one or two batches of same-kind signals with default options.',
 ['ssqueezepy/_cwt.py', 'ssqueezepy/_ssq_cwt.py', 'ssqueezepy/_stft.py', 'ssqueezepy/_ssq_stft.py', 'ssqueezepy/ssqueezing.py', 'ssqueezepy/utils/stft_utils.py'],
 [('broadcasting over items', '_cwt.py:cwt'), ('per-item squeezing loop', 'ssqueezing.py:ssqueeze'), ('buffer', 'utils/stft_utils.py:buffer')])

prop('C04', 'icwt recovers what cwt transformed',
 "For a band-limited signal within the range of the scales, `icwt(cwt(x)) + mean` reproduces `x` with small error for log, log-piecewise and linear scales, for L1 and L2 normalization, one- and two-integral inversion, for batched inputs, and for transforms returned with or without padding. `x_mean` is added exactly once, and `icwt` is linear in the transform.",
 [I, C], 'random band-limited signals, lengths, wavelets, nv, scaletypes, norms, one_int, rpadded, x_mean, batches',
 'Tests check a handful of chirps with default scales; piecewise scales, batches, x_mean and padded transforms were never combined.',
 ['ssqueezepy/_cwt.py', 'ssqueezepy/utils/cwt_utils.py'],
 [('icwt and its norms', '_cwt.py:icwt'), ('admissibility constants', 'utils/cwt_utils.py:adm_ssq, adm_cwt'), ('scaletype and nv inference', 'utils/cwt_utils.py:infer_scaletype')])

prop('C05', 'STFT equals its mathematical definition',
 "For every input, window, `n_fft`, `win_len`, `hop_len` and padding scheme, column k of `stft` is the one-sided DFT of the window-weighted segment centred at sample k*hop_len of the padded input, with phase referenced to the segment's centre if `modulated=True` and to its start otherwise. With `derivative=True` it also returns the same transform taken with the window's derivative, in physical units of `fs` or `t`.",
 [I, C], 'odd and even n_fft, short windows, string/array/default windows, hops that do and do not divide the length, padtypes, dtypes, batches, fs/t',
 'Tests compare against istft or between own variants; a shift common to forward and inverse, or an error specific to odd n_fft, is invisible to them.',
 ['ssqueezepy/_stft.py', 'ssqueezepy/utils/stft_utils.py', 'ssqueezepy/utils/common.py'],
 [('buffer', 'utils/stft_utils.py:buffer'), ('window & derivative window', '_stft.py:get_window'), ('stft', '_stft.py:stft')])

prop('C06', 'istft inverts stft exactly wherever windows overlap',
 "Whenever the window satisfies the non-zero overlap-add condition, `istft(stft(x))` with the same parameters equals `x` to float precision at every sample, for every length, `n_fft`, `win_len`, `hop_len`, `modulated` and `win_exp`. Its output always has the requested length `N`.",
 [I, C], 'random lengths (also not multiples of the hop), windows, n_fft parity, win_len<n_fft, hop up to the window length, win_exp, dtypes',
 'Tests sweep a small grid of even sizes and integrate the error, and do not localise errors at the edges.',
 ['ssqueezepy/_stft.py', 'ssqueezepy/utils/stft_utils.py'],
 [('overlap-add & window norm', 'utils/stft_utils.py:unbuffer, window_norm'), ('istft', '_stft.py:istft')])

prop('C07', 'Synchrosqueezing conserves the transform',
 "Squeezing only moves coefficients along frequency: at every time, the sum over frequency of the synchrosqueezed transform equals the weighted sum (weights depending only on the scale or bin) of exactly those coefficients of the original transform that are not negligible (magnitude at least `gamma`), each counted once. Nothing is lost at the edges of the frequency range: frequencies outside of it go to its first or last row.",
 [I, C], 'all transforms (CWT, STFT), scaletypes, ssq_freqs, squeezing kinds, gamma values, flipud, parallel or not, batches, frequencies far outside of the range',
 'Tests look at reconstruction error of smooth signals, where a dropped or doubled coefficient disappears in the tolerance.',
 ['ssqueezepy/ssqueezing.py', 'ssqueezepy/algos.py'],
 [('ssqueeze', 'ssqueezing.py:ssqueeze'), ('fused kernels', 'algos.py:ssqueeze_fast'), ('summation kernels', 'algos.py:indexed_sum_onfly')])

prop('C08', 'Coefficients are reassigned to the nearest frequency row',
 "Every non-negligible coefficient is added, at its own time, to the row of the synchrosqueezed transform whose frequency in the returned frequency vector is nearest to the coefficient's phase-transform frequency (in log-frequency for logarithmic bins, with ties and float rounding free), out-of-range ones to the nearest end. The returned frequency vector labels the rows in order, with `flipud` True or False, for any user-given linear, log or log-piecewise frequencies.",
 [I, C], 'random frequency maps including adversarial ones (below, above, at edges of bins), all bin distributions, flipud, CWT and STFT, with and without precomputed frequencies',
 'Tests view only aggregate outcome on a few signals; row/label mismatch (reversal) and off-by-one bins pass them.',
 ['ssqueezepy/ssqueezing.py', 'ssqueezepy/algos.py'],
 [('bin search in kernels', 'algos.py:_ssq_cwt_*, _indexed_sum_*, _ssq_stft*'), ('bin parameters', 'algos.py:_process_ssq_params'), ('ssq_freqs handling', 'ssqueezing.py:ssqueeze')])

prop('C09', 'Output-selection flags do not change the transforms',
 "The transforms returned by `ssq_cwt` and `ssq_stft` do not depend on `get_w`, `get_dWx` or `preserve_transform` for any squeezing function, and the returned original transform, derivative and scales equal those of `cwt`/`stft` with the same options. The returned phase transform is the one which produced the result: squeezing with it again gives the same result.",
 [I, C], 'all flag combinations, squeezing kinds (also functions), orders, difftypes, gamma, batches, dtypes',
 'Tests run the flags one at a time with squeezing="sum" only; other squeezing kinds gave different results with different flags.',
 ['ssqueezepy/_ssq_cwt.py', 'ssqueezepy/_ssq_stft.py', 'ssqueezepy/ssqueezing.py'],
 [('two computation paths: fused and via w', 'ssqueezing.py:ssqueeze'), ('flags', '_ssq_cwt.py:ssq_cwt, _ssq_stft.py:ssq_stft')])

prop('C10', 'Inverse synchrosqueezing recovers the signal and its components',
 "`issq_cwt` and `issq_stft` recover band-limited signals from their synchrosqueezed transforms with small error for every sampling rate, wavelet, window and scaletype supporting it. Given component curves, the components plus the last one (the remainder) sum to the full inverse when curve bands do not overlap, each component equals the inverse of the transform restricted to its band, and times marked -1 contribute nothing.",
 [I, C], 'random signals, fs, wavelets, windows (win_len<n_fft), random curves and bandwidths at and beyond the edges',
 'Tests invert a few chirps at default fs, and components for one signal.',
 ['ssqueezepy/_ssq_cwt.py', 'ssqueezepy/_ssq_stft.py'],
 [('issq_cwt, component inversion', '_ssq_cwt.py:issq_cwt'), ('issq_stft', '_ssq_stft.py:issq_stft')])

prop('C11', 'The phase transform is the instantaneous frequency in Hz',
 "Wherever the transform's magnitude is at least `gamma`, the phase transform is |Im(derivative/transform)/(2*pi)| (for STFT, |bin frequency - that|), in units of `fs`; elsewhere it is infinite. It is never negative or NaN for finite inputs whose squared magnitudes are representable, and does not depend on parallel execution.",
 [I, C], 'random complex transforms spanning many magnitudes, both dtypes, gamma at, below and above magnitudes, zeros, CWT and STFT, trig/phase/numeric differentiation on tones',
 'Tests use the phase transform only through squeezing of smooth signals.',
 ['ssqueezepy/_ssq_cwt.py', 'ssqueezepy/_ssq_stft.py', 'ssqueezepy/algos.py'],
 [('phase_cwt, phase_cwt_num', '_ssq_cwt.py'), ('phase_stft', '_ssq_stft.py'), ('kernels', 'algos.py:phase_cwt_cpu, phase_stft_cpu')])

prop('C12', 'Compiled kernels never touch memory outside of their arrays',
 "No input accepted by the public functions, however hostile (NaN, infinities, zeros, denormals, huge magnitudes, lengths down to the minimum, frequencies outside of the range, unusual strides), makes a compiled kernel read or write outside of the arrays it was given, and the process never crashes.",
 [I, C], 'hostile inputs to every transform, inverse, ridge extractor and public kernel, serial and parallel variants, monitored with bounds checking and guard zones',
 'Tests run with bounds checks off, on benign signals; an out-of-bounds write there is silent.',
 ['ssqueezepy/algos.py', 'ssqueezepy/utils/stft_utils.py', 'ssqueezepy/ridge_extraction.py', 'ssqueezepy/wavelets.py'],
 [('index clamping in kernels', 'algos.py'), ('buffer/unbuffer bounds', 'utils/stft_utils.py'), ('ridge indices', 'ridge_extraction.py')])

prop('C13', 'Parallel kernels are free of data races',
 "Every multi-threaded computation gives the same result as its serial counterpart, for every schedule of its parallel iterations and any number of threads: no two parallel iterations touch one element with at least one writing it, and none depends on what another left behind.",
 [S, I], 'all parallel kernels under permuted iteration orders, shadow-memory monitoring, thread counts 1..8 and repeated stress runs; inputs of many shapes incl. narrow ones',
 'Tests run each parallel kernel once on whatever schedule occurs.',
 ['ssqueezepy/algos.py', 'ssqueezepy/ridge_extraction.py', 'ssqueezepy/utils/stft_utils.py', 'ssqueezepy/wavelets.py', 'ssqueezepy/_gmw.py'],
 [('prange loops over independent columns/rows', 'algos.py'), ('ridge tracking', 'ridge_extraction.py'), ('buffer', 'utils/stft_utils.py')])

prop('C14', 'Calls are pure: no input is modified and no call affects a later one',
 "No public function modifies the arrays, dicts, lists or wavelet instances passed to it (except where documented as in-place), also when it raises. The result of a call depends only on its arguments: the same call gives the same result regardless of what was called before, on which instances, with which options, successfully or not.",
 [H, I, X], 'random sequences of calls over shared wavelet instances, arrays, option dicts and FFT settings, with failing calls and injected exceptions in between, compared with calls in a pristine state',
 'Tests call each function in a fresh context and never check the arguments afterwards.',
 ['ssqueezepy/_cwt.py', 'ssqueezepy/_ssq_cwt.py', 'ssqueezepy/wavelets.py', 'ssqueezepy/utils/fft_utils.py', 'ssqueezepy/_test_signals.py'],
 [('state restoration', '_cwt.py:cwt'), ('caches', 'wavelets.py:Wavelet.Psih, properties'), ('copies before in-place operations', '_cwt.py, _gmw.py, _stft.py')],
 state=[('wavelet length & cached sampling', 'temporarily changed by cwt', 'wavelets.py:Wavelet'), ('FFT patience', 'temporarily changed by cwt', 'utils/fft_utils.py:FFT_GLOBAL')])

prop('C15', 'Padding extends the input exactly as specified',
 "`padsignal` returns the input unchanged in the middle, extended left and right per the padding scheme (zeros, mirror without/with edge repetition, edge value, periodic), with total length the requested one or the next power of 2 as specified, and reports the actual total and side lengths, for 1D and 2D inputs. Every sample of the padded part is a function of its own row only.",
 [I, C], 'all padtypes, lengths 1..several hundred, explicit padlengths of both parities and much longer than the input, both dims, dtypes',
 'Tests check one or two lengths per padtype.',
 ['ssqueezepy/utils/common.py'],
 [('padsignal', 'utils/common.py:padsignal'), ('p2up', 'utils/common.py:p2up')])

prop('C16', 'Scales cover the representable band and describe themselves',
 "Generated scales are positive, strictly increasing, have the requested distribution and number of voices, start low enough that the wavelet reaches the Nyquist rate and end where the chosen preset specifies. Given back as arrays, in either precision and any shape accepted, their distribution, voices and transition point are inferred as generated, and the transforms give the same result as with the string.",
 [I, C], 'all scaletypes and presets, wavelets and parameters, lengths, nv, float32/float64, row/column shapes',
 'Tests use few (N, nv, wavelet) triples; inference thresholds are only exercised near the defaults.',
 ['ssqueezepy/utils/cwt_utils.py'],
 [('make_scales', 'utils/cwt_utils.py'), ('cwt_scalebounds', 'utils/cwt_utils.py'), ('infer_scaletype, logscale_transition_idx', 'utils/cwt_utils.py')])

prop('C17', 'Wavelets match their formulas, norms and analyticity',
 "Sampled in frequency, every built-in wavelet equals its defining formula at every frequency and for every supported parameter value, in both precisions, is always finite, and the analytic ones vanish at negative frequencies. `bandpass`-normed Morse wavelets peak at 2 at their reported peak frequency, `energy`-normed ones have unit energy, orders are mutually orthogonal, and time-domain samples are the centred inverse DFT of the frequency-domain ones.",
 [I, C], 'all wavelets, orders, norms, parameters, scales from below 1 to beyond the length, w of any shape and sign, both dtypes',
 'Tests check one parameter set against a reference and few scales, where overflow to NaN does not occur.',
 ['ssqueezepy/wavelets.py', 'ssqueezepy/_gmw.py'],
 [('wavelet functions', 'wavelets.py, _gmw.py'), ('Wavelet.__call__, psifn, Psih, xifn', 'wavelets.py:Wavelet')])

prop('C18', 'FFT wrappers compute the DFT whatever the backend and history',
 "`fft`, `ifft`, `rfft`, `irfft` of the FFT class equal the DFT of their input for every supported dtype, shape, axis, output length, thread count and `patience`, with or without caching of plans, in any order of calls. Earlier results and inputs are never altered by later calls.",
 [H, I, C], 'random call sequences on one instance with caching on/off, mixing directions, shapes, axes, dtypes, patience; all outputs kept and re-verified at the end',
 'Tests call each transform once per configuration on fresh objects.',
 ['ssqueezepy/utils/fft_utils.py'],
 [('FFT object cache', 'utils/fft_utils.py:FFT'), ('dispatch by patience', 'utils/fft_utils.py:FFT')],
 state=[('plan cache', 'FFT objects by shape, dtype, axis, direction, patience', 'utils/fft_utils.py:FFT')])

prop('C19', 'Defaults come from the configuration file, arguments override them',
 "Any option left unspecified takes its value from the configuration file as it is at call time, any explicitly passed value (including falsy ones such as 0 and False) takes precedence, and `SSQ_PARALLEL=0` in the environment disables parallelism regardless of the configured value. A value configured equals the same value passed explicitly.",
 [C], 'every entry of the configuration file set to non-default values, combined with explicit arguments incl. falsy ones, and with environment flags',
 'Tests run with the shipped file only.',
 ['ssqueezepy/configs.py', 'ssqueezepy/configs.ini', 'ssqueezepy/wavelets.py', 'ssqueezepy/_gmw.py', 'ssqueezepy/_stft.py'],
 [('gdefaults', 'configs.py:gdefaults'), ('IS_PARALLEL', 'configs.py')])

prop('C20', 'Ridge extraction follows the penalized path and removes it',
 "`extract_ridges` returns, for each time, indices within the transform; with zero penalty the first ridge is the per-time maximum of energy, and for a dominant separated component it lies on that component at every time. Each further ridge is what would be extracted after zeroing the energy within the bandwidth of the earlier ones (also next to the first and last rows); returned frequencies and energies are those at the indices, and serial and parallel modes agree.",
 [I, C, S], 'random and structured transforms, more rows than columns and vice versa, all-zero columns, ridges at the edges, n_ridges, bw, penalties, dtypes',
 'Tests extract from a few signals in the middle of the plane with loose tolerances.',
 ['ssqueezepy/ridge_extraction.py'],
 [('forward/backward tracking', 'ridge_extraction.py'), ('ridge removal', 'ridge_extraction.py:extract_ridges')])

prop('C21', 'Precision is what was asked for',
 "Outputs of transforms have the precision of the wavelet or `dtype` option (complex64/float32 or complex128/float64), independent of the input's dtype, `fs` or `t` types, order and options; integer and lower-precision inputs are accepted. With double precision results match a double-precision reference to ~1e-10 relative, i.e. nothing in between is computed in single precision.",
 [I, C], 'all transforms and inverses, input dtypes, wavelet/dtype options, fs/t of python/numpy types, orders, batches',
 'Tests mostly use float64 inputs with default settings and compare with float32 tolerances.',
 ['ssqueezepy/_cwt.py', 'ssqueezepy/_ssq_cwt.py', 'ssqueezepy/_stft.py', 'ssqueezepy/wavelets.py', 'ssqueezepy/ssqueezing.py'],
 [('dtype processing', 'wavelets.py:Wavelet, _process_params_dtype'), ('casts', '_cwt.py:cwt, _stft.py:stft')])

prop('C22', 'Changing time units only relabels frequencies',
 "Multiplying `fs` by c (or dividing the steps of `t` by c) leaves the transforms, scales and synchrosqueezed transforms unchanged, and multiplies the returned frequencies, derivative and phase transform by c. Passing `fs` and passing the equivalent `t` are the same, and scaling the input by a constant scales the linear transforms by it.",
 [I, C], 'fs from 1e-6 to 1e6, equivalent t with any start, all transforms, difftypes, maprange, orders, squeezing',
 'Tests fix fs to 1 or one value.',
 ['ssqueezepy/_ssq_cwt.py', 'ssqueezepy/_ssq_stft.py', 'ssqueezepy/ssqueezing.py', 'ssqueezepy/utils/cwt_utils.py'],
 [('fs and t processing', 'utils/cwt_utils.py:_process_fs_and_t'), ('frequency range', 'ssqueezing.py'), ('derivative scaling', '_cwt.py, _stft.py')])

prop('C23', 'Time-frequency properties of wavelets are the actual moments',
 "Reported center frequencies (energy, peak, continuous-time peak), time and frequency widths equal those numerically computed from the wavelet's samples for every wavelet, scale and length, dimensional or not. Center frequency is inversely proportional to scale, time width proportional, and the product of widths respects the Heisenberg bound of 1/2; formula-based and integration-based values agree at well-behaved scales.",
 [I, C], 'all wavelets and parameters, scales over the usable range, odd and even N, nondim and force_int on/off, repeated and after reset',
 'Tests sweep a few scales at N=4096 with tolerances for default wavelets.',
 ['ssqueezepy/wavelets.py'],
 [('center_frequency', 'wavelets.py'), ('freq_resolution, time_resolution', 'wavelets.py'), ('(a)ifftshift', 'wavelets.py')])

prop('C24', 'Test signals have the specified phase, length and noise level',
 "Each generated sweep has the documented instantaneous frequency, attaining `fmin` and `fmax` at `tmin` and `tmax`, and the length asked for or, if all limits are given and the length is not, the smallest non-aliasing one. Added noise has the requested signal-to-noise ratio (including 0 dB), is reproducible given any seed, and reversed/modulated variants are the documented combinations.",
 [I, C], 'all signals, N, fmin/fmax/tmin/tmax, snr, seeds, modulators, `#` variants, default overrides',
 'Tests generate and plot signals without checking values.',
 ['ssqueezepy/_test_signals.py'],
 [('chirp formulas', '_test_signals.py:TestSignals'), ('noise', '_test_signals.py:TestSignals.make_signals')])

prop('C25', 'Frequencies and scales convert consistently',
 "`scale_to_freq` returns for each scale the frequency (in units of `fs`) at which the wavelet at that scale peaks, `freq_to_scale` returns scales whose peak frequencies span the requested ones in order, and `ssq_cwt` with `maprange='peak'` or `'energy'` spans the corresponding center frequencies of its first and last scales, `'maximal'` 1/duration to Nyquist, and a given pair that pair. `ssq_stft` frequencies are those of the STFT's bins, from 0 to fs/2 for even `n_fft` and to fs*(n_fft-1)/(2*n_fft) for odd.",
 [I, C], 'wavelets, lengths, scale ranges, fs, maprange kinds, padding on/off, scaletypes',
 'Tests check one wavelet and length.',
 ['ssqueezepy/experimental.py', 'ssqueezepy/ssqueezing.py', 'ssqueezepy/wavelets.py'],
 [('scale_to_freq, freq_to_scale', 'experimental.py'), ('frequency range', 'ssqueezing.py')])

prop('C26', 'Non-finite inputs do not poison outputs',
 "By default, `cwt` and `ssq_cwt` of NumPy inputs containing NaN or infinities return exactly what they return with those samples set to zero, for 1D and 2D inputs and any order, and outputs are finite. With `nan_checks=False` nothing is replaced; the replacement utilities change exactly the samples matching their condition.",
 [I, C], 'NaN, +inf, -inf at any positions incl. first/last, single or all samples, one item of a batch, dtypes, orders',
 'Tests use one NaN position.',
 ['ssqueezepy/_cwt.py', 'ssqueezepy/algos.py'],
 [('nan_checks', '_cwt.py:cwt'), ('replace_at_*', 'algos.py')])

prop('C27', 'Index and windowing kernels meet their contracts',
 "All variants of the closest-bin search return an index of a nearest bin (log- or linear-spaced as stated), including for values out of range; indexed summation adds every element to its target exactly once; denormal zeroing and thresholded replacement change exactly the matching elements. Segmenting returns exactly the overlapping windows of its input, and overlap-add with its norm is its weighted inverse.",
 [I, C], 'random arrays and shapes, values out of range and at bin edges, single rows/columns, both dtypes, serial/parallel variants, odd/even segment lengths',
 'Tests time these kernels or check one shape.',
 ['ssqueezepy/algos.py', 'ssqueezepy/utils/stft_utils.py'],
 [('find_closest*', 'algos.py'), ('indexed_sum*', 'algos.py'), ('buffer, unbuffer, window_norm', 'utils/stft_utils.py')])

prop('C28', 'Higher-order CWTs are the transforms with higher-order wavelets',
 "`cwt` with `order=k` equals `cwt` with the order-k Morse wavelet at the scales of the base wavelet, `order` as a sequence gives the list or (default for tuples) the average of them, with all options (batch, norm, derivative, padding). `ssq_cwt` with `order` squeezes that transform using its own time derivative.",
 [I, C], 'orders 0..5 as int/tuple/list/range, average, norms, batches, derivative, rpadded, scales kinds, gamma/beta, dtypes',
 'Tests run one order tuple on one signal and view the outcome.',
 ['ssqueezepy/_cwt.py', 'ssqueezepy/_ssq_cwt.py', 'ssqueezepy/utils/common.py'],
 [('cwt_higher_order', '_cwt.py'), ('trigdiff', 'utils/common.py')])

prop('C29', 'Energy of tones is localized at their frequency and time',
 "For a pure tone within the covered band, the peak row of `ssq_cwt` and `ssq_stft` carries the tone's frequency (per the returned frequencies) to within bin resolution at all interior times, sharper than the un-squeezed transform; for two separated tones both are found, and a frequency change appears at the time it happens. This holds for every sampling rate, wavelet, window, padding and orientation.",
 [I, C], 'tone frequencies over the band, fs, N, wavelets, windows, hops, flipud, scaletypes, padtypes',
 'Tests check a couple of tones by eye or with wide tolerances.',
 ['ssqueezepy/_ssq_cwt.py', 'ssqueezepy/_ssq_stft.py', 'ssqueezepy/ssqueezing.py'],
 [('whole pipeline', '_ssq_cwt.py:ssq_cwt, _ssq_stft.py:ssq_stft')])

prop('C30', 'FFT wisdom faults affect speed only',
 "Whatever the state of the FFT wisdom files at import or use - absent, empty, truncated at any byte, corrupted, from another precision, or left by a process killed while writing - importing and transforming succeed with correct results. Wisdom saved by one instance is loadable by the next.",
 [F, X], 'wisdom files truncated/corrupted at random bytes, missing, swapped, killed writers; followed by transforms with patience',
 'Tests never damage the files.',
 ['ssqueezepy/utils/fft_utils.py'],
 [('load_wisdom, save_wisdom', 'utils/fft_utils.py:FFT')],
 state=[('wisdom files', 'FFTW plans by precision', 'utils/wisdom32, utils/wisdom64')])

prop('C31', 'Invalid arguments are rejected before any work',
 "Arguments outside of the documented domain (dimensions, types, names, non-positive rates, mismatched or non-uniform time vectors, window longer than the FFT, incompatible norms, unsupported combinations) raise an exception naming the argument rather than give a result, and valid neighbours of them are accepted. A rejected call changes nothing.",
 [I, C], 'a catalogue of invalid values per public argument, each with valid neighbours, over random other arguments',
 'Tests assert a handful of error cases.',
 ['ssqueezepy/_cwt.py', 'ssqueezepy/_stft.py', 'ssqueezepy/ssqueezing.py', 'ssqueezepy/utils/common.py', 'ssqueezepy/utils/cwt_utils.py', 'ssqueezepy/_gmw.py'],
 [('argument checks', 'ssqueezing.py:_check_ssqueezing_args'), ('argument checks', '_cwt.py, _ssq_stft.py, _stft.py, utils')])

prop('C32', 'GPU execution gives the CPU results',
 "With GPU execution enabled, every transform returns the CPU's result to float precision.",
 [I, C], 'all transforms on a CUDA device', 'GPU tests are skipped without a device.',
 ['ssqueezepy/algos.py', 'ssqueezepy/utils/gpu_utils.py'],
 [('CUDA kernels', 'algos.py'), ('backend dispatch', 'utils/backend.py')])

prop('C33', 'Numeric building blocks (admissibility, searches, derivatives) meet definitions',
 "`adm_ssq` and `adm_cwt` equal the integrals that define them for every named or user-made analytic wavelet, and `integrate_analytic` the integral of its decaying integrand; `find_maximum` and `find_first_occurrence` return the maximum and the first crossing to within the step, or raise if there is none. `trigdiff` of a band-limited signal is its derivative per sample rate, for any leading shape and padding, and `est_riskshrink_thresh`, `mad` and the unit helpers equal their formulas. `phase_ssqueeze` and `phase_transform` on the outputs of `cwt` or `stft` reproduce what `ssq_cwt` or `ssq_stft` compute from them.",
 [I, C], 'wavelets and their parameters, integrands with known integrals, search functions and steps, signal shapes, sampling rates, paddings, transforms of random signals',
 'Tests check a few admissibility constants and no search or threshold; an error of a constant cancels from comparisons of variants.',
 ['ssqueezepy/utils/cwt_utils.py', 'ssqueezepy/utils/common.py', 'ssqueezepy/algos.py', 'ssqueezepy/experimental.py', 'ssqueezepy/toolkit.py', 'ssqueezepy/_cwt.py'],
 [('adm_ssq, adm_cwt, integrate_analytic', 'utils/cwt_utils.py'), ('find_maximum, find_first_occurrence', 'algos.py'), ('trigdiff, mad, est_riskshrink_thresh', 'utils/common.py'), ('phase_ssqueeze, phase_transform', 'experimental.py')])

prop('C34', 'Plots draw the data they are given and leave it alone',
 "`plot`, `scat`, `plotscat`, `plots`, `imshow` and `hist` draw exactly the given samples, abscissas, tick labels, titles, limits and lines, on the given axes or the current ones, and show only when asked. Wavelet plots and sweeps, filterbanks, heatmaps and higher-order overviews draw what the wavelet evaluates to at the stated scales. No plotting call modifies its arguments, and unrelated axes are left as they were.",
 [I, C], 'data kinds (real, complex, lists, 1 to several curves), styles and options, axes given or not, wavelets, scales and lengths',
 'Tests only run a few plots and look at none of the artists drawn.',
 ['ssqueezepy/visuals.py'],
 [('plot, scat, plots, imshow, hist', 'visuals.py'), ('wavelet_tf, wavelet_filterbank, wavelet_heatmap, sweep_*', 'visuals.py'), ('_ticks, _maybe_title, _scale_plot', 'visuals.py')],
 observe=['matplotlib artists (Agg canvas) after each call'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in P:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
