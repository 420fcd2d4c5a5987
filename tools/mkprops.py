"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
A="ssqueezepy/algos.py"; SQ="ssqueezepy/ssqueezing.py"; SC="ssqueezepy/_ssq_cwt.py"; SS="ssqueezepy/_ssq_stft.py"
C="ssqueezepy/_cwt.py"; ST="ssqueezepy/_stft.py"; SU="ssqueezepy/utils/stft_utils.py"; W="ssqueezepy/wavelets.py"
G="ssqueezepy/_gmw.py"; F="ssqueezepy/utils/fft_utils.py"; CU="ssqueezepy/utils/cwt_utils.py"; CM="ssqueezepy/utils/common.py"
B="ssqueezepy/utils/backend.py"; GU="ssqueezepy/utils/gpu_utils.py"; CF="ssqueezepy/configs.py"; INI="ssqueezepy/configs.ini"
R="ssqueezepy/ridge_extraction.py"; TS="ssqueezepy/_test_signals.py"; TK="ssqueezepy/toolkit.py"; V="ssqueezepy/visuals.py"; EX="ssqueezepy/experimental.py"

p("C01","Parallel routines give results independent of thread scheduling",
  "Every routine that spreads loop iterations over CPU threads returns the same result for every thread count and every interleaving. No two concurrently running iterations write the same element of an output, and none reads an element that another one writes.",
  ["schedules","inputs"],"all inputs of the multi-threaded squeezing, phase, nearest-bin, replacement, framing and ridge routines; all thread counts and interleavings",
  "A race shows up only under particular interleavings and only for inputs that make two iterations collide; the tests run each routine on one machine, mostly once.",
  [A,SU,R,W,G],[("prange loops over an output axis","algos.py _*_par"),("frame-parallel buffering","utils/stft_utils.py _buffer_par"),("ridge tracking","ridge_extraction.py __accumulated_penalty_energy_*p")])
p("C02","Reassignment only ever writes inside the transform",
  "For every reassignment frequency that is finite - below, on or above the target frequency grid - the row a coefficient is moved to lies within the rows of the output, in both orientations, for linear, logarithmic and piecewise-logarithmic grids, with or without threads and on GPU. Coefficients whose reassignment frequency is infinite (below threshold) are skipped, and every other index written or read by these routines stays within its array.",
  ["inputs"],"all transforms, reassignment frequencies, grids, orientations, and loop variants",
  "The routines are compiled without bounds checks, so an out-of-range row silently corrupts memory; tests only feed frequencies a real transform produces, which rarely leave the grid.",
  [A],[("clamping of the row index","algos.py _ssq_cwt_*, _ssq_stft*, _indexed_sum_*"),("GPU thread guards and clamps","algos.py _kernel_codes")])
p("C03","Serial, multi-threaded and GPU variants compute the same function",
  "For every operation that exists in several variants (single-threaded, multi-threaded, GPU), all variants compute the same function of the same inputs: same selection of elements, same formula, same target element, same treatment of the options.",
  ["inputs","configurations"],"all inputs and option values of squeezing, phase transform, nearest-bin search, replacement, framing, wavelet evaluation and ridge tracking, in all variants",
  "Tests compare variants on a few random inputs at one option setting, and GPU variants are never executed on a machine without one; boundary inputs (at a grid edge, at the threshold, infinite) are not sampled.",
  [A,SU,W,G,R],[("variant pairs","algos.py fn / fn_par"),("GPU kernels","algos.py _kernel_codes, phase_*_gpu; utils/stft_utils.py _buffer_gpu"),("wavelet triples","wavelets.py _morlet/_morlet_par/_morlet_gpu; _gmw.py _gmw_*")])
p("C04","One-pass and two-step computation of the same transform agree",
  "Synchrosqueezing computed in one pass from the transform and its derivative equals computing the phase transform first and then squeezing with it, for coefficients off the threshold itself, for every grid type and orientation. Likewise the wavelet transform computed for all scales at once equals the one computed scale by scale, for single and batched input, with and without the derivative.",
  ["inputs","configurations"],"all inputs, thresholds, grids, orientations; vectorized and per-scale CWT with and without derivative",
  "Tests compare the two routes on two signals at default thresholds, within a tolerance that hides differences at few coefficients.",
  [A,SC,SS,SQ,C],[("fused kernels","algos.py ssqueeze_fast"),("two-step","algos.py phase_*_cpu + indexed_sum_onfly"),("vectorized / loop","_cwt.py cwt")])
p("C05","Squeezing moves each retained coefficient once, along frequency only",
  "Each coefficient whose magnitude exceeds the threshold is added exactly once to the output, in its own time column, multiplied by the weight of its own source row, at the row of the target grid nearest to its instantaneous frequency |Im(derivative/coefficient)|/(2 pi) (for the STFT, row frequency minus that phase derivative); all others contribute nothing. Nearest means nearest in linear or in log2 frequency according to the grid, counted from the grid's other end when the output is flipped; spacings, thresholds, weights and the last row used for it are those of the call. When no derivative is supplied, the phase derivative is the finite difference of the requested order (or the increment of the unwrapped phase), with the ends of the record taken as adjacent.",
  ["inputs"],"all transforms, derivatives, thresholds, weights, grids and orientations",
  "Tests check variants against each other and reconstruction error of a few signals; a formula or indexing change shared by variants, or one confined to rare coefficients, passes.",
  [A,SQ],[("squeezing kernels","algos.py _ssq_cwt_*, _ssq_stft, _indexed_sum_*"),("phase kernels","algos.py _phase_cwt, _phase_stft"),("nearest-bin search","algos.py _find_closest_*"),("grid parameters","algos.py _get_params_find_closest_log, _process_ssq_params")])
p("C06","Returned frequencies label the rows of the synchrosqueezed transform",
  "For every accepted combination of transform type, orientation flag, frequency grid and squeezing mode, row i of the returned synchrosqueezed transform holds the energy reassigned to the i-th returned frequency.",
  ["configurations"],"transform (CWT, STFT) x flipud x ssq_freqs kind x one-pass/two-step x 2D/3D",
  "Tests never relate returned frequencies to rows for the non-default orientation.",
  [SQ,A,SC,SS],[("orientation of rows","algos.py flipud in kernels"),("orientation of labels","ssqueezing.py ssqueeze")])
p("C07","Library calls leave the caller's arguments unchanged",
  "No public function changes an array, list or dict that the caller passed in, other than functions documented to work in place or an explicit output argument. With the transform-preserving option on (the CPU default), the transform returned next to its synchrosqueezed version is the unmodified transform.",
  ["inputs","configurations"],"all public transform, inversion, ridge, padding, framing, wavelet and test-signal functions, all argument values and options",
  "Tests build fresh inputs and never compare them after the call; aliasing depends on dtype, layout and options.",
  [C,SC,SS,ST,SQ,CM,SU,R,W,G,TS,TK],[("copies before in-place work","_ssq_cwt.py, _ssq_stft.py preserve_transform; ridge_extraction.py energy_to_track.copy()"),("option dict copies","_cwt.py, _test_signals.py")])
p("C08","Temporarily changed shared state is restored however the call ends",
  "A transform call that temporarily adjusts the wavelet object it was given or the global FFT settings leaves both as they were before the call - whether the call returns or raises, and for every option combination.",
  ["histories","fault_sequences"],"every exit (return or exception at any statement) of every call that adjusts shared state",
  "Tests look at results of successful calls only; a leak shows in a later, unrelated call.",
  [C,F,W],[("save / restore around the transform","_cwt.py cwt")],
  state=[("wavelet.N","length the wavelet is sampled at","wavelets.py Wavelet.N"),("FFT_GLOBAL.patience, planning_timelimit","planning effort","utils/fft_utils.py FFT")])
p("C09","Caches never change results",
  "A result served from a cache (sampled wavelets, FFT plans, compiled GPU kernels; wavelet properties once `reset_properties` was called after a change) is what computing it afresh with the same arguments and the object's current settings would give. Everything the cached value depends on is part of what decides a hit, and a cached buffer is never handed out in a way that a later call can change.",
  ["histories"],"all sequences of calls with differing arguments on one wavelet / FFT object",
  "Tests call with one set of arguments per object; stale hits need particular sequences.",
  [W,F,GU,C],[("sampled wavelet cache","wavelets.py Wavelet.Psih"),("FFT plan cache","utils/fft_utils.py FFT.get_fft_object"),("property cache","wavelets.py Wavelet.reset_properties"),("kernel cache","utils/gpu_utils.py load_kernel")])
p("C10","Parallelism and GPU flags are resolved with one documented precedence",
  "An explicit parallel=True or parallel=False decides how an operation runs; otherwise the SSQ_PARALLEL environment flag decides where set, otherwise configs.ini. The GPU flag and these settings are read when the operation is called, not when the library is imported.",
  ["configurations","histories"],"explicit argument (unset, False, True) x environment (unset, 0, 1) x configs.ini (0, 1) x every operation offering a parallel variant",
  "Results are equal either way, so tests cannot see which variant ran; only some of the combinations are ever run.",
  [CF,A,SU,W,G,F],[("flag resolution","configs.py IS_PARALLEL, USE_GPU"),("variant selection","algos.py, utils/stft_utils.py, wavelets.py, _gmw.py, utils/fft_utils.py threads")])
p("C11","Explicitly passed options take effect",
  "A value a caller passes for an option reaches the computation it controls unchanged through every layer (synchrosqueezing, transform, higher-order transform, wavelet construction, padding, FFT), including values that are falsy such as 0 or False; a default replaces an option only when the caller left it unset.",
  ["inputs","configurations"],"every option of the public functions, every admissible value including 0, False and empty ones",
  "Tests set few options at a time and mostly to truthy values; a dropped option leaves a plausible result.",
  [SC,SS,C,ST,SQ,CU,W,G,CM,R,TS,TK],[("option forwarding","_ssq_cwt.py ssq_cwt -> cwt/ssqueeze; _cwt.py cwt -> cwt_higher_order; _ssq_stft.py -> stft/ssqueeze"),("default substitution","configs.py gdefaults; `is None` tests")])
p("C12","Batched input gives what per-signal calls give",
  "Transforming, squeezing, padding, framing, differentiating or inverting a batch of signals gives, for each signal, what a call on that signal alone gives. No operation mixes, reorders or normalizes across the batch dimension, and time, frequency and batch keep their documented positions.",
  ["inputs","configurations"],"all batch sizes and lengths; all options supported for 2D input",
  "Tests try a couple of batches with default options; a wrong axis can agree by accident when sizes coincide.",
  [C,ST,SQ,SC,SS,CM,SU],[("axis=-1 discipline, broadcasting","_cwt.py, _stft.py"),("per-signal loop","ssqueezing.py, utils/stft_utils.py")])
p("C13","Sampling rate and amplitude scale results consistently",
  "Changing the sampling rate (or equivalently giving time stamps, which override it) multiplies all returned frequencies, derivatives and reassignment frequencies by it, leaves transforms and synchrosqueezed CWTs unchanged, and multiplying the input by a constant multiplies transforms by it. Quantities of different physical dimension are never added or compared.",
  ["inputs"],"all sampling rates, time stamps, signals and options",
  "Tests use one sampling rate per case and compare to absolute tolerances.",
  [CU,C,ST,SQ,SC,SS,CM],[("fs/t processing","utils/cwt_utils.py _process_fs_and_t"),("dt in derivative and frequencies","_cwt.py, _stft.py, ssqueezing.py, utils/common.py trigdiff")])
p("C14","Padding, framing and trimming keep time alignment",
  "Padding places the signal at the offset it reports and removing padding takes out exactly the original samples, for all lengths and padding modes, so that column j of an unpadded transform belongs to input sample j (hop j for the STFT) and the time length is the documented one. Splitting into frames and overlap-adding address the same samples, and lengths reported equal lengths produced.",
  ["inputs","configurations"],"all signal lengths (odd, even, power of two), window and hop lengths, padding modes, 1D and 2D",
  "Off-by-one errors depend on parity and length; tests use few lengths.",
  [CM,C,SC,ST,SU],[("pad geometry","utils/common.py p2up, padsignal"),("unpadding","_cwt.py, _ssq_cwt.py, utils/common.py trigdiff"),("framing","utils/stft_utils.py buffer, unbuffer, window_norm; _stft.py istft")])
p("C15","Results have the precision that was asked for",
  "With single precision every returned transform and derivative is complex64 and every phase transform single precision, with double precision complex128 and double, independent of the precision of the input and of the route taken (one-pass or two-step, vectorized or per scale, batched or not); frequencies and scales are returned in at least that precision. Thresholds and tolerances chosen internally are those of that precision. (Combinations unsupported in single precision, GMW with L2 norm, use double.)",
  ["configurations"],"dtype x route x options",
  "Tests check dtypes at default options; a silent promotion passes every numerical tolerance.",
  [C,ST,SC,SS,SQ,A,W,G,B],[("dtype handling","wavelets.py _process_params_dtype; utils/backend.py; _stft.py dtype"),("precision-matched eps","_ssq_cwt.py, _ssq_stft.py gamma; ridge_extraction.py eps")])
p("C16","Every documented option combination yields a result or a clear refusal",
  "Each combination of option values that a public function documents and its argument checks accept is handled to the end: no path reaches an undefined variable, a missing table entry or an unhandled option value. Values outside the documented sets are refused with an error that names the option.",
  ["configurations"],"the product of documented option values of the public functions",
  "The option product is large; tests visit a small part of it.",
  [SC,SS,C,ST,SQ,CU,CM,SU,W,G,R,A],[("argument checks","ssqueezing.py _check_ssqueezing_args; utils/common.py assert_is_one_of; utils/cwt_utils.py process_scales"),("dispatch","if/elif chains and dict tables keyed by option")])
p("C17","GPU launches match the kernels they launch",
  "Every GPU kernel name that the host code can select exists, is compiled with every placeholder filled in, and is launched with as many arguments as it declares, in the declared order and of the declared kind; each kernel guards its thread index against the array extent it indexes.",
  ["configurations","inputs"],"every host path that launches a kernel, every grid type, precision and orientation",
  "No GPU is available where the tests run; the GPU tests are skipped.",
  [A,SU,GU],[("kernel table and host argument lists","algos.py _kernel_codes, _process_ssq_params, phase_*_gpu, _replace_under_abs_gpu; utils/stft_utils.py _buffer_gpu; utils/gpu_utils.py")])
p("C18","CPU-only installations never run into GPU-only code",
  "With the GPU flag off, no public function reaches code that needs PyTorch or CuPy, and with default planning effort none needs pyFFTW, for any NumPy input and any option combination; importing the package needs neither.",
  ["configurations"],"all options, with torch, cupy and pyfftw absent",
  "Whether an optional package is touched depends on rarely used branches; the tests run in one environment.",
  [B,GU,SQ,C,SC,ST,SS,F,CM,W,CU],[("optional imports with dummies","utils/backend.py TorchDummy, CupyDummy; utils/fft_utils.py"),("tensor tests before torch calls","S.is_tensor branches")])
p("C19","The library writes files only where the caller asks for it",
  "No computation creates, changes or deletes a file, except the FFT planner's wisdom files when planned FFTs were requested, figures or animations saved to a path the caller gave (the animation functions to their documented default path), and the code caches of Python and the JIT compilers. With default planning effort and no save path nothing is written.",
  ["configurations","histories"],"all public functions and options",
  "Tests do not watch the file system.",
  [F,V,CF],[("wisdom","utils/fft_utils.py save_wisdom"),("saving","visuals.py savepath")])
p("C20","configs.ini supplies exactly the parameters left unset",
  "For every function backed by configs.ini, each parameter the caller leaves unset takes the configured value and each one given is used as given, and the wavelet objects' string, tuple and function forms agree on that. Every such function's entry exists in configs.ini and lists exactly parameters that the function leaves unset by default.",
  ["configurations","inputs"],"all functions backed by configs.ini, all subsets of given parameters",
  "Tests check one wavelet and one parameter.",
  [CF,INI,W,G,ST,CU,V],[("gdefaults","configs.py gdefaults, _get_gdefaults"),("call sites","wavelets.py morlet.., _gmw.py gmw, _stft.py, utils/cwt_utils.py make_scales, visuals.py _maybe_title")])
p("C21","Returned tuples have the documented content and order",
  "For every combination of the flags that add outputs, the functions return the documented items in the documented order; converting to NumPy converts each item and keeps its place. Callers inside the library unpack what is returned in that order.",
  ["configurations"],"flag combinations of cwt, icwt, stft, ssq_cwt, ssq_stft, ssqueeze, extract_ridges, padsignal, process_scales, get_window, GPU and CPU",
  "Tests unpack a prefix with a star and ignore the rest; the conversion runs only with a GPU.",
  [SC,SS,C,ST,SQ,R,CM,CU],[("return statements and conversion lists","ssq_cwt, ssq_stft, cwt, cwt_higher_order")])
p("C22","Inverse transforms undo the forward normalization exactly once",
  "Each inverse transform applies each correction its forward transform calls for exactly once and with matching exponent: the signal mean is added once for every kind of scales, the scale normalization matches the L1 or L2 norm and the scale spacing, analysis and synthesis windows are compensated by the overlap-added window power, and where components are selected, each is the inversion of exactly the rows around its curve and the remainder that of exactly the rows no component covers. Forward and inverse defaults agree.",
  ["inputs","configurations"],"all norms, scale types, window exponents, hop lengths, component selections",
  "Tests invert zero-mean signals at default norms, within coarse error bounds.",
  [C,ST,SU,SC,SS],[("inverse CWT","_cwt.py icwt, _icwt_norm"),("inverse STFT","_stft.py istft; utils/stft_utils.py unbuffer, window_norm"),("component inversion","_ssq_cwt.py _invert_components")])
p("C23","Ridge extraction tracks in range and removes exactly the extracted band",
  "Every returned ridge index is a row of the transform, reported ridge frequency and energy are those of the reported index, and after a ridge is found exactly the band around it - the rows from `bw` below it up to, not including, `bw` above it, cut off at the edges - is removed before the next one is sought, wherever in the spectrum the ridge lies. Forward accumulation and backward tracking use the same penalty and the same accumulated energies.",
  ["inputs"],"all transforms, penalties, bandwidths, ridge counts and ridge positions including the edges",
  "Tests use ridges in the middle of the spectrum; the band at the edge, and ties, are not sampled.",
  [R],[("band removal","ridge_extraction.py extract_ridges"),("tracking","ridge_extraction.py __accumulated_penalty_energy_*")])
p("C24","Computations are deterministic",
  "Results depend only on the arguments and documented settings: no transform, inversion, ridge or wavelet function consults a clock, a random generator or the identity of objects, and test-signal noise is drawn only from the seed the caller gave or the documented default.",
  ["histories","inputs"],"all public computations; all seeds including 0",
  "A dependence on hidden state needs repeated calls in particular order to show.",
  [TS,A,C,ST,SQ,SC,SS,W,G,R,CM,CU],[("seeded noise","_test_signals.py")])
p("C25","Analytic wavelets vanish at negative frequencies",
  "Every evaluation variant of the generalized Morse wavelets of every order and norm, returns exactly zero at each negative frequency, and the sampled frequency axis gives the second half of bins the negative frequencies for every length, even or odd.",
  ["inputs"],"all frequencies, wavelet parameters, orders, lengths",
  "Tests compare a few parameter sets on one grid.",
  [G,W],[("non-negativity mask","_gmw.py _gmw_*"),("frequency axis","wavelets.py _xifn")])
p("C30","Reconstruction accuracy of the inverse transforms",
  "Inverting a forward transform reproduces the input to within the documented error, for every wavelet, window and signal the documentation covers.",
  ["inputs"],"all signals in the documented class","Needs all signals; tests sample a few.",
  [C,ST,SC,SS],[("inverse formulas","icwt, istft, issq_cwt, issq_stft")])
p("C31","Wavelet time/frequency resolutions and center frequencies are accurate",
  "Reported center frequencies, widths and areas equal the analytic ones to the documented tolerance for every wavelet parameter.",
  ["inputs"],"all wavelet parameters","Numerical quantities over continuous parameters.",
  [W],[("numeric integration","time_resolution, freq_resolution, center_frequency")])
p("C32","Automatically chosen scales cover the signal's representable band",
  "For every wavelet and length, generated scales start at the requested cutoff and end at the requested bin, and piecewise spacing loses no band.",
  ["inputs"],"all wavelets, lengths, presets","Depends on searched numerical optima.",
  [CU],[("scale bounds","cwt_scalebounds, make_scales, find_downsampling_scale")])
p("C33","Extracted ridges minimise the penalised energy",
  "The returned ridge is a global minimiser of the penalised energy functional for every transform.",
  ["inputs"],"all transforms and penalties","Optimality over runtime values.",
  [R],[("dynamic programming","ridge_extraction.py")])
p("C34","FFT backends agree numerically",
  "SciPy, pyFFTW and PyTorch transforms return equal values up to rounding for every shape and axis.",
  ["inputs","configurations"],"all shapes and dtypes","External libraries' numerics.",
  [F],[("FFT wrapper","FFT")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
