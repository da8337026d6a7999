#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so that it stays easy to edit)."""
import json, os

NM = "fast_bss_eval/numpy/metrics.py"; TM = "fast_bss_eval/torch/metrics.py"
NH = "fast_bss_eval/numpy/helpers.py"; TH = "fast_bss_eval/torch/helpers.py"
NC = "fast_bss_eval/numpy/cgd.py"; TC = "fast_bss_eval/torch/cgd.py"
NL = "fast_bss_eval/numpy/linalg.py"; TL = "fast_bss_eval/torch/linalg.py"
NS = "fast_bss_eval/numpy/scale_invariant.py"; TS = "fast_bss_eval/torch/scale_invariant.py"
HU = "fast_bss_eval/torch/hungarian.py"; CO = "fast_bss_eval/torch/compatibility.py"
IN = "fast_bss_eval/__init__.py"

DOM = ("real signals of shape (..., channels, samples) as numpy arrays or torch tensors, float32 or float64, "
       "any batch shape, 1 to ~10 references and estimates, filter lengths from 1 up, signals from a few samples to tens of thousands")

P = []
def add(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["return values of the public functions"], hook_needed=hook)))

add("C01", "SDR equals its projection definition",
    "For every pair of a reference and an estimate, the SDR reported (by sdr_loss with and without pairwise, and by bss_eval_sources) equals "
    "10 log10 of the energy of the orthogonal projection of the estimate onto the span of the filter_length shifts of that reference, over the energy of the residual, "
    "up to rounding error in the signals' floating-point precision. "
    "With sdr_loss the value is negated, and with pairwise=True the entry at row k, column m belongs to reference k and estimate m.",
    ["inputs", "configurations"],
    "Over all " + DOM + "; default (direct) solver, zero_mean on or off, no clamping or loading; references whose shifts are linearly independent and not ill-conditioned for the precision used.",
    "Existing tests compare with mir_eval only for 2 channels, 1600 samples, filter_length 512 and one random distribution, and with closed forms only at filter_length 1; the quantifier is over all lengths, channel counts, batch shapes and signal colours.",
    [NM, TM, NL, TL, NH, TH],
    [("sdr_loss", NM), ("sdr_loss", TM), ("compute_stats: FFT auto/cross-correlation long enough to avoid wrap-around", NM), ("toeplitz: system matrix from autocorrelation", NL), ("_coherence_to_neg_sdr", NH)])

add("C02", "SIR and SAR equal their projection definition",
    "The SIR and SAR returned by bss_eval_sources and si_bss_eval_sources equal the ratios defined from the orthogonal decomposition of the estimate into target, interference and artifact parts, "
    "where the interference is the part explained by the filter_length shifts of all references together but not by the matched reference alone, up to rounding error. "
    "This holds both with compute_permutation=False (pair i is reference i with estimate i) and with compute_permutation=True for the pairs reported in the permutation.",
    ["inputs", "configurations"],
    "Over all " + DOM + "; direct solver, zero_mean on or off, equal or different numbers of references and estimates (different only with compute_permutation=True), joint shifts of all references linearly independent and not ill-conditioned.",
    "Tests reach SIR/SAR for 2 channels at filter_length 512 against mir_eval and for 4 exactly orthogonal channels at filter_length 1; correlated references, other lengths, rectangular cases and batches are never compared to the definition.",
    [NM, TM, NL, TL],
    [("square_cosine_metrics", NM), ("square_cosine_metrics", TM), ("compute_stats_2: full matrix of correlations with negative lags", NM), ("block_toeplitz", NL), ("_base_metrics_bss_eval", NM)])

add("C03", "Reported permutation is a valid, optimal matching",
    "For each batch item, bss_eval_sources and si_bss_eval_sources return a one-to-one matching of references and estimates that maximises the sum of pairwise SIR, and sdr, si_sdr and the PIT losses one that maximises the sum of pairwise SDR; ties may be broken either way. "
    "perm lists, for each reference in order, the index of the estimate matched to it (when there are more references than estimates: for each estimate in order, the index of its reference), and every returned metric is exactly that of the listed pair.",
    ["inputs", "configurations"],
    "Over all numbers of references and estimates (equal or not, 1 to ~8), batch shapes, true permutations, close and tied scores, filter lengths, solvers with and without clamp_db, numpy and torch.",
    "Tests use square 2- and 4-channel cases with a dominant diagonal, so almost any assignment rule passes; optimality over all permutations, rectangular matrices and per-batch-item permutations are not checked.",
    [NH, TH, HU, NM, TM],
    [("_solve_permutation", NH), ("_solve_permutation", TH), ("linear_sum_assignment", HU)],
    state=[dict(name="perm", meaning="for each reference (or each estimate when there are fewer estimates) the index of its partner", where=NH)])

add("C04", "All entry points report the same metric",
    "On the same data and options, sdr_pit_loss equals minus sdr, sdr_loss without pairwise is the diagonal of sdr_loss with pairwise, pairwise_sdr_loss equals sdr_loss with pairwise=True, sdr with return_perm or change_sign only adds the permutation or flips the sign, "
    "and the SDR of bss_eval_sources is the pairwise SDR at the pairs it reports, with estimates-first argument order for the loss functions and references-first for the others. "
    "Each si_ function equals its regular counterpart called with filter_length=1, and each top-level function equals the function of the backend module that its input type selects, all options being passed through and defaulting to the documented values.",
    ["inputs", "configurations"],
    "Over all " + DOM + "; every combination of zero_mean, clamp_db, load_diag, use_cg_iter, pairwise, compute_permutation, return_perm, change_sign that the functions accept.",
    "Tests compare a few of these functions for one shape and a dozen option combinations with tolerances up to 0.1 dB; the quantifier is over all option combinations and inputs.",
    [IN, NM, TM, NS, TS],
    [("_dispatch_backend", IN), ("sdr / sdr_pit_loss / pairwise_sdr_loss", NM), ("si_* wrappers", NS), ("si_* wrappers", TS)])

add("C05", "numpy and torch backends agree",
    "For every public function and every combination of options, calling it with torch tensors and with numpy arrays holding the same values gives the same metrics up to rounding error of the precision used, and a permutation of equal score. "
    "This includes the iterative solver, diagonal loading, clamping and different numbers of references and estimates.",
    ["inputs", "configurations"],
    "Over all " + DOM + " for which the metrics are well-conditioned, and all option combinations.",
    "No existing test compares the two backends with each other; each is compared with mir_eval at one configuration.",
    [NM, TM, NH, TH, NC, TC, NL, TL, HU],
    [("numpy implementation", NM), ("torch implementation", TM), ("numpy conjugate gradient", NC), ("torch conjugate gradient", TC)])

add("C06", "Metrics do not depend on signal scale or sign",
    "Multiplying any reference or estimate by any non-zero gain, separately for each channel and of either sign, leaves every metric, every loss and the permutation unchanged up to rounding error. "
    "This holds for gains over many orders of magnitude as long as each signal's norm stays above the documented-by-code floor of 1e-6 and within the floating-point range.",
    ["inputs", "configurations"],
    "Over all " + DOM + ", all functions and options, independent per-channel gains between about 1e-4 and 1e6 of either sign.",
    "Scale invariance is never tested: tests use unit-variance signals only.",
    [NM, TM, NH, TH],
    [("_normalize", NH), ("_normalize", TH)])

add("C07", "Allowed filtering is not distortion; known mixtures get known scores",
    "When an estimate is built from references and noise whose contributions are orthogonal at all relevant lags, with the target contribution being the reference through any FIR filter of at most filter_length taps, SDR, SIR and SAR equal the energy ratios of the contributions used to build it. "
    "In particular an estimate that is only such a filtered reference scores an SDR at the level of numerical precision, and lengthening the filter never lowers the SDR of any pair.",
    ["inputs", "configurations"],
    "Over all filters up to filter_length taps (pure delays and decaying or random filters), energies from -30 to 50 dB, 1 to 5 sources, numpy and torch, float32 and float64.",
    "test_si_sdr checks closed forms at filter_length 1 only; nothing tests that filtering within the filter length is forgiven nor monotonicity in it.",
    [NM, TM, NL, TL],
    [("sdr_loss", NM), ("square_cosine_metrics", NM), ("compute_stats / compute_stats_2", TM)])

add("C08", "Zero padding and common delay do not change the metrics",
    "Appending zeros to, or prepending the same number of zeros to, all references and estimates leaves every metric unchanged up to rounding error (with zero_mean off), whatever the signal length, including lengths at and around powers of two. "
    "For the SDR-only functions this includes signals shorter than the filter.",
    ["inputs", "configurations"],
    "Over all signal lengths from 2 samples up, all amounts of padding, all filter lengths (for bss_eval_sources as long as the joint system is well-posed), both solvers and backends.",
    "No test pads signals; tests use 1600, 4000, 8000 and 16000 samples only, always longer than the filter.",
    [NM, TM],
    [("n_fft choice in compute_stats", NM), ("n_fft choice in compute_stats_2", NM), ("n_fft choice in compute_stats / compute_stats_2", TM)])

add("C09", "A batch is evaluated as its items one by one",
    "For inputs with any leading batch dimensions, every output at a batch index equals, up to rounding error, the output for that batch item alone, and reshaping the batch dimensions reshapes the outputs accordingly. "
    "No batch item's signals influence another item's metrics or permutation.",
    ["inputs", "configurations"],
    "Over batch shapes with zero to three leading dimensions (sizes including 1), items of very different level and difficulty in one batch, all functions, options and backends.",
    "Tests use a single leading batch dimension and never compare a batch with its items.",
    [NM, TM, NH, TH, NC, TC, NL, TL],
    [("_solve_permutation: loop over batch index", NH), ("hankel_view on batched strides", NL), ("hankel_view on batched strides", TL), ("batched operators", NC)])

add("C10", "Reordering sources reorders results; other estimates do not matter",
    "Permuting the references or the estimates permutes rows or columns of pairwise results and relabels the permutation, without changing any pair's value. "
    "The metrics of a pair do not depend on which other estimates are present, the pairwise SDR does not depend on the other references, and the SAR does not change when the references are replaced by any invertible mixture of them.",
    ["inputs", "configurations"],
    "Over all permutations, subsets of estimates and references, well-conditioned instantaneous mixtures of references, channel counts, filter lengths, options and backends.",
    "Tests flip a 2-channel estimate once; none adds or removes channels or re-mixes references.",
    [NM, TM, NH, TH],
    [("square_cosine_metrics", NM), ("square_cosine_metrics", TM), ("_solve_permutation", NH)])

add("C11", "clamp_db bounds every metric and changes nothing inside the bounds",
    "With clamp_db=c every returned SDR, SIR, SAR and loss is finite and lies in [-c, c] up to a rounding tolerance, in float32 as in float64, even for perfect, orthogonal or silent estimates with non-silent references (SIR excepted where it is undefined). "
    "Values whose unclamped counterpart lies inside the range are unchanged, and the others equal the nearest bound.",
    ["inputs", "configurations"],
    "Over c between about 1 and 100 dB, all signal qualities from perfect to unrelated, all functions and backends, both precisions.",
    "test_clamp_db tries c=30 with a tolerance of 1 dB; sdr_loss tests never reach the bounds.",
    [NH, TH, NM, TM],
    [("_db_clamp_eps and _coherence_to_neg_sdr", NH), ("_db_clamp_eps and _coherence_to_neg_sdr", TH)])

add("C12", "zero_mean removes exactly the per-signal mean",
    "With zero_mean=True every function returns what it returns with zero_mean=False on signals from which each channel's own time average has been subtracted. "
    "Consequently constant offsets added to any channel have no effect up to rounding error.",
    ["inputs", "configurations"],
    "Over all functions that accept zero_mean, filter lengths including 1, per-channel offsets up to many times the signal level, batch shapes, options and backends.",
    "Tests only run zero_mean=True on signals that already have zero mean, so ignoring the option passes them.",
    [NM, TM, NH, TH],
    [("_remove_mean", NH), ("_remove_mean", TH)])

add("C13", "The iterative solver reproduces the direct solver",
    "With use_cg_iter of some tens of iterations, SDR, SIR and SAR agree with the direct solver to a small tolerance for well-conditioned signals, and already with 10 iterations they agree to a coarse one; more iterations do not make the result drift away. "
    "The SDR found with the iterative solver never exceeds that of the direct solver by more than rounding error.",
    ["inputs", "configurations"],
    "Over 1 to ~6 sources, odd and even filter lengths from 2 to several hundred, white and coloured signals, pairwise or not, batches, numpy and torch, both precisions, iteration counts from 1 to 100.",
    "Tests run the iterative solver for 2 white channels at filter_length 512 and 10 or 20 iterations only.",
    [NC, TC, NM, TM],
    [("conjugate_gradient", NC), ("conjugate_gradient", TC), ("SymmetricToeplitzOperator / BlockToeplitzOperator", NC), ("circulant preconditioners", TC)])

add("C14", "torch losses have correct, usable gradients",
    "For every torch function, backpropagating any combination of the returned metrics to the estimates and to the references yields the derivative of the returned value, as measured by finite differences, with every option (solver, loading, zero_mean, clamping inside its range) and through the permutation. "
    "With clamp_db set, gradients are finite also for perfect estimates and, in the SDR functions, for silent ones.",
    ["inputs", "configurations"],
    "Over float64 inputs with all channel counts, batch shapes, filter lengths and options away from ties between permutations; finiteness also in float32.",
    "test_grad only checks that backward() runs for two functions; no gradient value is ever compared, and bss_eval_sources with filters longer than 1 is commented out.",
    [TM, TH, TC, TL, CO],
    [("autograd through solve / FFT / as_strided", TM), ("_solve_permutation keeps the graph", TH), ("conjugate_gradient", TC)])

add("C15", "Inputs are never modified and their memory layout is irrelevant",
    "No function modifies the contents of the arrays or tensors passed to it, and each accepts read-only inputs. "
    "Results depend only on the values: transposed, strided, reversed, broadcast or otherwise non-contiguous views give the same results as contiguous copies.",
    ["inputs", "configurations"],
    "Over all functions, options and backends, and all ways of viewing the same values (Fortran order, channel-last recordings transposed, steps, negative strides in numpy, expanded dimensions, storage offsets).",
    "Tests only pass freshly created contiguous arrays (one flips an estimate) and never look at the inputs afterwards.",
    [NM, TM, NH, TH, NL, TL],
    [("in-place loading only on freshly created statistics", NM), ("hankel_view via as_strided on a fresh concatenation", NL), ("hankel_view via as_strided on a fresh concatenation", TL)])

add("C16", "Every call is independent of call history",
    "The result of a call depends only on its arguments: not on earlier calls with other shapes, data, options, precisions or backends, on buffers being refilled in place between calls, on results of earlier calls being modified by the caller, or on calls running at the same time in other threads. "
    "Results already returned are not changed by later calls, nothing is written to standard output, and process-wide settings (random states, numpy's error handling, torch's defaults and modes) are left as they were.",
    ["histories", "schedules", "inputs"],
    "Over random sequences of calls mixing all functions, backends, shapes and options, with in-place refilling of inputs, scribbling on outputs, repeated calls and concurrent threads.",
    "Each test makes a few calls on fresh data; no test repeats a call, reuses buffers or runs threads.",
    [IN, NM, TM, NC, TC],
    [("functions keep no module-level state", NM), ("functions keep no module-level state", TM)])

add("C17", "Outputs have the documented shape, type and precision",
    "Each function returns numpy arrays for numpy inputs and torch tensors for torch inputs, of the documented shape (pairwise: references by estimates; otherwise one value per matched pair, after the batch dimensions), in the floating-point precision of the inputs, with int64 permutations (usable as indices), for every combination of options. "
    "For torch, results are on the inputs' device and this does not depend on torch's default dtype or default device.",
    ["inputs", "configurations"],
    "Over all shapes, batch shapes, option combinations, precisions, and global torch defaults (default dtype float32/float64, default device different from that of the data).",
    "test_dtype checks dtypes for one shape without the iterative solver or loading and never checks shapes, rectangular cases or devices; no GPU is available to the tests.",
    [IN, NM, TM, NC, TC, NH, TH],
    [("_dispatch_backend", IN), ("dtype/device of helper tensors", TM), ("dtype/device of helper tensors", TC), ("dtype of helper arrays", NC)])

add("C18", "Extreme but valid signals get a defined answer, invalid ones an error",
    "Perfect estimates, estimates orthogonal to a reference, single-source problems, silent references with load_diag, and silent estimates never make a function fail or return NaN: the scores are the limits (very large, +inf, -inf or very low values) and a valid permutation, best among those limits, is still returned. "
    "(The SIR, a ratio of projections onto the references, is only defined for estimates that have a component along some reference: for bss_eval_sources this is assumed of each estimate.) "
    "A NaN anywhere in the inputs of a function that solves for a permutation raises ValueError, and compute_permutation=False with different numbers of references and estimates is rejected.",
    ["inputs", "configurations"],
    "Over all placements of perfect, orthogonal, duplicated and silent channels in problems of 1 to ~5 sources, batches where only some items are degenerate, all functions, both backends and precisions.",
    "Issue #5's test is one recorded file; NaN is tested at one position for bss_eval_sources; no test has perfect single sources, exactly orthogonal sources or silent references.",
    [NH, TH, NM, TM, HU],
    [("_linear_sum_assignment_with_inf", NH), ("_linear_sum_assignment_with_inf", TH), ("clamping of the coherence to [0, 1]", NH)])

add("C19", "torch linear_sum_assignment returns an optimal assignment",
    "For any finite two-dimensional cost matrix, square or rectangular, fast_bss_eval.torch.hungarian.linear_sum_assignment terminates and returns min(rows, columns) pairs with strictly increasing row indices and distinct column indices whose total cost is minimal, without modifying its argument. "
    "A matrix containing NaN or with a number of dimensions other than two raises ValueError.",
    ["inputs"],
    "Over all shapes from 1x1 to ~15x15 including wide and tall, costs that are random, tied, integer-valued, constant, of widely different magnitude or adversarial for greedy choices, in float32 and float64 and in non-contiguous storage.",
    "test_hungarian uses Gaussian costs (no ties, no structure) at 36 shapes and 6 seeds and compares indices with scipy.",
    [HU, TH],
    [("_Hungary and _step1.._step6", HU)],
    state=[dict(name="marked", meaning="starred and primed zeros of the reduced matrix", where=HU)])

add("C20", "Without pytorch everything still works on numpy arrays",
    "When pytorch cannot be imported, importing fast_bss_eval succeeds and all eight top-level functions return on numpy arrays the same results as when it is installed. "
    "When pytorch is present but an optional helper package of it is missing, importing fast_bss_eval still succeeds and the numpy functions work.",
    ["configurations", "inputs"],
    "Over environments without torch, with a torch whose import fails, or without the packaging module; all functions, options and numpy inputs.",
    "The test-suite imports torch at the top of every file, so the documented numpy/scipy-only installation is never exercised.",
    [IN, CO],
    [("try/except ImportError fallback with a stand-in torch class", IN), ("version helper import", CO)])

add("C21", "load_diag adds exactly that loading to the normalised systems",
    "With load_diag=e, the squared cosines behind SDR and SAR are those obtained by adding e to the diagonal of the correlation matrix of the unit-norm references before solving, for every filter length including 1, so a small e changes well-conditioned results only slightly and never raises SDR or SAR. "
    "A silent reference then contributes nothing: the other references' results are the same as when it is left out.",
    ["inputs", "configurations"],
    "Over loadings from 1e-8 to 1, filter lengths from 1 up, channel counts, silent channels at any position, batches, solvers and backends.",
    "Tests pass load_diag=1e-5 in two configurations and only compare functions that share the code with each other; silent references are never used.",
    [NM, TM],
    [("loading in sdr_loss", NM), ("loading in square_cosine_metrics", NM), ("loading in square_cosine_metrics_length_one_filter", NM), ("same in torch", TM)])

add("C22", "SDR, SIR and SAR are mutually consistent",
    "For every pair, SDR is at most SIR and at most SAR, and the three satisfy the exact relation implied by the orthogonal decomposition: with q(x) = 10^(x/10) / (1 + 10^(x/10)), q(SDR) = q(SIR) q(SAR), up to rounding error. "
    "The squared cosines returned by square_cosine_metrics lie in [0, 1], the one for a single reference never exceeds the one for all references, and both agree with the metrics.",
    ["inputs", "configurations"],
    "Over all " + DOM + ", both solvers where converged, with and without permutation, numpy and torch.",
    "Tests never relate the three metrics to one another.",
    [NM, TM, NH, TH],
    [("_base_metrics_bss_eval", NM), ("_base_metrics_bss_eval", TM), ("square_cosine_metrics", NM)])

add("C23", "Integer PCM recordings give the results of their float values",
    "Calling any top-level function with numpy integer samples, as read from a wav file (8, 16 or 32 bit, transposed as in the quick start), returns float64 results equal to those for the same samples converted to float64, with no overflow or truncation at any level up to full scale.",
    ["inputs", "configurations"],
    "Over uint8, int16 and int32 arrays up to full-scale values, transposed channel-last views, all functions and options.",
    "All tests use floating-point Gaussian noise; the quick-start usage with wavfile integers is never run.",
    [NM, NH, IN],
    [("_normalize converts to floating point", NH), ("_remove_mean", NH)])

add("C24", "float32 results track float64 results",
    "For well-conditioned signals the float32 results of both backends stay within a few multiples of float32 rounding error (in squared cosine) of the float64 results on the same values, for every function and option, and do not deteriorate with signal length or level.",
    ["inputs", "configurations"],
    "Over signal lengths up to ~100000 samples, signal levels from 1e-3 to 1e5, filter lengths, channel counts, solvers and backends.",
    "Tests compare float32 with mir_eval at a tolerance of 0.01 to 0.1 dB for unit-level signals of 1600 samples.",
    [NM, TM, NH, TH, NC, TC],
    [("normalisation before forming statistics", NM), ("normalisation before forming statistics", TM)])

add("C25", "Default settings agree with mir_eval",
    "With default options bss_eval_sources returns the SDR, SIR, SAR and permutation that mir_eval.separation.bss_eval_sources returns for the same references and estimates, with and without permutation, up to a small tolerance.",
    ["inputs", "configurations"],
    "Over 1 to 4 sources, signals longer than the joint filter, white and coloured, instantaneous and convolutive mixtures, arbitrary source orders and levels, numpy and torch, float64.",
    "test_accuracy does this for 10 draws of one 2-channel distribution whose optimal permutation is nearly always the identity, and never compares permutations.",
    [NM, TM, IN],
    [("bss_eval_sources", NM), ("bss_eval_sources", TM)])

add("C26", "Scores respect the symmetries of time",
    "Scores depend on the signals only through their correlations at lags below filter_length, so transformations that preserve these leave all metrics and permutations unchanged up to rounding: "
    "reversing time (with filter_length - 1 zeros appended to the references and prepended to the estimates), inserting k - 1 zeros after every sample while the filter gets between k(L-1)+1 and kL taps, "
    "and reordering, repeating or jointly flipping the sign of blocks of signal separated by at least filter_length - 1 zeros. "
    "For filter length 1 and the si_ functions, any orthogonal transformation of the time axis common to all signals, in particular any reordering of the samples, changes nothing.",
    ["inputs", "configurations"],
    "Over all " + DOM + "; every function and option, zero_mean only with the transformations that keep the mean.",
    "Tests only ever evaluate one alignment of one stationary noise signal, where the ends of the signals, the direction of time and gaps do not matter.",
    [NM, TM, NL, TL],
    [("compute_stats", NM), ("compute_stats", TM), ("compute_stats_2: positive and negative lags", NM), ("compute_stats_2", TM), ("block_toeplitz", NL), ("block_toeplitz", TL)])

add("C27", "Scores follow the space spanned by the references",
    "A longer filter never lowers the SDR or SAR of a pair. Additional references never lower the SAR of an estimate, never raise the SIR of a pair, and leave its SDR unchanged. "
    "SAR depends only on the space spanned by the references: replacing them by any invertible instantaneous mixture of themselves leaves every estimate's SAR unchanged. With a single reference, SDR equals SAR. "
    "A larger load_diag never raises the squared cosines. All of this holds up to rounding error.",
    ["inputs", "configurations"],
    "Over all " + DOM + "; direct solver, any loading, clamping and zero_mean, filter lengths from 1 to several hundred, well-posed and not ill-conditioned systems.",
    "Tests never relate results for different filter lengths, numbers of references or bases of the same space.",
    [NM, TM, NL, TL, NH, TH],
    [("square_cosine_metrics", NM), ("square_cosine_metrics", TM), ("sdr_loss", NM), ("sdr_loss", TM), ("block_toeplitz", NL)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
