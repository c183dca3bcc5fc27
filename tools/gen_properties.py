#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the file stays well formed)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Bits and constellation symbols are in Gray-coded one-to-one correspondence",
 "For every supported modulation order the alphabet of a QAM or PSK signal has as many distinct points as the order and unit mean power, and it is labelled one-to-one by the bit patterns so that neighbouring points (grid neighbours for square QAM, angular neighbours for PSK) differ in exactly one bit. Modulating any bit sequence (whole symbols) and demodulating the resulting symbols returns exactly the same bits, and building a signal from a bit array keeps both.",
 ["inputs", "configurations"], "all modulation orders that are powers of two, all bit sequences, any number of modes and any length",
 "Tests check a handful of orders with one random bit stream each and never the neighbour relation; a relabelling that is still a bijection passes them.",
 ["qampy/signals.py", "qampy/theory.py", "qampy/core/utils.py"],
 [("Gray code", "qampy/core/utils.py:bin2gray"), ("grid labelling", "qampy/theory.py:gray_code_qam"), ("alphabets and scaling", "qampy/theory.py:cal_symbols_qam, cal_symbols_psk, cal_scaling_factor_qam"), ("bit/symbol tables", "qampy/signals.py:SignalQAMGrayCoded._generate_mapping,_modulate,_demodulate,from_bit_array; SignalPSKGrayCoded._generate_mapping")],
 [("encoding table", "label of every alphabet point as bits", "qampy/signals.py:_encoding")], ["signal.bits", "signal.modulate", "signal.demodulate"])

prop("C02", "A hard decision returns the nearest alphabet point",
 "For every sample, the decided symbol is an element of the alphabet and no other element is closer to the sample. The index and the distance that are reported along with it are that element's position and its distance from the sample, and the shape, order and modes of the samples are kept.",
 ["inputs"], "all samples, all non-empty alphabets, any length and number of modes",
 "Tests decide noise-free or mildly noisy points of normalised square QAM; ties, unnormalised alphabets, far-away samples and the distance and index outputs are not covered for all inputs.",
 ["qampy/core/equalisation/pythran_equalisation.py", "qampy/core/pythran_dsp.py", "qampy/core/signal_quality.py", "qampy/signals.py"],
 [("minimum search", "qampy/core/equalisation/pythran_equalisation.py:det_symbol, det_symbol_argmin, det_symbol_parallel, make_decision; qampy/core/pythran_dsp.py:det_symbol"), ("per-mode decision", "qampy/signals.py:SignalQAMGrayCoded.make_decision, SymbolOnlySignal.make_decision")], (), ["signal.make_decision()", "core.signal_quality.make_decision"])

prop("C03", "Pseudo-random bit sequences follow their shift-register recurrence",
 "For every supported order, seed and length, the generated pseudo-random bit sequence obeys the linear feedback recurrence given by the order's taps (external form) or polynomial mask (internal form) from the seed's register state, and has exactly the requested length. From any non-zero seed the sequence is never constant zero and repeats with the maximal period 2^order-1, and the compiled generators and the step-by-step generators produce the same bits.",
 ["inputs", "histories"], "orders 7, 15, 23, 31, every seed below 2^order and every length",
 "Tests compare against one stored sequence for the default seed; other seeds, lengths beyond the sample, the period and the internal form are not settled by examples.",
 ["qampy/core/prbs.py", "qampy/core/pythran_dsp.py", "qampy/core/utils.py"],
 [("Fibonacci register", "qampy/core/pythran_dsp.py:prbs_ext; qampy/core/utils.py:lfsr_ext"), ("Galois register", "qampy/core/pythran_dsp.py:prbs_int; qampy/core/utils.py:lfsr_int"), ("order tables and seeding", "qampy/core/prbs.py:make_prbs_extXOR, make_prbs_intXOR; qampy/core/utils.py:bool2bin")],
 [("register", "the shift register state between bits", "qampy/core/pythran_dsp.py:prbs_ext sr / prbs_int state")], ["make_prbs_extXOR", "make_prbs_intXOR"])

prop("C04", "Applying equaliser taps is exactly the multi-mode decimated inner product",
 "Every output sample of applying equaliser taps equals the sum over all input modes and taps of tap weight times the input sample at that tap position, advanced by the oversampling factor per output symbol; exactly floor((L-Ntaps+1)/os) symbols are produced and no sample outside the input is read. Selecting a subset of modes gives exactly the corresponding rows of the full result, and the real-valued form acts on the real and imaginary parts as separate modes and recombines them.",
 ["inputs", "configurations"], "all signals, taps, lengths, tap counts, oversampling factors and mode selections",
 "Tests compare two implementations or check convergence of a whole equaliser on one signal length; off-by-one errors at the end, single-tap, os>1 and mode-subset cases are unbounded in number.",
 ["qampy/core/equalisation/pythran_equalisation.py", "qampy/core/equalisation/equalisation.py", "qampy/equalisation.py"],
 [("inner product", "qampy/core/equalisation/pythran_equalisation.py:apply_filter"), ("decimating loop", "qampy/core/equalisation/pythran_equalisation.py:apply_filter_to_signal"), ("dispatch and real/complex split", "qampy/core/equalisation/equalisation.py:apply_filter, _convert_sig_to_real, _convert_sig_to_cmplx"), ("signal wrapper", "qampy/equalisation.py:apply_filter")], (), ["equalisation.apply_filter"])

prop("C05", "Each equaliser training step is the stated stochastic-gradient step",
 "At every training symbol the recorded error is the chosen method's error function of the current filter output, and the taps of that mode change by exactly step size times error times conjugated input window (no conjugate for real-valued), repeatedly over all iterations; the taps and errors of modes that were not selected do not change. With adaptive step size the step stays positive and never grows, and with it switched off it is constant; the constants, partitions and symbols fed to the methods are those of the unit-power constellation, so radius-directed methods pick the nearest of the constellation's radii.",
 ["inputs", "histories"], "all signals, tap values, step sizes, methods, iteration counts and mode selections",
 "Tests only look at the final quality of one convergence run, which many wrong gradients also reach; per-step equality must hold over the whole history.",
 ["qampy/core/equalisation/pythran_equalisation.py", "qampy/core/equalisation/equalisation.py"],
 [("training recurrences", "qampy/core/equalisation/pythran_equalisation.py:train_equaliser, train_equaliser_realvalued"), ("error functions", "qampy/core/equalisation/pythran_equalisation.py:*_error*, partition_value, adapt_step"), ("constants and partitions", "qampy/core/equalisation/equalisation.py:_cal_Rconstant, generate_partition_codes_*, generate_symbols_for_eq")],
 [("taps", "current filter taps of each mode", "wx"), ("step size", "current step size of each mode", "mu")], ["equalise_signal", "dual_mode_equalisation"])

prop("C06", "Parallel kernels give the same result under every thread schedule",
 "Every computational kernel that is annotated to run its iterations in parallel returns the same result (up to rounding of declared reductions) whatever the number of threads and in whatever order or interleaving the iterations run: no iteration reads or writes data that another iteration writes.",
 ["schedules", "inputs"], "all interleavings and thread counts of the annotated loops, for all inputs",
 "The tests run single threaded, and a race shows only under particular schedules.",
 ["qampy/core/equalisation/pythran_equalisation.py", "qampy/core/pythran_dsp.py"],
 [("parallel loops", "every '#omp parallel for' in qampy/core/pythran_dsp.py and qampy/core/equalisation/pythran_equalisation.py"), ("declared reductions", "reduction(+:...) clauses")], (), ["kernel outputs"])

prop("C07", "Blind phase search picks the test angle with minimal windowed distance",
 "At every sample where the averaging window fits, blind phase search selects the test angle whose distances to the nearest constellation points, summed over the window, are minimal; the pure Python and the compiled search select the same angles. The corrected signal is the input rotated by exactly the returned phase, so every sample keeps its magnitude, and the returned phase there is one of the test angles up to a multiple of a quarter turn.",
 ["inputs", "configurations"], "all signals, alphabets, numbers of test angles, window lengths and modes",
 "Tests check that a constant or slowly varying phase is recovered on one signal; window alignment, edges, long windows and agreement of implementations hold for every input only by proof.",
 ["qampy/core/pythran_dsp.py", "qampy/core/phaserecovery.py", "qampy/phaserec.py"],
 [("distance and window search", "qampy/core/pythran_dsp.py:bps, select_angle_index, det_symbol"), ("angle lookup", "qampy/core/pythran_dsp.py:select_angles"), ("python search and driver", "qampy/core/phaserecovery.py:_bps_idx_py, bps, bps_twostage")], (), ["phaserec.bps", "phaserec.bps_twostage"])

prop("C08", "SER, BER and EVM are the counted and averaged errors they are defined as",
 "For synchronised data the reported symbol error rate of a mode is the number of positions where the decided symbol differs from the sent one divided by the number of positions, the bit error rate likewise over the demodulated bits, and the EVM is the square root of the mean squared distance between received and sent symbols. They are zero when the received equals the sent signal, error rates lie between 0 and 1, and modes do not influence each other.",
 ["inputs"], "all received and sent sequences, any length and number of modes",
 "Tests insert a few known errors into one signal; the definition must hold for all inputs and for every mode.",
 ["qampy/signals.py", "qampy/core/ber_functions.py", "qampy/core/signal_quality.py"],
 [("metrics", "qampy/signals.py:SignalBase.cal_ser, cal_ber, cal_evm"), ("bit counting", "qampy/core/ber_functions.py:cal_ber_syncd"), ("EVM definitions", "qampy/core/signal_quality.py:cal_evm, _cal_evm_blind")], (), ["signal.cal_ser", "signal.cal_ber", "signal.cal_evm"])

prop("C09", "Sequence alignment only shifts, rotates and periodically repeats",
 "Synchronising two sequences returns sequences of equal length in which the adjusted one is a cyclic shift, truncation or periodic repetition of the original, for complex data times one common power of j, while the other sequence is returned unchanged. When one sequence is extended from a given offset, sample n of the result is the original sample (n-offset) modulo its length, and if the sequences differ only by a cyclic shift (and quarter turn) at which alone their correlation peaks they coincide afterwards.",
 ["inputs"], "all sequences and lengths, either adjustment direction, all offsets",
 "Tests use a few lengths and offsets; the exact-multiple, shorter-than-offset and equal-length corner cases are combinations that examples skip.",
 ["qampy/core/ber_functions.py", "qampy/signals.py"],
 [("offset search", "qampy/core/ber_functions.py:find_sequence_offset, find_sequence_offset_complex"), ("length adjustment", "qampy/core/ber_functions.py:sync_and_adjust, adjust_data_length, _adjust_to"), ("per-mode alignment", "qampy/signals.py:SignalBase._sync_and_adjust, _adjust_only")], (), ["sync_and_adjust", "adjust_data_length"])

prop("C10", "Pilot frames have exactly the advertised layout and lose no payload",
 "In every frame of a signal with pilots, the first pilot-sequence-length positions and then every insertion-ratio-th position hold the pilots in order and scaled as requested, and all other positions hold the payload symbols in order; the two position sets partition the frame. Extracting the payload or the pilots of any set of frames returns exactly those symbols, in frame order.",
 ["inputs", "configurations"], "all frame lengths, pilot sequence lengths, insertion ratios, pilot scalings, frame counts, modes and frame selections",
 "Tests use a few frame geometries, mostly one frame; the index arithmetic has to be right for all of them.",
 ["qampy/signals.py", "qampy/helpers.py"],
 [("pilot positions", "qampy/signals.py:SignalWithPilots._cal_pilot_idx"), ("frame assembly", "qampy/signals.py:SignalWithPilots.__new__, from_symbol_array"), ("extraction", "qampy/signals.py:SignalWithPilots.get_data, extract_pilots; qampy/helpers.py:find_pilot_idx")],
 [("pilot masks", "which frame positions carry pilots or payload", "_idx_pil, _idx_dat")], ["signal.get_data", "signal.extract_pilots", "signal.pilots"])

prop("C11", "Signal objects carry their reference data through processing",
 "Arithmetic, slicing, copying, pickling, resampling and the library's own processing functions return signal objects that still carry the symbol rate, sampling rate, modulation order, reference symbols and bits of their input, changed only where the operation defines it (the sampling rate after resampling, symbols after rebuilding from arrays with explicit new values). Objects do not share a changeable record, so changing an attribute of the result leaves the input's unchanged.",
 ["inputs", "programs", "histories"], "all signal classes, all sequences of such operations",
 "Tests look at some attributes after single operations; the property quantifies over sequences of operations on all classes.",
 ["qampy/signals.py", "qampy/equalisation.py", "qampy/phaserec.py", "qampy/impairments.py", "qampy/filtering.py"],
 [("attribute inheritance", "qampy/signals.py:SignalBase.__array_finalize__, _copy_inherits, recreate_from_np_array, __reduce__, __setstate__"), ("resampling", "qampy/signals.py:SignalBase.resample, _resample_array")],
 [("inherited attributes", "metadata copied from object to object", "_inheritattr_")], ["signal.fb", "signal.fs", "signal.symbols", "signal.bits"])

prop("C12", "Lossless channel impairments are invertible and preserve energy",
 "Polarisation rotation, first-order PMD, chromatic dispersion, phase noise, carrier offset and modal delay keep the total energy of any signal, act linearly, and are undone by the opposite rotation, delay, dispersion, phase or offset; phase noise and carrier offset keep the magnitude of each sample, modal delay only permutes samples within a mode. Each mode's output comes from the modes the model says and no other.",
 ["inputs", "configurations"], "all signals, lengths (odd and even), mode counts and impairment parameters",
 "Tests check angles or variances on a few random signals with stochastic tolerances; unitarity for all parameters and lengths is not sampled.",
 ["qampy/core/impairments.py", "qampy/impairments.py"],
 [("rotation and PMD", "qampy/core/impairments.py:rotate_field, _applyPMD_dot, apply_PMD_to_field"), ("dispersion", "qampy/core/impairments.py:add_dispersion"), ("phase and frequency", "qampy/core/impairments.py:phase_noise, apply_phase_noise, add_carrier_offset"), ("delay", "qampy/core/impairments.py:add_modal_delay"), ("noise scaling", "qampy/core/impairments.py:change_snr, add_awgn")], (), ["impairments.*"])

prop("C13", "Normalisation and IQ compensation deliver the power and balance they promise",
 "After normalising and centring, every mode separately has zero mean and unit mean power and differs from its input only by a shift and a positive scale; the pilot-based variant guarantees this on the pilot positions. IQ-imbalance compensation returns in-phase and quadrature components with equal power and zero correlation and leaves the centred in-phase component unchanged; rescaling makes the largest component equal the requested swing per mode.",
 ["inputs"], "all signals with non-zero variance, any length and mode count, real, complex and single-precision",
 "Tests use one random signal each; one- and two-dimensional code paths and modes of different power are easily missed.",
 ["qampy/helpers.py", "qampy/core/analog_frontend.py"],
 [("normalisation", "qampy/helpers.py:normalise_and_center, normalise_and_center_pil, get_center_shift_fac"), ("rescaling", "qampy/helpers.py:rescale_signal, set_mid_point, set_mid_and_resale"), ("IQ compensation", "qampy/core/analog_frontend.py:comp_IQ_inbalance, orthonormalize_signal"), ("analytic units", "qampy/helpers.py:dB2lin, lin2dB, cabssquared")], (), ["helpers.normalise_and_center", "analog_frontend.comp_IQ_inbalance"])

prop("C14", "Processing functions never modify their input arrays",
 "Library functions that return a processed signal, filter taps, metric or estimate leave every array that the caller passed in (signals, taps, symbols, pilots, test angles, bit maps) exactly as it was.",
 ["inputs", "configurations"], "every public processing function, all inputs, dtypes and memory layouts",
 "A test that uses only the return value cannot see it, and whether an alias survives depends on dtype, contiguity and dimensionality of the particular input.",
 ["qampy/core/equalisation/equalisation.py", "qampy/core/analog_frontend.py", "qampy/core/impairments.py", "qampy/helpers.py", "qampy/core/phaserecovery.py", "qampy/core/filter.py", "qampy/core/ber_functions.py", "qampy/core/signal_quality.py", "qampy/theory.py"],
 [("defensive copies", "np.copy / non in-place arithmetic in the listed modules")], (), ["arguments after the call"])

prop("C15", "Windowed views and running averages address exactly the right samples",
 "Segmenting a signal into overlapping frames or rolling windows yields, for frame r and position c, exactly the sample at r times the hop plus c (wrapped or padded at the end as requested), with the full number of frames, and never reaches memory outside the array. The moving average of every window is the arithmetic mean of its samples for every mode.",
 ["inputs", "configurations"], "all lengths, frame lengths, overlaps, axes, end modes and window sizes",
 "The views are built from raw strides, so a wrong count silently reads foreign memory for particular lengths; the tests use a few sizes.",
 ["qampy/core/segmentaxis.py", "qampy/core/utils.py", "qampy/core/filter.py"],
 [("frame arithmetic", "qampy/core/segmentaxis.py:segment_axis"), ("window strides", "qampy/core/utils.py:rolling_window"), ("cumulative-sum average", "qampy/core/filter.py:moving_average")], (), ["segment_axis", "rolling_window", "moving_average"])

prop("C16", "Soft-decision metrics follow their log-likelihood definitions",
 "The soft demapper's value for bit b of a sample is the log of the ratio of summed Gaussian likelihoods over the points labelled 1 and 0, the min-max variant the scaled difference of the smallest squared distances, and the bit map used lists for every bit exactly the alphabet points with that bit value. The SNR estimate splits the received power into the power of the per-symbol means and the variance around them, and mutual information equals log2 of the order minus the mean log-sum penalty, hence never exceeds it for the reference points.",
 ["inputs"], "all samples, alphabets, labellings and noise levels",
 "Tests check monotonicity or a tolerance against theory on random draws; a wrong weight, sign or label can stay within tolerance.",
 ["qampy/core/pythran_dsp.py", "qampy/core/signal_quality.py", "qampy/signals.py", "qampy/theory.py"],
 [("log-likelihood ratios", "qampy/core/pythran_dsp.py:soft_l_value_demapper, soft_l_value_demapper_minmax"), ("information metrics", "qampy/core/pythran_dsp.py:cal_mi_mc, cal_mi_mc_fast, cal_gmi_mc, estimate_snr"), ("bit map", "qampy/core/signal_quality.py:generate_bitmapping_mtx"), ("signal methods", "qampy/signals.py:SignalBase.est_snr, cal_gmi, cal_mi")], (), ["signal.est_snr", "signal.cal_gmi", "signal.cal_mi"])

prop("C17", "Quantiser, clipper and amplifier models respect their level and range limits",
 "The clipper returns every component unchanged inside the clipping range and at the limit with its own sign outside; the quantisers return, per real and imaginary component, one of the 2^nbits advertised levels and, in the mid-point variant, the nearest level. The ideal amplifier scales so that the largest component equals the requested voltage, and lookup-table precompensation averages the error separately over every symbol pattern.",
 ["inputs", "configurations"], "all signals, bit depths, clipping levels and pattern lengths",
 "Tests cover single values of each parameter and none of the thresholds.",
 ["qampy/core/impairments.py", "qampy/core/digital_pre_compensation.py", "qampy/core/pythran_dsp.py"],
 [("clipper and LUT", "qampy/core/digital_pre_compensation.py:clipper, find_sym_patterns, cal_lut; qampy/core/pythran_dsp.py:cal_lut_avg"), ("quantisers", "qampy/core/impairments.py:quantize_signal, quantize_signal_New"), ("amplifier and modulator", "qampy/core/impairments.py:ideal_amplifier_response, modulator_response")], (), ["clipper", "quantize_signal", "cal_lut"])

prop("C18", "Theoretical curves and special functions satisfy their defining relations",
 "The BER-versus-EVM curve equals the BER-versus-SNR curve at the SNR that the EVM implies, dB conversion and its inverse undo each other, symbol error curves are the stated erfc expressions, and shaping probabilities are positive, sum to one and are ordered by symbol energy as the shaping factor says. Pulse responses (Gaussian, sech, raised cosine and its square root) equal their closed forms, including the special points where the general formula is undefined, and the raised-cosine spectrum equals the square of the root-raised one.",
 ["inputs", "configurations"], "all arguments in the stated domains",
 "Tests compare stored values at a few points.",
 ["qampy/theory.py", "qampy/helpers.py", "qampy/core/special_fcts.py"],
 [("error-rate curves", "qampy/theory.py:ber_vs_evm_qam, ber_vs_es_over_n0_qam, ser_vs_es_over_n0_*"), ("special functions", "qampy/core/special_fcts.py:*"), ("units", "qampy/helpers.py:dB2lin, lin2dB"), ("shaping", "qampy/theory.py:cal_ps_probablts")], (), ["theory.*", "special_fcts.*"])

prop("C19", "Carrier recovery removes exactly the phase and frequency it reports",
 "Compensating a frequency offset multiplies sample n of each mode by a unit phasor advancing by the reported offset per symbol, so it undoes an added offset of that size up to a constant phase; Viterbi-Viterbi and pilot-based phase recovery likewise return the input rotated by the negative of the phase they report, each mode with its own estimate. Pilot-based frequency and phase estimates use only pilots of the addressed mode, and between pilots the phase is interpolated.",
 ["inputs", "configurations"], "all signals, offsets, oversampling factors, mode counts and averaging lengths",
 "Tests check residual error rates on simulated links; wrong sign, scaling or mode indexing only shows for particular parameter combinations.",
 ["qampy/core/phaserecovery.py", "qampy/phaserec.py", "qampy/core/pilotbased_receiver.py"],
 [("frequency compensation", "qampy/core/phaserecovery.py:comp_freq_offset, find_freq_offset"), ("phase recovery", "qampy/core/phaserecovery.py:viterbiviterbi, phase_partition_16qam"), ("pilot-aided", "qampy/core/pilotbased_receiver.py:pilot_based_foe, pilot_based_cpe, pilot_based_cpe_new")], (), ["phaserec.*"])

prop("C20", "Saving and loading a signal returns the same signal",
 "A signal object written to file and read back has the same samples, type, symbol rate, sampling rate, reference symbols and bits as before, at every compression level.",
 ["inputs", "histories"], "all signal classes and contents",
 "Tests save one object of a few classes.",
 ["qampy/io.py", "qampy/core/io.py", "qampy/signals.py"],
 [("serialisation", "qampy/core/io.py:save_signal, load_signal; qampy/signals.py:SignalBase.__reduce__, __setstate__")], (), ["save_signal", "load_signal"])

with open(OUT, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
