"""writes known_findings.json (committed; never written by a check)"""
import json, os
F = []


def fixed(prop, commit, what):
    F.append(dict(kind="fixed", property=prop, commit=commit, what="fixed: property=%s %s %s" % (prop, commit, what)))


def known(prop, what, probe):
    F.append(dict(kind="known", property=prop, what=what, probe=probe))


for p in ("C02", "C07", "C16"):
    fixed(p, "6fad491", "decisions and searches started from a fixed sentinel distance (1000., 10000.), so far away samples got symbol 0 / angle 0 / a wrong value")
fixed("C16", "3e22ed2", "estimate_snr returned nan when a point of the constellation was never sent")
fixed("C15", "1808575", "segment_axis addressed the wrong samples for arrays that are not contiguous (views)")
fixed("C15", "02472e9", "wrapped frames and rolling windows longer than the data read memory outside the array")
fixed("C09", "3348553", "extending a sequence by an offset that is a multiple of its length returned more samples than requested")
fixed("C09", "164008a", "find_sequence_offset_complex failed on sequences without any correlation")
fixed("C09", "14db4d3", "find_offset matched bytes that straddle two elements and returned a fractional position")
fixed("C12", "d2b25eb", "add_dispersion swapped the modes of a signal")
fixed("C12", "1bd04a0", "simulate_transmission ignored the requested dispersion")
fixed("C14", "bab0101", "comp_IQ_inbalance changed its input array")
fixed("C13", "426d8c2", "comp_IQ_inbalance returned nan when the quadrature was stronger than the in-phase component")
fixed("C13", "2287bc0", "orthonormalize_signal normalised the quadrature by the power before orthogonalisation")
fixed("C13", "b275a0d", "normalise_and_center_pil raised for a single mode")
fixed("C13", "41a83a6", "rescale_signal raised for a single mode")
fixed("C03", "91d744b", "make_prbs_intXOR called prbs_int without the register length and always raised")
fixed("C01", "6980b94", "SignalQAMGrayCoded.from_symbol_array kept the bits of the last mode only")
fixed("C05", "d23ea73", "train_equaliser ran the plain CMA error for the method sgncma")
fixed("C05", "45da25b", "MRDE partitions of 8-QAM were dropped (codes looked up outside the codebook)")
fixed("C05", "af75bce", "dual_mode_equalisation without symbols trained decision methods on nan; data-aided first method got the alphabet as data")
fixed("C05", "1fedac1", "dual_mode_equalisation with real-valued taps and selected modes applied the wrong taps")
fixed("C14", "2910dcb", "quantize_signal rescaled its input in place")
fixed("C17", "a1ced63", "quantize_signal_New without rescale_in quantised an undefined/other signal")

fixed("C10", "d390582", "SignalWithPilots(repeat_pilots=False, nframes>1) raised: pilots were generated for one frame only")
fixed("C10", "06be3bf", "get_data(frames=...) used a mask that ended before the last requested frame")
fixed("C10", "78dd005", "from_symbol_array(pilot_idx=...) stored integer positions where masks are expected (payload length off by one, extraction wrong)")
fixed("C10", "c56d8be", "from_symbol_array(M=...) altered its own default argument: the next call raised or used the wrong order")
fixed("C19", "e6ca632", "viterbiviterbi returned the phase of the last mode only")
fixed("C19", "2820a00", "pilot_based_cpe_new with max_num_blocks raised or used reference pilots of other positions")
fixed("C19", "3a5e8d4", "pilot_based_cpe worked for two modes only")
fixed("C19", "35cfb21", "pilot_cpe compared the phase pilots of the second and later frames with pilots of other positions")
fixed("C18", "7d820bd", "rcos_time was nan/inf where the general formula is undefined (2 beta |t| = T)")
fixed("C18", "09e01da", "rcos_freq raised for beta=0 and truncated to integers for integer frequencies")
fixed("C18", "0803a23", "rrcos_time replaced points up to a quarter sample away from the undefined points by the limits there; raised for beta=0")
fixed("C18", "06806f3", "hybrid_qam_ber_vs_esn0 (and generate_ps_symbols) raised NameError")
fixed("C14", "e072613", "equalise_signal wrote the adapted taps into the taps passed in")
fixed("C14", "6fe8366", "sim_mi_mc rescaled the symbols passed in")
fixed("C14", "bc068b8", "TDHQAMSymbols.from_symbol_arrays rescaled the symbols passed in")
fixed("C14", "aac7f02", "correct_shifts altered the shift factors passed in")
fixed("C14", "f4fa9e9", "shift_signal rolled its input in place")
fixed("C14", "3ede6ee", "applying taps to a pilot signal altered its shift factors")
known("C08", "cal_ber_nosyncd raises UnboundLocalError for every input (data_tx_sync is used before it is assigned)", """
def probe():
    import numpy as np
    from qampy.core import ber_functions as bf
    try:
        bf.cal_ber_nosyncd(np.array([True, False, True, True]), np.array([True, False, True, True]))
    except UnboundLocalError:
        return True
    return False
""")
known("C08", "signal_quality.cal_ser_qam raises for every input (it passes the order instead of the symbols to make_decision, which takes no method)", """
def probe():
    import numpy as np
    from qampy.core import signal_quality as sq
    try:
        sq.cal_ser_qam(np.array([1+1j, 1-1j]), np.array([1+1j, 1-1j]), 4)
    except TypeError:
        return True
    return False
""")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more_findings.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more_findings.py")) else None
json.dump(F, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
