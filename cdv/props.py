"""Property table used by check.py"""
import time

PROPS = {
    'C01': dict(harness=['C01', 'pipeline'], standin='loop statements and bounds on random constraint sets, and the whole generator on random inputs'),
    'C02': dict(harness=['C02', 'pipeline'], standin='modulo guards from whole constraints and constraint sets on random inputs, and the whole generator'),
    'C03': dict(harness=['C03'], standin='statements: loop headers, guards, assignments, calls and block structure of random programs in both languages, read back and compared'),
    'C04': dict(harness=['C04']), 'C05': dict(harness=['C05']),
    'C06': dict(harness=['pipeline'], standin='component decomposition (Tarjan), sorting, stride detection and backtracking on random inputs, through the whole generator'),
    'C07': dict(harness=['C07', 'C16', 'pipeline'], standin='ownership across the whole generator (loop, clast, program layers) on random inputs'),
    'C10': dict(harness=['C10', 'pipeline'], standin='strides and unrolling through the whole generator on random inputs'),
    'C16': dict(harness=['C16'], standin='wrappers whose isl primitives have no contract yet (sorting, scattering, matrices, one-time loops) on random sets'),
}

ASSUMPTIONS = [
    'C int/long arithmetic is treated as mathematical (no overflow); pointers are abstract addresses, no pointer arithmetic across objects',
    'GMP integers are mathematical integers with the documented semantics of each mpz function used',
    'memory allocation never fails; distinct live allocations are disjoint',
    'single-threaded execution; no longjmp/signals',
    'partial correctness: termination is not proved',
]


def run_lemmas(prop, timeout):
    out = []
    try:
        import lemmas
    except ImportError:
        return out
    for name, props, thunk in lemmas.LEMMAS:
        if prop in props:
            t = time.time()
            out.append((name, thunk(timeout), time.time() - t))
    return out


NOT_APPLICABLE = {}
