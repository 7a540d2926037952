"""text put in front of the demonstrations that need a Source (development only)"""
PRELUDE = '''
import warnings, sys
warnings.filterwarnings("ignore")
import numpy as np, astropy.units as u
from scipy.special import jv
_load = np.load


def g(n, e):
    b = [jv(n + i, n * e) for i in (-2, -1, 0, 1, 2)]
    return n ** 4 / 32 * ((b[0] - 2 * e * b[1] + 2 / n * b[2] + 2 * e * b[3] - b[4]) ** 2
                          + (1 - e * e) * (b[0] - 2 * b[2] + b[4]) ** 2 + 4 / (3 * n * n) * b[2] ** 2)


def load(path, *a, **k):
    """harmonics.npz is not shipped with the repository: recompute it, coarsely"""
    if str(path).endswith("harmonics.npz"):
        er = 1 - np.logspace(np.log10(1 - 1e-7), np.log10(1 - 0.95), 40)
        return dict(e_lims=np.array([1e-7, 0.95, 40]), n_max=np.array(1200),
                    g_vals=g(np.arange(1, 1201)[None, :], er[:, None]))
    return _load(path, *a, **k)


np.load = load
from legwork import source, snr, evol, utils, strain, psd


def close(a, b, rtol=1e-6):
    return np.allclose(np.asarray(a), np.asarray(b), rtol=rtol, atol=0)


def need(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
'''
