"""Concrete twins shared by the real-code worker and the numeric evaluation of contracts."""
import math
RECORD = []


# scalar definitions of the callables handed to the code
def g_interp(n, e):
    return math.sin(2.3 * n + 3.1 * e)


def g_decay(n, e):
    return math.exp(-0.7 * abs(n - 1 - round(1.4 - e))) * (1 + e)


def my_noise(f, t):
    return 1e-38 * (2 + math.sin(40 * math.log10(f))) * (1 + 0.1 * math.cos(t / 3e7))


def sc_interp(f):
    return 1e-40 * (1.5 + math.sin(7 * math.log10(f)))


def my_psd(f, t, L):
    return 1e-39 * (1.5 + math.cos(9 * math.log10(f))) * (1.2 + math.sin(t / 1e7)) * (1 + 1e-9 * L)


SCALARS = {'g_interp': g_interp, 'g_decay': g_decay, 'my_noise': my_noise, 'sc_interp': sc_interp, 'my_psd': my_psd}


def _vec(name):
    def make(np, u):
        f = np.vectorize(SCALARS[name], otypes=[float])

        def cb(*args):
            return np.array(f(*args))
        return cb
    return make


def _noise(np, u):
    f = np.vectorize(my_noise, otypes=[float])

    def cb(freq, t_obs):
        freq = freq.to(u.Hz).value if isinstance(freq, u.Quantity) else freq
        return np.array(f(freq, t_obs.to(u.s).value)) / u.Hz
    return cb


def _sc(np, u):
    g = np.vectorize(sc_interp, otypes=[float])
    return lambda f: np.array(g(f.to(u.Hz).value)) / u.Hz


def _psd(np, u):
    g = np.vectorize(my_psd, otypes=[float])
    return lambda f, t_obs, L, approximate_R, confusion_noise: np.array(g(
        f.to(u.Hz).value, t_obs.to(u.s).value, L.to(u.m).value)) / u.Hz


CALLBACKS = {'g_interp': _vec('g_interp'), 'g_decay': _vec('g_decay'), 'my_noise': _noise, 'sc_interp': _sc, 'my_psd': _psd}


def data_file(name, np):
    if name == 'harmonics.npz':
        import real_helpers
        return real_helpers.harmonics()
    return None


def callback(name, np, u):
    return CALLBACKS[name](np, u)


def script_env(np, u, legwork):
    import real_helpers
    return real_helpers.env(np, u, legwork)
