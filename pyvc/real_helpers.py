"""Oracles that run next to the real package (replays only): answers are None or a text saying what is wrong."""
import math

_H = {}


def peters(np, n, e):
    """g(n, e) of Peters and Mathews (1963), independent of the package"""
    from scipy.special import jv
    ne = n * e
    b = [jv(n + i, ne) for i in (-2, -1, 0, 1, 2)]
    return n ** 4 / 32 * ((b[0] - 2 * e * b[1] + 2 / n * b[2] + 2 * e * b[3] - b[4]) ** 2
                          + (1 - e * e) * (b[0] - 2 * b[2] + b[4]) ** 2 + 4 / (3 * n * n) * b[2] ** 2)


def enhancement(e):
    return (1 + 73 / 24 * e ** 2 + 37 / 96 * e ** 4) / (1 - e ** 2) ** 3.5


def harmonics():
    """stand-in for the data file harmonics.npz, which the repository does not ship"""
    import numpy as np
    if not _H:
        el, nm, e0, e1 = 40, 1200, 1e-7, 0.95
        er = 1 - np.logspace(np.log10(1 - e0), np.log10(1 - e1), el)
        _H.update(e_lims=np.array([e0, e1, el]), n_max=np.array(nm), g_vals=peters(np, np.arange(1, nm + 1)[None, :], er[:, None]))
    return {k: v.copy() for k, v in _H.items()}


class Bad(Exception):
    pass


_counting = False
_n = 0


def env(np, u, legwork):
    from legwork import source, snr as sn, psd, evol, utils, strain
    from scipy.interpolate import interp1d

    def close(a, b, rtol):
        a, b = float(a), float(b)
        return a == b or abs(a - b) <= rtol * max(abs(a), abs(b)) or math.isnan(a) and math.isnan(b)

    global _counting
    if not _counting:
        _counting = True
        import functools
        inner = psd.power_spectral_density

        @functools.wraps(inner)
        def counted(*a, **k):
            global _n
            _n += 1
            return inner(*a, **k)
        psd.power_spectral_density = counted

    def curves():
        return _n

    def simple_g():
        def set_g(self, interpolate_g):
            self.g = (lambda n, e: n * e) if interpolate_g else None
        source.Source.set_g = set_g

    def canvas():
        import matplotlib.pyplot as plt
        import seaborn
        from canvas import Record
        r = Record()
        plt.subplots, plt.show, seaborn.kdeplot = r.new, lambda *a, **k: None, r.seaborn
        return r

    def make(m1, m2, e, D, f, cls='Source', **kw):
        kw.setdefault('interpolate_g', False)
        return getattr(source, cls)(m_1=m1, m_2=m2, ecc=e, dist=D, f_orb=f, **kw)

    def resolve(o, inst):
        t = o['t_obs']
        return (4 * u.yr if inst == 'LISA' else 5 * u.yr) if isinstance(t, str) else t

    def options(stored, given):
        o = dict(source.DEFAULT_SC_PARAMS)
        o.update(stored)
        o.update({k: v for k, v in given.items() if v is not None})
        o['t_obs'] = resolve(o, o['instrument'])
        return o

    def curve(o):
        f = np.logspace(-7, np.log10(2), 10000) * u.Hz
        g = interp1d(f.value, psd.power_spectral_density(f, **o).to(1 / u.Hz).value, bounds_error=False, fill_value=1e30)
        return lambda x: g(x.to(u.Hz).value) / u.Hz

    def oracle(s, k, o, stationary, sc, n_step, big=1500):
        """-> list of admissible (snr, dominant) ranges for source k alone"""
        sl = slice(k, k + 1)
        noise = dict(interpolated_sc=sc) if sc is not None else {}
        kw = dict(instrument=o['instrument'], custom_psd=o['custom_psd'], L=o['L'], approximate_R=o['approximate_R'],
                  confusion_noise=o['confusion_noise'], interpolated_g=s.g, t_obs=o['t_obs'], **noise)
        m1, m2, f, D, e = s.m_1[sl], s.m_2[sl], s.f_orb[sl], s.dist[sl], s.ecc[sl]
        mc = utils.chirp_mass(m1, m2)
        if e[0] <= s.ecc_tol:
            if stationary:
                pos = {} if s.position is None else dict(position=s.position[sl], polarisation=s.polarisation[sl],
                                                         inclination=s.inclination[sl])
                v = sn.snr_circ_stationary(m_c=mc, f_orb=f, dist=D, **pos, **kw)
            else:
                tm = None if s.t_merge is None else s.t_merge[sl]
                v = sn.snr_circ_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=D, n_step=n_step, t_merge=tm, **kw)
            return float(np.ravel(v)[0]), float(np.ravel(v)[0]), {2}
        need = int(np.ravel(s.harmonics_required(e))[0])
        out, dom = [], set()
        for H in (need, max(big, need)):
            if stationary:
                v, d = sn.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=e, dist=D, harmonics_required=H, ret_max_snr_harmonic=True, **kw)
            else:
                v, d = sn.snr_ecc_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=D, ecc=e, harmonics_required=H, n_step=n_step,
                                           ret_max_snr_harmonic=True, **kw)
            out.append(float(np.ravel(v)[0]))
            dom.add(int(np.ravel(d)[0]))
        return min(out), max(out), dom

    def check_snr(m1, m2, e, D, f, method='get_snr', merged=None, which=None, given={}, stored={}, interp=True, g=None,
                  snr0=None, msh0=None, with_t_merge=False, sky={}, n_step=6, cls='Source', again=False):
        s = make(m1, m2, e, D, f, cls=cls, interpolate_sc=interp, sc_params=dict(stored), **sky)
        n = s.n_sources
        if g is not None:
            s.g = g
        if merged is not None:
            s.merged = np.array(merged)
        if with_t_merge:
            s.get_merger_time()
        s.snr = None if snr0 is None else np.array(snr0, dtype=float)
        s.max_snr_harmonic = None if msh0 is None else np.array(msh0).astype(int)
        o = options(stored, given)
        kw = {k: v for k, v in given.items()}
        if which is not None:
            kw['which_sources'] = np.array(which)
        if method == 'get_snr_evolving' or method == 'get_snr' and cls != 'Stationary':
            kw['n_step'] = n_step
        if again:
            getattr(s, method)(**dict(kw, instrument='TianQin', t_obs=1.5 * u.yr, L=None, confusion_noise=None,
                                      approximate_R=None, custom_psd=None))
            for k, v in o.items():
                kw[k] = v
            s.snr = None if snr0 is None else np.array(snr0, dtype=float)
            s.max_snr_harmonic = None if msh0 is None else np.array(msh0).astype(int)
        r = getattr(s, method)(**kw)
        sel = np.ones(n, bool) if which is None else np.array(which)
        r = np.asarray(r)
        whole = method == 'get_snr' and cls == 'Source'
        if r.shape != ((n,) if whole else (int(sel.sum()),)):
            return 'returned shape %s for %d of %d sources' % (r.shape, sel.sum(), n)
        full = np.zeros(n)
        full[slice(None) if whole else sel] = r
        if s.max_snr_harmonic is None and not (sel & ~s.merged).any():
            return None if s.snr is None or len(s.snr) == n else 'stored snr misaligned'
        if s.snr is None or len(s.snr) != n or s.max_snr_harmonic is None or len(s.max_snr_harmonic) != n:
            return 'stored snr or dominant harmonic missing or misaligned'
        direct = dict(o)
        scs = [None]
        if interp:
            scs.append(curve(o))
        for k in range(n):
            if not sel[k]:
                if method != 'get_snr' and snr0 is not None and not close(s.snr[k], snr0[k], 0):
                    return 'source %d was not selected but its stored SNR changed from %r to %r' % (k, snr0[k], s.snr[k])
                if msh0 is not None and int(s.max_snr_harmonic[k]) != int(msh0[k]):
                    return 'source %d was not selected but its dominant harmonic changed' % k
                continue
            if s.merged[k]:
                if full[k] != 0 or method == 'get_snr' and s.snr[k] != 0:
                    return 'merged source %d has SNR %r (stored %r)' % (k, full[k], s.snr[k])
                continue
            if method == 'get_snr_stationary' or cls == 'Stationary':
                st = True
            elif method == 'get_snr_evolving' or cls == 'Evolving':
                st = False
            else:
                st = bool(np.ravel(evol.determine_stationarity(m_c=s.m_c[k:k + 1], f_orb_i=s.f_orb[k:k + 1], t_evol=o['t_obs'],
                                                               ecc_i=s.ecc[k:k + 1], stat_tol=s.stat_tol))[0])
            why = None
            for sc in scs:
                lo, hi, dom = oracle(s, k, direct, st, sc, n_step)
                tol = 2e-3 if interp else 1e-7
                if not (lo * (1 - tol) <= full[k] <= hi * (1 + tol) or lo == hi == full[k]):
                    why = 'source %d (%s, e = %r) has SNR %r, expected %r%s' % (
                        k, 'stationary' if st else 'evolving', float(s.ecc[k]), full[k], lo, '' if lo == hi else ' to %r' % hi)
                elif int(s.max_snr_harmonic[k]) not in dom:
                    why = 'source %d has dominant harmonic %r, expected %s' % (k, int(s.max_snr_harmonic[k]), sorted(dom))
                elif not close(s.snr[k], full[k], 0):
                    why = 'stored SNR %r of source %d differs from the one returned, %r' % (s.snr[k], k, full[k])
                else:
                    why = None
                    break
            if why:
                return why
        return None

    def check_harmonics(G, hi, how, tol=None, tol2=None):
        G = np.array(G, dtype=float)
        R, C = G.shape
        if G[0, 0] + G[0, 1] < 1:
            return 'skip: first row is not circular'
        kept = dict(_H)
        x = 1 - np.logspace(np.log10(1 - 0.0), np.log10(1 - hi), R)
        try:
            _H.clear()
            _H.update(e_lims=np.array([0.0, hi, R]), n_max=np.array(C), g_vals=G)
            first = tol2 if how.startswith('changed') else tol
            kw = {} if how == 'default' else dict(gw_lum_tol=first)
            t = 0.05 if how == 'default' else tol
            s = make(*[np.array([v]) * w for v, w in ((1.0, u.Msun), (2.0, u.Msun), (0.3, u.one), (8.0, u.kpc), (1e-3, u.Hz))], **kw)
            if how == 'changed_back':
                s.gw_lum_tol = tol
                s.gw_lum_tol = tol2
            if how != 'default':
                s.gw_lum_tol = tol
        finally:
            _H.clear()
            _H.update(kept)
        need = lambda e: int(s.harmonics_required(e))
        last = 2
        at = []
        for k in range(R):
            e = x[k] - (1e-9 * (x[k] - x[k - 1]) if k else 0.0)
            h = need(e)
            at.append(h)
            if h < 2 or h > C:
                return 'row %d: %d harmonics of %d tabulated' % (k, h, C)
            if h < last:
                return 'row %d: %d harmonics, fewer than at a lower eccentricity (%d)' % (k, h, last)
            last = h
            if h < C and G[k, :h].sum() < (1 - t) * enhancement(x[k]) * (1 - 1e-9):
                return 'row %d: %d harmonics have %r of %r' % (k, h, G[k, :h].sum(), enhancement(x[k]))
        for k in range(R - 1):
            for w in (0.25, 0.5, 0.9):
                h = need(x[k] + w * (x[k + 1] - x[k]))
                if h < at[k] + w * (at[k + 1] - at[k]) - 1e-6:
                    return 'between rows %d and %d: %d harmonics for %d and %d' % (k, k + 1, h, at[k], at[k + 1])
        if need(x[-1] + 0.5 * (1 - x[-1])) < last:
            return 'above the table: fewer harmonics than in it'
        et = float(s.ecc_tol)
        below = lambda e, slack: peters(np, 2, e) < (1 - t) * enhancement(e) * (1 + slack)
        if not below(et, 1e-9):
            return 'ecc_tol = %r: the n=2 harmonic is not below the tolerance there' % et
        if et > 2.1e-5 and below(et - 2.1e-5, -1e-9):
            return 'ecc_tol = %r is not the first eccentricity with the n=2 harmonic below the tolerance' % et
        return None

    def check_close(hi, tol, how):
        """two tolerances that differ slightly, and a table for which that matters"""
        x = 1 - np.logspace(0.0, np.log10(1 - hi), 3)
        full = enhancement(x[1])
        kept = dict(_H)
        try:
            for t in (tol, tol * 1e-8):
                for d in (3e-3, 3e-6, 1e-7, 1e-9):
                    if t * d < 1e-14:
                        continue
                    for a, b in ((t, t * (1 + d)), (t * (1 + d), t)):
                        part = (1 - t * (1 + d / 2)) * full
                        G = np.array([[0, 1.0, 0, 0], [part / 4, part / 2, part / 4, 2 * full], [0, enhancement(x[2]), 0, 0]])
                        _H.clear()
                        _H.update(e_lims=np.array([0.0, hi, 3]), n_max=np.array(4), g_vals=G)
                        s = make(*[np.array([v]) * w for v, w in ((1.0, u.Msun), (2.0, u.Msun), (0.3, u.one), (8.0, u.kpc), (1e-3, u.Hz))], gw_lum_tol=a)
                        s.gw_lum_tol = b
                        if how == 'changed_back':
                            s.gw_lum_tol = a
                        last = a if how == 'changed_back' else b
                        want = 4 if G[1, :3].sum() < (1 - last) * full else 3
                        got = int(s.harmonics_required(x[1]))
                        if got < want:
                            return 'tolerance %r after %r (%s): %d harmonics have %r of %r' % (b, a, how, got, G[1, :got].sum(), full)
        finally:
            _H.clear()
            _H.update(kept)
        return None

    return dict(check_close=check_close, check_harmonics=check_harmonics, check_snr=check_snr, make=make, curves=curves, canvas=canvas, files=lambda: None, simple_g=simple_g)
