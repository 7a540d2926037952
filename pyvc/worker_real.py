"""Runs contract-case calls against the real package (real numpy/astropy/scipy); JSON lines on stdin/stdout."""
import contextlib
import copy
import io
import json
import math
import os
import sys
import tempfile
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.insert(1, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('NUMBA_CACHE_DIR', tempfile.gettempdir())
out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import astropy.units as u
import astropy.constants as const
from astropy.coordinates import SkyCoord
import concrete

_np_load = np.load


def fake_load(path, *a, **k):
    p = str(path)
    if os.path.exists(p):
        return _np_load(path, *a, **k)
    r = concrete.data_file(os.path.basename(p), np)
    if r is None:
        return _np_load(path, *a, **k)
    return r


np.load = fake_load
import legwork
from legwork import utils, evol, strain, psd, snr, source
try:
    from legwork import visualisation
except Exception:
    visualisation = None
import logging
logging.getLogger('legwork').setLevel(logging.CRITICAL)

BASES = [u.m, u.kg, u.s, u.rad, u.K, u.A]


def unit(name):
    if name == 'one':
        return u.dimensionless_unscaled
    try:
        return u.Unit(name)
    except Exception:
        import re
        o = u.dimensionless_unscaled
        for k, part in enumerate(name.split('/')):
            for mm in re.finditer(r'([A-Za-z]+)(\d*)', part):
                x = u.Unit(mm.group(1)) ** int(mm.group(2) or 1)
                o = o * x if k == 0 else o / x
        return o


def dec_lit(v):
    if isinstance(v, dict):
        if '§unit' in v:
            return unit(v['§unit'])
        if '§tuple' in v:
            return tuple(dec_lit(x) for x in v['§tuple'])
        if '§float' in v:
            return float(v['§float'])
        return {k: dec_lit(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec_lit(x) for x in v]
    return v


def dec(d):
    t = d['t']
    if t == 'q':
        v = d['v']
        if d['shape']:
            v = np.array(v, dtype=float).reshape(d['shape'])
        return v * unit(d['unit'])
    if t == 'a':
        return np.array(d['v'], dtype={'float': float, 'int': int, 'bool': bool}[d['dtype']]).reshape(d['shape'])
    if t == 'list':
        return list(d['v'])
    if t == 's':
        v = d['v']
        ty = {'float': float, 'int': int, 'bool': bool}[d['dtype']](v)
        if d.get('np'):
            return {'float': np.float64, 'int': np.int64, 'bool': np.bool_}[d['dtype']](ty)
        return ty
    if t == 'lit':
        return dec_lit(d['v'])
    if t == 'sky':
        return SkyCoord(dec(d['lon']), dec(d['lat']), frame=d.get('frame', 'heliocentrictrueecliptic'))
    if t == 'fn':
        return concrete.callback(d['name'], np, u)
    raise ValueError(t)


def fl(x):
    return [float(y) for y in np.asarray(x).ravel()]


def udims(un):
    si = un.decompose(bases=BASES)
    d = [0.0] * 6
    for b, p in zip(si.bases, si.powers):
        d[BASES.index(b)] = float(p)
    return d, float(si.scale)


def enc(x, depth=0):
    if isinstance(x, u.Quantity):
        d, sc = udims(x.unit)
        return {'t': 'q', 'shape': list(x.shape), 'v': fl(np.asarray(x.value, dtype=float) * sc), 'dims': d,
                'scale': sc, 'unit': str(x.unit)}
    if isinstance(x, SkyCoord):
        return {'t': 'sky', 'lon': enc(x.spherical.lon.to(u.rad)), 'lat': enc(x.spherical.lat.to(u.rad))}
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return {'t': 'l', 'v': [enc(y, depth + 1) for y in x.ravel()]}
        if x.dtype.kind in 'US':
            return {'t': 'l', 'v': [enc(str(y)) for y in x.ravel()]}
        return {'t': 'a', 'shape': list(x.shape), 'v': fl(x), 'dtype': x.dtype.kind}
    if x is None:
        return {'t': 'none'}
    if isinstance(x, (bool, np.bool_)):
        return {'t': 's', 'v': bool(x), 'dtype': 'b'}
    if isinstance(x, (int, np.integer)):
        return {'t': 's', 'v': int(x), 'dtype': 'i'}
    if isinstance(x, (float, np.floating)):
        return {'t': 's', 'v': float(x), 'dtype': 'f'}
    if isinstance(x, (str, bytes, np.str_)):
        return {'t': 'str', 'v': str(x)}
    if isinstance(x, (list, tuple)) and depth < 6:
        return {'t': 'l', 'v': [enc(y, depth + 1) for y in x]}
    if isinstance(x, dict) and depth < 6:
        return {'t': 'd', 'v': {str(k): enc(v, depth + 1) for k, v in x.items()}}
    if isinstance(x, u.UnitBase):
        d, sc = udims(x)
        return {'t': 'unit', 'dims': d, 'scale': sc, 'unit': str(x)}
    return {'t': 'o', 'cls': type(x).__name__}


def same(a, b):
    """value, unit, shape, type identical"""
    if type(a) is not type(b):
        return False
    if isinstance(a, u.Quantity):
        return a.unit == b.unit and a.shape == b.shape and np.array_equal(a.value, b.value, equal_nan=True)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and (
            np.array_equal(a, b, equal_nan=True) if a.dtype.kind == 'f' else np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, SkyCoord):
        return same(a.spherical.lon, b.spherical.lon) and same(a.spherical.lat, b.spherical.lat)
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    if callable(a):
        return True
    try:
        return bool(a == b)
    except Exception:
        return True


def run(req):
    tmp = tempfile.mkdtemp(prefix='vc_real_')
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        inputs = {k: dec(v) for k, v in req['inputs'].items()}
        before = {k: (v if callable(v) else copy.deepcopy(v)) for k, v in inputs.items()}
        concrete.RECORD.clear()
        env = dict(np=np, u=u, const=const, SkyCoord=SkyCoord, legwork=legwork, utils=utils, evol=evol, strain=strain,
                   psd=psd, snr=snr, source=source, visualisation=visualisation, enc=enc)
        env.update(concrete.script_env(np, u, legwork))
        env.update(inputs)
        res = {}
        sink = io.StringIO()
        try:
            with contextlib.redirect_stdout(sink), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                exec(compile(req['call'], '<call>', 'exec'), env)
            res['ret'] = enc(env.get('result'))
        except Exception as e:
            import traceback
            res['exc'] = [c.__name__ for c in type(e).__mro__]
            res['msg'] = str(e)[:300]
            tb = traceback.extract_tb(e.__traceback__)
            res['where'] = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        # numpy arrays may be views of the same input: compare against the pristine copies
        res['mutated'] = [k for k in inputs if not same(inputs[k], before[k])]
        return res
    finally:
        os.chdir(cwd)
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
        with contextlib.suppress(Exception):
            import matplotlib.pyplot as plt
            plt.close('all')


def consts():
    return {'Gnewt': const.G.si.value, 'clight': const.c.si.value, 'Msun': const.M_sun.si.value,
            'Rsun': const.R_sun.si.value, 'Lsun': const.L_sun.si.value}


def main():
    out.write(json.dumps({'ready': True, 'consts': consts(), 'file': legwork.__file__}) + '\n')
    out.flush()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        try:
            r = run(json.loads(line))
        except Exception as e:
            r = {'worker_error': '%s: %s' % (type(e).__name__, e)}
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
