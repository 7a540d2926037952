"""C23: the stored sensitivity curve always matches its parameters."""
import itertools
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Sky, Call
from pyvc.spec import *
from pyvc.engine import E
from pyvc.terms import walk, subst
from . import defs as d
from . import srcdefs as q
from .c20_c26 import BASE, mass, FREQ, E_MIX, cb_noise, drive
from .c16_c17 import cb_psd

CASES = {}


def counting(world):
    """how often the noise curve is computed"""
    q.facts(world)
    inner = world.stubs['psd.power_spectral_density']

    def f(*a, **k):
        E.events.append('curve')
        return inner(*a, **k)
    world.stubs['psd.power_spectral_density'] = f


def case(prop, *a, **k):
    k.setdefault('setup', counting)
    k.setdefault('stubs', q.CTOR + ('psd.power_spectral_density',))
    k.setdefault('variants', [{}])
    k.setdefault('samples', 2)
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


T_OBS = Dom(lo=0, lo_open=True, rng=(0.5 * float(YR), 9 * float(YR)), special=[4 * float(YR), 5 * float(YR)])
ARM = Dom(lo=0, lo_open=True, rng=(1e8, 1e10))


def tin():
    return In('time', (), T_OBS, units=['yr', 's', 'd'])


def lin():
    return In('length', (), ARM, units=['m', 'km'])


INS = dict(t=tin(), t2=tin(), L=lin(), L2=lin(), cp=Call('my_psd', cb_psd), cn=Call('my_noise', cb_noise))
SRC = dict(m1=mass(2), m2=mass(2), e=In(None, (2,), E_MIX), D=In('dist', (2,), 'dist'), f=In('frequency', (2,), FREQ),
           x=In('frequency', (), Dom(lo=0, lo_open=True, rng=(1e-6, 1.5))))
KEYS = ('instrument', 'custom_psd', 't_obs', 'L', 'approximate_R', 'confusion_noise')
DEF = dict(instrument='"LISA"', custom_psd='None', t_obs='"auto"', L='"auto"', approximate_R='False', confusion_noise='"auto"')
STATES = {
    'default': {},
    'lisa': dict(t_obs='t', L='L', approximate_R='True', confusion_noise='"robson19"'),
    'tianqin': dict(instrument='"TianQin"', confusion_noise='None', t_obs='t'),
    'decigo': dict(instrument='"DECIGO"', confusion_noise='"huang20"'),
    'custom': dict(instrument='"custom"', custom_psd='cp', t_obs='t', L='L'),
}


def kw(dct):
    return 'dict(%s)' % ', '.join('%s=%s' % kv for kv in dct.items())


def make(v, params, extra=''):
    return '%s = source.Source(m_1=m1, m_2=m2, ecc=e, dist=D, f_orb=f, interpolate_g=False, sc_params=%s%s)\n' % (v, kw(params), extra)


def used(text):
    import re
    names = set(re.findall(r'\b(t|t2|L|L2|cp|cn)\b', text))
    return {k_: v for k_, v in INS.items() if k_ in names}


SHOW = ', '.join('%s=s.sc_params["%s"]' % (k_, k_) for k_ in KEYS if k_ != 'custom_psd')
SAME = 's.sc_params["custom_psd"] is %s'


def expected(i, params):
    out = {}
    for k_ in KEYS:
        v = params[k_]
        if k_ == 'custom_psd' or v == 'cn':
            out[k_] = Any()
            continue
        out[k_] = getattr(i, v) if v[0] not in '"TFN' else eval(v)
    out.pop('custom_psd')
    return out


def after(name, state, ops, calls=None, pre=''):
    """operations: [(code, parameters they change)]; afterwards the curve is that of a new collection with the same parameters"""
    p = dict(DEF, **STATES[state])
    code = make('s', STATES[state]) + pre
    if calls is not None:
        code += 'n0 = curves()\n'
    for c, ch in ops:
        code += c + '\n'
        p = dict(DEF, **ch[1]) if isinstance(ch, tuple) else dict(p, **ch)
    if calls is not None:
        code += 'n1 = curves() - n0\n'
    code += make('z', p)
    code += 'result = [dict(lhs=s.sc(x), rhs=z.sc(x)), dict(%s), %s%s]' % (SHOW, SAME % p['custom_psd'], ', n1' if calls is not None else '')
    case('C23', name, dict(SRC, **used(code)), code,
         lambda i, p=p: [pair_eq(), expected(i, p), True] + ([calls] if calls is not None else []))


def bad_state(p):
    """parameter sets the package does not accept"""
    p = dict(DEF, **p)
    if p['instrument'] == '"custom"':
        return p['custom_psd'] == 'None' or p['t_obs'][0] == '"' or p['L'][0] == '"'
    return p['instrument'] != '"LISA"' and p['L'][0] == 'L' and False


SET = [('instrument', '"TianQin"'), ('instrument', '"LISA"'), ('instrument', '"DECIGO"'), ('t_obs', 't2'), ('t_obs', '"auto"'), ('L', 'L2'),
       ('L', '"auto"'), ('approximate_R', 'True'), ('approximate_R', 'False'), ('confusion_noise', '"huang20"'), ('confusion_noise', '"karnesis21"'),
       ('confusion_noise', 'None'), ('confusion_noise', '"auto"'), ('custom_psd', 'cp'), ('custom_psd', 'None')]
for st in STATES:
    for k_, v in SET:
        p = dict(STATES[st], **{k_: v})
        if bad_state(p):
            continue
        nm = '%s.%s.%s' % (st, k_, v.strip('"'))
        after('set.' + nm, st, [('s.sc_params["%s"] = %s' % (k_, v), {k_: v})])
        if v in ('"TianQin"', 't2', '"auto"', 'L2', 'True', 'None'):
            after('update.' + nm, st, [('s.sc_params.update(%s=%s)' % (k_, v), {k_: v})])
            after('or.' + nm, st, [('s.sc_params |= {"%s": %s}' % (k_, v), {k_: v})])
        if not bad_state({k_: v}):
            after('replace.' + nm, st, [('s.sc_params = {"%s": %s}' % (k_, v), ('all', {k_: v}))])
MANY = [dict(instrument='"TianQin"', t_obs='t2', confusion_noise='None'), dict(instrument='"LISA"', L='L2', approximate_R='True', t_obs='"auto"'),
        dict(instrument='"custom"', custom_psd='cp', t_obs='t2', L='L2'), dict(instrument='"DECIGO"', confusion_noise='"robson19"', t_obs='t2')]
for st in STATES:
    for j, ch in enumerate(MANY):
        lit = '{%s}' % ', '.join('"%s": %s' % kv for kv in ch.items())
        pairs = '[%s]' % ', '.join('("%s", %s)' % kv for kv in ch.items())
        first = list(ch)[0]
        rest = {k_: v for k_, v in ch.items() if k_ != first}
        for how, code, eff in (
                ('update', 's.sc_params.update(%s)' % lit, ch),
                ('update_keywords', 's.sc_params.update(%s)' % ', '.join('%s=%s' % kv for kv in ch.items()), ch),
                ('update_pairs', 's.sc_params.update(%s)' % pairs, ch),
                ('update_both', 's.sc_params.update({"%s": %s}, %s)' % (first, ch[first], ', '.join('%s=%s' % kv for kv in rest.items())), ch),
                ('or', 's.sc_params |= %s' % lit, ch),
                ('or_held', 'p = s.sc_params\np |= %s' % lit, ch),
                ('held', 'p = s.sc_params\np.update(%s)' % lit, ch),
                ('replace', 's.sc_params = %s' % lit, ('all', ch)),
                ('replace_params', 's.sc_params = source.SensitivityCurveParams(%s)' % lit, ('all', ch)),
                ('other_collection', make('o', ch) + 's.sc_params = o.sc_params\no.sc_params["approximate_R"] = True\no.sc_params["t_obs"] = 3 * u.yr',
                 ('all', ch))):
            if st not in ('default', 'custom', 'lisa') and how not in ('update', 'or', 'replace'):
                continue
            after('many.%s.%s.%d' % (how, st, j), st, [(code, eff)])
# sequences of operations
STEP = [('s.sc_params["instrument"] = "TianQin"', dict(instrument='"TianQin"')), ('s.sc_params["instrument"] = "LISA"', dict(instrument='"LISA"')),
        ('s.sc_params["t_obs"] = t2', dict(t_obs='t2')), ('s.sc_params.update(approximate_R=True, t_obs=t)', dict(approximate_R='True', t_obs='t')),
        ('s.sc_params |= dict(confusion_noise=None)', dict(confusion_noise='None')), ('s.sc_params = dict(L=L)', ('all', dict(L='L'))),
        ('s.sc_params.setdefault("L", L2)', {}), ('s.sc_params = {}', ('all', {}))]
for a, b in itertools.product(range(len(STEP)), repeat=2):
    after('two.%d_%d' % (a, b), 'default', [STEP[a], STEP[b]])
for a, b, c in ((0, 2, 1), (2, 0, 5), (3, 5, 2), (4, 7, 3), (5, 3, 0), (0, 7, 0), (2, 3, 2), (1, 0, 1)):
    after('three.%d_%d_%d' % (a, b, c), 'lisa', [STEP[a], STEP[b], STEP[c]])

# ---- nothing is computed again when nothing changes
for st in STATES:
    p = dict(DEF, **STATES[st])
    if st != 'custom':
        p2 = p
    full = '{%s}' % ', '.join('"%s": %s' % (k_, p[k_]) for k_ in KEYS)
    for how, code in (('set', '\n'.join('s.sc_params["%s"] = %s' % (k_, p[k_]) for k_ in KEYS)), ('update', 's.sc_params.update(%s)' % full),
                      ('update_nothing', 's.sc_params.update()\ns.sc_params.update({})'), ('or', 's.sc_params |= %s' % full),
                      ('or_nothing', 's.sc_params |= {}'), ('setdefault', '\n'.join('s.sc_params.setdefault("%s")' % k_ for k_ in KEYS)),
                      ('setdefault_value', 's.sc_params.setdefault("t_obs", 3 * u.yr)\ns.sc_params.setdefault("approximate_R", not s.sc_params["approximate_R"])'),
                      ('replace', 's.sc_params = %s' % full), ('replace_short', 's.sc_params = %s' % kw(STATES[st])), ('itself', 's.sc_params = s.sc_params'),
                      ('read', 'a = [s.sc_params[k] for k in s.sc_params]\nb = s.sc_params.get("L")\nc = list(s.sc_params.items())'),
                      ('copy', 'c = s.sc_params.copy()\nc["t_obs"] = 2 * u.yr')):
        after('unchanged.%s.%s' % (how, st), st, [(code, {})], calls=0)
# ---- refused
NO = {
    'set': ('s.sc_params["colour"] = 3', 'KeyError'),
    'set_case': ('s.sc_params["T_obs"] = t2', 'KeyError'),
    'update': ('s.sc_params.update({"t_obs": t2, "colour": 3})', 'KeyError'),
    'update_first': ('s.sc_params.update({"colour": 3, "instrument": "TianQin"})', 'KeyError'),
    'update_keyword': ('s.sc_params.update({"t_obs": t2}, colour=3)', 'KeyError'),
    'or': ('s.sc_params |= {"instrument": "TianQin", "colour": 3}', 'KeyError'),
    'setdefault': ('s.sc_params.setdefault("colour", 3)', 'KeyError'),
    'replace': ('s.sc_params = {"t_obs": t2, "colour": 3}', 'KeyError'),
    'del': ('del s.sc_params["t_obs"]', 'TypeError'),
    'del_default': ('del s.sc_params["confusion_noise"]', 'TypeError'),
    'pop': ('s.sc_params.pop("t_obs")', 'TypeError'),
    'pop_default': ('s.sc_params.pop("L", None)', 'TypeError'),
    'popitem': ('s.sc_params.popitem()', 'TypeError'),
    'clear': ('s.sc_params.clear()', 'TypeError'),
}
for st in ('default', 'lisa', 'custom'):
    for nm, (code, exc) in NO.items():
        tr = 'r = "nothing"\ntry:\n    %s\nexcept %s:\n    r = "refused"' % (code, exc)
        p = dict(DEF, **STATES[st])
        c = make('s', STATES[st]) + 'n0 = curves()\n' + tr + '\nn1 = curves() - n0\n' + make('z', p)
        c += 'result = [r, dict(lhs=s.sc(x), rhs=z.sc(x)), dict(%s), %s, n1]' % (SHOW, SAME % p['custom_psd'])
        case('C23', 'refused.%s.%s' % (nm, st), dict(SRC, **used(c)), c, lambda i, p=p: ['refused', pair_eq(), expected(i, p), True, 0])
for nm, arg in (('constructor', '{"colour": 3}'), ('constructor_mixed', '{"t_obs": t2, "colour": 3}')):
    c = 'r = "nothing"\ntry:\n    %sexcept KeyError:\n    r = "refused"\nresult = r' % make('s', {}).replace('dict()', arg)
    case('C23', 'refused.' + nm, dict(SRC, **used(c)), c, lambda i: 'refused')
# ---- no interpolation asked for
for st in STATES:
    c = make('s', STATES[st], ', interpolate_sc=False') + 'a = s.sc\ns.sc_params["t_obs"] = t2\nb = s.sc\ns.sc_params = dict(L=L2)\nresult = [a, b, s.sc]'
    case('C23', 'no_interpolation.' + st, dict(SRC, **used(c)), c, lambda i: [None, None, None])


# ---- the curve of a new collection: interpolates the noise density of the parameters
def interpolates(want):
    """at every node of the table the noise density at that frequency; evaluated at the frequency asked for, in 1/Hz"""
    def f(got, i):
        g = got['lhs']
        ok = isinstance(g, SQuantity) and tuple(g.unit.dims) == tuple(dims('s').dims)
        if not ok:
            return [('the curve is in inverse frequency', FALSE)]
        v = at(g).t
        n = [t for t in walk(v) if t.op == 'fn' and t.args[0].startswith('interp1d')]
        if not n:
            raise Unsupported('curve is not an interp1d table')
        n = n[0]
        tab = n.args[2]
        j = var('node', 'i')
        xj, yj = [subst(b, {tab.args[2]: j}) for b in tab.args[4:6]]
        inside = band(tab.args[3] if tab.args[3].isbool else TRUE, le(num(0), j), lt(j, tab.args[1]))
        return [('value is the table\u2019s', eq(v, n)), ('evaluated at the frequency asked for', eq(n.args[1], at(i.x).t)),
                ('every node is the noise density', implies(inside, eq(yj, S(want(Sym(xj, 'f'), i)).t)))]
    return f


ABS = {
    'default': ({}, lambda v, i: d.noise(v)),
    't_obs': (dict(t_obs='t'), lambda v, i: d.noise(v, at(i.t))),
    'lisa': (STATES['lisa'], lambda v, i: d.noise(v, at(i.t), 'LISA', at(i.L), 'robson19', True)),
    'none': (dict(confusion_noise='None'), lambda v, i: d.noise(v, cn=None)),
    'tianqin': (dict(instrument='"TianQin"'), lambda v, i: d.noise(v, None, 'TianQin')),
    'tianqin_L': (dict(instrument='"TianQin"', L='L', t_obs='t'), lambda v, i: d.noise(v, at(i.t), 'TianQin', at(i.L))),
    'decigo': (STATES['decigo'], lambda v, i: d.noise(v, None, 'DECIGO', cn='huang20')),
    'custom': (STATES['custom'], lambda v, i: unfun('cb_my_psd', v, at(i.t), at(i.L))),
}


def numeric(g):
    import math
    a, b = g['v']['lhs'], g['v']['rhs']
    x, y = a['v'][0], b['v'][0]
    if a.get('dims') != b.get('dims'):
        return 'the curve has other dimensions than the noise density'
    if not math.isclose(x, y, rel_tol=2e-2):
        return 'the curve is %r where the noise density is %r' % (x, y)


for nm, (params, want) in ABS.items():
    c = make('s', params) + 'result = dict(lhs=s.sc(x), rhs=psd.power_spectral_density(x, **%s))' % kw(params)
    case('C23', 'curve.' + nm, dict(SRC, **used(c)), c,
         lambda i, want=want: Pred(lambda got, i=i, want=want: interpolates(want)(got, i), numeric), samples=12)

# ---- options given to the SNR methods
GIVEN = [('t_obs', 'default', dict(t_obs='t2')), ('tianqin', 'default', dict(instrument='"TianQin"')), ('noise', 'decigo', dict(confusion_noise='"robson19"', t_obs='t2')),
         ('arm', 'lisa', dict(L='L2', approximate_R='False')), ('custom', 'default', dict(instrument='"custom"', custom_psd='cp', t_obs='t2', L='L2')),
         ('stored', 'lisa', {}), ('all', 'tianqin', dict(instrument='"LISA"', t_obs='t2', L='L2', approximate_R='True', confusion_noise='"huang20"')),
         ('back', 'lisa', dict(instrument='"TianQin"', t_obs='t', L='"auto"'))]
E_LOW = Dom(lo=0, hi=F(95, 100), rng=(0.0, 0.3), log=False, special=[0, 0.1])


def sky_free(method, nm, st, ch, extra=''):
    g = ', '.join('%s=%s' % kv for kv in ch.items())
    n = '' if method == 'get_snr_stationary' else ', n_step=3' if g else 'n_step=3'
    p = dict(DEF, **STATES[st])
    p.update(ch)
    code = make('s', STATES[st], extra) + 'm = curves()\ns.%s(%s%s)\nn0 = curves()\ns.%s(%s%s)\nn1 = curves() - n0\n' % (method, g, n, method, g, n)
    code += 'n2 = %s\n' % ('n0 - m' if not ch and p['t_obs'][0] == 't' else '0')
    code += make('z', p, extra)
    if extra:
        code += 'result = [s.sc, %s, 0, 0]' % (SAME % p['custom_psd'])
    else:
        code += 'result = [dict(lhs=s.sc(x), rhs=z.sc(x)), %s, n1, n2]' % (SAME % p['custom_psd'])
    case('C23', 'snr.%s.%s%s' % (method, nm, '.direct' if extra else ''), dict(SRC, **used(code), e=In(None, (2,), E_LOW)), code,
         lambda i, x=extra: [None if x else pair_eq(), True, 0, 0], stubs=q.CTOR + q.SNRS + ('psd.power_spectral_density',), setup=counting_few,
         drive=drive)


def counting_few(world):
    counting(world)
    q.few(world)


for method in ('get_snr_stationary', 'get_snr_evolving', 'get_snr'):
    for nm, st, ch in GIVEN:
        sky_free(method, nm, st, ch)
    for nm, st, ch in GIVEN[:2]:
        sky_free(method, nm, st, ch, ', interpolate_sc=False')

# ---- copies and subsets follow their own parameters
for st in ('default', 'lisa', 'custom'):
    for nm, take in (('copy', 's.copy()'), ('mask', 's[np.array([True, False])]'), ('slice', 's[1:]'), ('index', 's[0]')):
        for how, code, ch in (('set', '%s.sc_params["t_obs"] = t2', dict(t_obs='t2')), ('update', '%s.sc_params.update(approximate_R=True, t_obs=t2)', dict(approximate_R='True', t_obs='t2')),
                              ('or', '%s.sc_params |= {"t_obs": t2}', dict(t_obs='t2'))):
            p = dict(DEF, **STATES[st])
            p2 = dict(p, **ch)
            for who, other in (('c', 's'), ('s', 'c')):
                if who == 's' and how != 'set':
                    continue
                c = make('s', STATES[st]) + 'c = %s\nn0 = curves()\n' % take + code % who + '\nn1 = curves() - n0\n' + make('z', p2) + make('y', p)
                c += 'n2 = curves()\n%s.sc_params["t_obs"] = %s\nn3 = curves() - n2\n' % (other, p['t_obs'])
                c += 'result = [dict(lhs=%s.sc(x), rhs=z.sc(x)), dict(lhs=%s.sc(x), rhs=y.sc(x)), n3]' % (who, other)
                case('C23', 'separate.%s.%s.%s.%s' % (nm, how, who, st), dict(SRC, **used(c)), c, lambda i: [pair_eq(), pair_eq(), 0])
