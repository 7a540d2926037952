"""Re-run one recorded violation on the real code."""
import json


def main(path):
    v = json.load(open(path))
    print('property', v.get('property'), 'case', v['case'], 'mode', v.get('mode'))
    print('why:', v['why'])
    if v.get('noinput'):
        print('obligation:', v['obligation'])
        print(json.dumps(v.get('leaf'), indent=1)[:4000])
        return 1
    from .real import REAL
    from .runner import diff
    r = REAL.call(v['call'], v['inputs'], timeout=120)
    print('call:\n' + v['call'])
    print('inputs:', json.dumps(v['inputs'])[:2000])
    print('real code:', json.dumps(r)[:2000])
    print('contract:', json.dumps(v.get('expected'))[:2000])
    if v.get('oracle') == 'script':
        return 0 if r.get('ret', {}).get('t') == 'none' else 1
    if v.get('mode') == 'frame':
        return 1 if r.get('mutated') else 0
    e = v.get('expected')
    if e and e[0] == 'ret' and 'ret' in r:
        d = diff(r['ret'], e[1], 'result', v['rtol'], v['atol'])
        print('mismatch:', d)
        return 1 if d else 0
    return 1
