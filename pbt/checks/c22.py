import math

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, equal, frac
from ..ref import LETTERS, jrange


@st.composite
def cases(draw):
    for _ in range(3):  # prefer states of several components
        t = dict(draw(gen.any_term(0, 'JJ JK LK', max_l=draw(st.sampled_from([2, 4, 4, 4, 4, 9])), max_s2=draw(st.sampled_from([2, 3, 3, 3, 6, 9])))))
        if sum(1 for w in gen.composition_of(t).values() if w > 1e-9) > 1:
            break
    return {'t': t, 'pick': draw(st.integers(0, 10 ** 6))}


def amplitudes(k, J, q, x):
    """amplitudes computed by the code under test for intermediate numbers x"""
    from atomtoolkit.transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
    if k == 'JJ':
        return JJ_to_LS(J, x[0], x[1], q['lc'], q['sc'], q['lo'], q['so'])
    if k == 'JK':
        return JK_to_LS(J, x[0], x[1], q['lc'], q['sc'], q['lo'], q['so'])
    return LK_to_LS(J, q['l'], x[0], q['sc'], q['so'])


def check(case):
    from atomtoolkit import util
    t, q = case['t'], case['t']['q']
    J, k = gen.J_of(t), t['k']
    x = {'JJ': ('jc', 'jo'), 'JK': ('jc', 'k'), 'LK': ('k',)}[k]
    x = tuple(q[n] for n in x)
    want = gen.composition_of(t)
    out = amplitudes(k, J, q, x)
    ls, ss, amps = ([float(v) for v in row] for row in out)
    got = {}
    for l, s, amp in zip(ls, ss, amps):
        need((l, s) not in got, f'component L={l} S={s} twice')
        got[l, s] = amp
    ll = [float(q['l'])] if k == 'LK' else jrange(q['lc'], q['lo'])
    equal(sorted(got), sorted((l, s) for l in ll for s in jrange(q['sc'], q['so'])), 'components')
    for key, amp in got.items():
        near(amp ** 2, want.get(key, 0.0), f'squared amplitude of L={key[0]} S={key[1]}', 1e-9)
    near(sum(a * a for a in amps), 1, 'sum of squared amplitudes', 1e-9)
    # other states of the scheme with the same parents and J
    if k == 'LK':
        others = [(K,) for K in jrange(q['l'], q['sc']) if J in jrange(K, q['so'])]
    elif k == 'JK':
        others = [(jc, K) for jc in jrange(q['lc'], q['sc']) for K in jrange(jc, q['lo']) if J in jrange(K, q['so'])]
    else:
        others = [(jc, jo) for jc in jrange(q['lc'], q['sc']) for jo in jrange(q['lo'], q['so']) if J in jrange(jc, jo)]
    others = [o for o in others if o != x]
    for n in range(min(2, len(others))):
        y = others[(case['pick'] + n) % len(others)]
        b = {(float(l), float(s)): float(v) for l, s, v in zip(*amplitudes(k, J, q, y))}
        near(sum(v * b[key] for key, v in got.items()), 0, f'overlap with the state {y}', 1e-9)
    # readable form
    labels = {}
    for (l, s), w in want.items():
        labels[str(int(2 * s + 1)) + LETTERS[int(l)]] = 100 * w
    fn = {'JJ': util.readable_JJ_to_LS, 'JK': util.readable_JK_to_LS, 'LK': util.readable_LK_to_LS}[k]
    args = (J, *x, q['lc'], q['sc'], q['lo'], q['so']) if k != 'LK' else (J, q['l'], x[0], q['sc'], q['so'])
    for name, lst in (('readable', fn(*args)), ('term_to_LS', util.term_to_LS(t['c'], t['t'], J))):
        seen = dict(lst)
        equal(len(seen), len(lst), f'{name}: repeated component')
        for lab, w in labels.items():
            near(seen.get(lab, 0.0), w, f'{name}: percentage of {lab}', 0.0051)
            need(lab in seen or w < 1e-9, f'{name}: {lab} ({w}%) is missing')
        for lab, w in seen.items():
            near(labels.get(lab, 0.0), w, f'{name}: percentage of {lab}', 0.0051)
    ls_name = f'{int(2 * q["sc"] + 1)}{LETTERS[int(q["lc"])]}' if 'lc' in q else '2S'
    equal(util.term_to_LS('4f', ls_name, J), [(ls_name, 100.0)], 'LS term in LS coupling')
    nz = sum(1 for w in want.values() if w > 1e-9)
    return [k] + (['trivial'] if nz < 2 else []) + (['orthogonal'] if others else [])


SUBS = [Sub('recoupling', cases, check, quick=440,
            rule='JJ, JK and LK states with parent L up to 9 and S up to 9/2; non-trivial: at least two LS components')]
