import warnings

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, same

OPS = ['ctor', 'pair', 'pair_obj', 'plain', 'set', 'freq', 'sub', 'sub', 'plain+set']


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(2, 6, 'LS', max_J=2.5, I=st.sampled_from([0.0, 0.5]), more=15))
    n = len(spec['levels'])
    steps = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, n - 1), st.integers(1, n - 1),
                                    st.integers(1, 40000) | st.integers(10 ** 6, 10 ** 11).map(lambda x: x / 10 ** 6) | st.integers(0, 1) | st.integers(950000, 1200000), st.sampled_from(ref.FREQ_UNITS), st.integers(0, 50)), min_size=2, max_size=12))
    return {'spec': spec, 'steps': [list(s) for s in steps],
            'close': draw(st.sampled_from([None, 'fit', 'fit', 'off'])), 'off': draw(st.sampled_from([1, -1, 1000, -1000])),
            'cpick': draw(st.integers(0, 99)), 'hand': draw(st.sampled_from([0, 0, 0, 300, -300, 20])), 'chow': draw(st.booleans())}


def loops():
    """a loop that fits, with levels at zero and frequencies of zero, up to rounding"""
    for close in ('fit', 'off'):
        for n in (3, 4, 5):
            for unit in ref.FREQ_UNITS[:6]:
                spec = {'B': 0, 'I': 0.0, 'levels': [{'c': f'4f14.{i + 3}s', 't': '1S', 'J': '0', 'k': 'LS', 'odd': False, 'q': {'l': 0, 's': 0.0}, 'g': 0.0, 'A': 0, 'B': 0, 'C': 0,
                                                      'E': 300000 * i} for i in range(n)]}
                steps = [['ctor', 0, n - 1, 3, 'Hz', 0], ['ctor', 0, 2, 0, 'Hz', 0], ['ctor', 1, 1, 1, unit if unit not in ('nm', 'um') else 'cm**-1', 0]]
                yield {'chow': False, 'close': close, 'cpick': 1, 'hand': 0, 'off': 1, 'spec': spec, 'steps': steps}


def find(parent, x):
    while parent[x] != x:
        x = parent[x]
    return x


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    spec = case['spec']
    n = len(spec['levels'])
    a, lvs = gen.mk_atom(spec)
    ts = {}        # edge -> transition, upper index, frequency set or None
    labels = set()

    def groups(extra=None):
        parent = list(range(n))
        for e, r in ts.items():
            if r['f'] is not None:
                i, j = sorted(e)
                parent[find(parent, i)] = find(parent, j)
        return parent

    def fits(i, j):
        """would a set frequency between i and j close a loop?"""
        if frozenset((i, j)) in ts and ts[frozenset((i, j))]['f'] is not None:
            return True
        p = groups()
        return find(p, i) != find(p, j)

    def verify(before, changed, moved_ok=True):
        p = groups()
        for r in ts.values():
            if r['f'] is not None:
                u, l = r['u'], r['l']
                near(lvs[u].level_Hz - lvs[l].level_Hz, r['f'], f'frequency of {r["t"].name}', 6.0)
                near(r['t'].freq.to('Hz').magnitude, r['f'], 'freq', 6.0)
                near(r['t'].set_freq.to('Hz').magnitude, r['f'], 'set_freq', 6.0)
        now = [lv.level_Hz for lv in lvs]
        if changed is None:
            for k in range(n):
                near(now[k], before[k], 'level moved without any frequency being set', 1e-3)
            return
        root = find(p, changed)
        members = [k for k in range(n) if find(p, k) == root]
        for k in range(n):
            if k not in members:
                near(now[k], before[k], 'a level that is not linked moved', 6.0)
        low = min(members, key=lambda k: before[k])
        if all(before[k] - before[low] > 100 for k in members if k != low):
            near(now[low], before[low], 'the lowest level of the group moved', 6.0)
        if len(members) > 2:
            labels.add('group>2')
        elif len(members) == 2:
            labels.add('group2')
        if any(r['f'] == 0 for r in ts.values()):
            labels.add('zero')

    def put(q, how, t):
        if how == 'freq':
            t.freq = q
        else:
            t.set_frequency(q)

    for how, i, j, f, unit, pick in case['steps']:
        j = (i + j) % n
        if how in ('set', 'freq', 'sub') and ts and pick % 4:
            i, j = sorted(list(ts)[pick % len(ts)], reverse=pick % 2)
        e = frozenset((i, j))
        f_hz = f * 1e9
        unit = 'THz' if not f and unit in ('nm', 'um') else unit  # (no wavelength)
        q = Q_(ref.from_hz(f_hz, unit), unit)
        before = [lv.level_Hz for lv in lvs]
        if abs(before[i] - before[j]) < 100:
            continue
        rec = ts.get(e)
        changed = i
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            if rec is None:
                rec = {'f': None, 'u': i if before[i] > before[j] else j, 'l': j if before[i] > before[j] else i}
                if how in ('ctor', 'pair', 'pair_obj') and fits(i, j):
                    if how == 'ctor':
                        t = a.add_transition(Transition(lvs[i], lvs[j], freq=q))
                    elif how == 'pair':
                        t = a.add_transition((lvs[i].name, lvs[j].name), freq=q)
                    else:
                        t = a.add_transition((lvs[i], lvs[j]), freq=q)
                    rec['f'] = f_hz
                else:
                    t = a.add_transition(Transition(lvs[i], lvs[j]))
                    if how in ('set', 'freq', 'plain+set') and fits(i, j):
                        put(q, how, t)
                        rec['f'] = f_hz
                    else:
                        changed = None
                rec['t'] = t
                ts[e] = rec
            elif not fits(i, j):
                continue
            elif how == 'sub':
                subs = rec['t'].subtransitions()
                if not subs:
                    continue
                s = subs[pick % len(subs)]
                # the components keep their distance from the transition, so this sets the transition to f
                gap = (s.E_upper.level_Hz - s.E_lower.level_Hz) - (lvs[rec['u']].level_Hz - lvs[rec['l']].level_Hz)
                if lvs[rec['u']].level_Hz <= lvs[rec['l']].level_Hz or s.E_upper.manifold is not lvs[rec['u']] or f_hz + gap < 1e9 \
                        or s.E_upper.level_Hz - s.E_lower.level_Hz < 1e9:  # overlapping manifolds: not claimed
                    continue
                if pick % 3 == 0:  # as it is already, from now on
                    s.set_frequency(s.freq)
                    f_hz = before[rec['u']] - before[rec['l']]
                else:
                    s.set_frequency(Q_(f_hz + gap, 'Hz'))
                rec['f'] = f_hz
                labels.add('sub')
            elif how == 'plain':
                continue
            else:
                if rec['f'] is not None:
                    labels.add('reset')
                put(q, how, rec['t'])
                rec['f'] = f_hz
        need(not [w for w in ws if issubclass(w.category, UserWarning)], f'unexpected warning: {[str(w.message) for w in ws][:1]}')
        verify(before, changed)

    # a level that was moved by hand is left alone when a frequency in another group is set
    p = groups()
    pairs = [(i, e) for i in range(n) for e, r in ts.items() if find(p, i) not in {find(p, k) for k in e}
             and abs(lvs[r['u']].level_Hz - lvs[r['l']].level_Hz) > 1e6]
    if case['hand'] and pairs:
        i, e = pairs[case['cpick'] % len(pairs)]
        lvs[i].level_Hz = lvs[i].level_Hz + case['hand'] * 1e6
        before = [lv.level_Hz for lv in lvs]
        gap = abs(before[ts[e]['u']] - before[ts[e]['l']])
        group = {k for k in range(n) if find(p, k) in {find(p, x) for x in e}}
        put(Q_(gap + 5e8, 'Hz'), 'freq', ts[e]['t'])
        for k in set(range(n)) - group:
            near(lvs[k].level_Hz, before[k], 'a level that is not linked moved after another one had been moved by hand', 1e-3)
        labels.add('hand')
        return sorted(labels | ({'trivial'} if not any(r['f'] is not None for r in ts.values()) else set()))

    if case['close']:
        p = groups()
        pairs = [(i, j) for i in range(n) for j in range(i) if find(p, i) == find(p, j)
                 and frozenset((i, j)) not in ts and abs(lvs[i].level_Hz - lvs[j].level_Hz) > 1e9]
        if pairs:
            i, j = pairs[case['cpick'] % len(pairs)]
            before = [lv.level_Hz for lv in lvs]
            f_hz = abs(before[i] - before[j]) + (case['off'] * 1e6 if case['close'] == 'off' else 0)
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                if case['chow']:
                    a.add_transition(Transition(lvs[i], lvs[j], freq=Q_(f_hz, 'Hz')))
                else:
                    t = a.add_transition(Transition(lvs[i], lvs[j]))
                    t.set_frequency(Q_(f_hz, 'Hz'))
            ws = [w for w in ws if issubclass(w.category, UserWarning)]
            if case['close'] == 'fit':
                need(not ws, f'a frequency that fits gives a warning: {[str(w.message) for w in ws][:1]}')
                for k in range(n):
                    near(lvs[k].level_Hz, before[k], 'level moved by a frequency that fits', 10.0)
            else:
                need(ws, f'no warning for a loop that is off by {case["off"]} MHz')
            labels.add('loop-' + case['close'])
    if not any(r['f'] is not None for r in ts.values()):
        labels.add('trivial')
    return sorted(labels)


SUBS = [Sub('histories', cases, check, quick=630, cases=loops,
            rule='random atoms of 2-7 (sometimes up to 21) levels, histories of up to 10 additions and settings of frequencies in eight units that keep the set transitions a forest, then possibly one closed loop; non-trivial: at least one frequency set')]
