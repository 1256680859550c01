import itertools
import math

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, same, equal, raises, frac

A_UNITS = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, '1/s': 1.0, '1/ms': 1e3, '1/us': 1e6}


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(3, 6, 'LS', max_J=2.5, I=st.sampled_from([0.0, 0.5, 1.0]), more=18))
    n = len(spec['levels'])
    edges, seen = [], set()
    top = draw(st.integers(0, n - 1))
    for i, d in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, n - 1)), min_size=3, max_size=9 if n < 8 else 40)):
        i = top if draw(st.booleans()) and d != top else i
        j = (i + d) % n
        if frozenset((i, j)) not in seen:
            seen.add(frozenset((i, j)))
            edges.append([i, j])
    none = draw(st.integers(0, 3)) == 0
    A = [[draw(st.integers(1, 999) | st.sampled_from([0, 1] + [None] * none)), draw(st.sampled_from(sorted(A_UNITS)))] for _ in edges]
    return {'spec': spec, 'edges': edges, 'A': A, 'self': draw(st.integers(0, 2)) == 0, 'late': draw(st.booleans()),
            'key': draw(st.sampled_from(['name', 'alias', 'rank', 'neg'])), 'sub': draw(st.integers(0, 99)),
            'selfA': draw(st.lists(st.integers(1, 999) | st.sampled_from([0, None] if none else [0]), min_size=1, max_size=4)),
            'change': draw(st.none() | st.tuples(st.integers(0, 20), st.integers(1, 999), st.sampled_from(sorted(A_UNITS))))}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    spec = case['spec']
    a, lvs = gen.mk_atom(spec)
    n, E = len(lvs), [t['E'] for t in spec['levels']]
    ts, A = {}, {}

    selfs = []

    def add_self():
        for lv, v in zip(lvs, itertools.cycle(case['selfA'])):
            selfs.append(a.add_transition(Transition(lv, lv, **({} if v is None else {'A': Q_(float(v), 'mHz')}))))
    if case['self'] and not case['late']:
        add_self()
    for (i, j), (v, u) in zip(case['edges'], case['A']):
        kw = {} if v is None else {'A': Q_(float(v), u)}
        if E[i] == E[j]:
            continue
        ts[frozenset((i, j))] = a.add_transition(Transition(lvs[i], lvs[j], **kw))
        A[frozenset((i, j))] = None if v is None else v * A_UNITS[u]
    if case['self'] and case['late']:
        add_self()
    for i, lv in enumerate(lvs):
        lv.alias = f'al{i}'
    by_e = sorted(range(n), key=lambda i: E[i])
    labels = set()

    def verify():
        for i, lv in enumerate(lvs):
            r = by_e.index(i)
            key = {'name': lv.name, 'alias': f'al{i}', 'rank': r, 'neg': r - n}[case['key']]
            links = {j: t for e, t in ts.items() if i in e for j in e - {i}}
            got = a.linked_levels(key)
            equal(set(got), {lvs[j].name for j in links}, f'levels linked to {key!r}')
            for j, t in links.items():
                same(got[lvs[j].name], t, f'transition to {lvs[j].name}')
            down = {j: A[frozenset((i, j))] for j in links if E[j] < E[i]}
            if None in down.values():
                raises(ValueError, lambda: a.compute_branching_ratios(key), 'branching ratios without A')
                labels.add('missing A')
                continue
            tot = sum(down.values())
            tau = a.state_lifetime(key)
            equal(str(tau.units), 'second', 'unit of the lifetime')
            if tot == 0:
                equal(float(tau.magnitude), math.inf, f'lifetime of {key!r}')
                labels.add('stable')
            else:
                near(tau.magnitude, 2 * math.pi / tot, f'lifetime of {key!r}', 0, 1e-9)
                br = a.compute_branching_ratios(key)
                equal(set(br), {lvs[j].name for j in down}, f'targets of decay from {key!r}')
                for j, v in down.items():
                    near(br[lvs[j].name], v / tot, f'branching ratio {key!r} -> {lvs[j].name}', 1e-12, 1e-9)
                near(sum(br.values()), 1, 'sum of branching ratios', 1e-9)
                if len(down) > 1:
                    labels.add('branching')
            if not down:
                equal(a.compute_branching_ratios(key), {}, 'branching ratios of a level without decays')

    verify()
    if case['change'] and ts:
        k, v, u = case['change']
        e = list(ts)[k % len(ts)]
        ts[e].A = Q_(float(v), u)
        A[e] = v * A_UNITS[u]
        verify()
        labels.add('changed')
    # one sublevel
    else:
        subs = [s for lv in lvs for s in lv.sublevels()]
        s = subs[case['sub'] % len(subs)]
        if case['sub'] % 2:
            s = s.sublevels()[case['sub'] // 2 % len(s)]
        if case['sub'] % 3:  # the components aren't there yet
            got = a.linked_levels(s.name)
        comps = [c for t in [*ts.values(), *selfs] for h in t.subtransitions() for c in (h.subtransitions() if case['sub'] % 2 else [h])
                 if s in (c.E_1, c.E_2) and c.E_1 is not c.E_2]
        same_level = [c for c in comps if c.E_1.manifold is c.E_2.manifold]
        got = got if case['sub'] % 3 else a.linked_levels(s.name)
        if same_level:
            labels.add('internal')
        other = {(c.E_2 if c.E_1 is s else c.E_1).name: c for c in comps}
        equal(set(got), set(other), f'sublevels linked to {s.name}')
        for k, c in other.items():
            if c.freq_Hz > 1e3 or c not in same_level:
                same(got[k], c, f'component to {k}')
        down = [c for c in comps if c.E_upper is s]
        # (neither of two degenerate sublevels of a level decays to the other)
        apart = all(c.freq_Hz > 1e3 for c in same_level)
        if apart and down and all(c.A is not None for c in down) and sum(c.A.to('Hz').magnitude for c in down) > 0:
            tot = sum(c.A.to('Hz').magnitude for c in down)
            near(a.state_lifetime(s.name).to('s').magnitude, 2 * math.pi / tot, 'lifetime of a sublevel', 0, 1e-9)
            br = a.compute_branching_ratios(s.name)
            equal(set(br), {c.E_lower.name for c in down}, 'targets of decay from a sublevel')
            for c in down:
                near(br[c.E_lower.name], c.A.to('Hz').magnitude / tot, f'branching ratio to {c.E_lower.name}', 1e-12, 1e-9)
            labels.add('sublevel')
    if 'branching' not in labels:
        labels.add('trivial')
    return sorted(labels)


SUBS = [Sub('decays', cases, check, quick=660,
            rule='random graphs on 3-6 (sometimes up to 24) levels, A in seven units or missing, keys by name, alias or rank, with internal transitions, a change of A, one sublevel; non-trivial: some level has two or more decays')]
