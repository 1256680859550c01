import os

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, same, equal, frac


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(2, 6, 'LS LS JJ JK LK', max_J=4.5, hf=False, I=st.sampled_from([0.0, 0.5]), more=20))
    n = len(spec['levels'])
    bare = [t for t in spec['levels'] if '[' not in t['t'] and '(' not in t['t']]
    if bare and draw(st.integers(0, 4)) == 0:  # a level without a configuration
        bare[draw(st.integers(0, len(bare) - 1))]['c'] = ''
    rows, seen = [], set()
    for i, d, bad in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, n - 1), st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5])),
                                   min_size=1, max_size=8 if n < 8 else 24)):
        j = (i + d) % n
        if bad == 0 and frozenset((i, j)) in seen:
            continue
        if bad == 0:
            seen.add(frozenset((i, j)))
        rows.append([i, j, bad, draw(st.integers(1, 9999)) / 100])
    return {'spec': spec, 'rows': rows, 'csv': draw(st.sampled_from([True, False, True])), 'J': draw(st.sampled_from(['frac', 'num', 'str', 'mix'])),
            'Akey': draw(st.sampled_from(['A', 'A_coeff', 'both', None])), 'heads': draw(st.booleans()), 'sep': draw(st.sampled_from([',', ';'])),
            'freqs': [draw(st.none() | st.tuples(st.integers(1000, 40000), st.sampled_from(['GHz', 'nm', 'cm**-1', 'THz']))) for _ in rows],
            'Au': draw(st.sampled_from(['MHz', 'kHz', '1/us'])), 'pre': draw(st.booleans()), 'blank': [draw(st.sampled_from([0, 0, 0, 1])) for _ in rows]}


def check(case):
    import pandas as pd
    from atomtoolkit import Q_
    from atomtoolkit import IO
    spec, specs = case['spec'], case['spec']['levels']
    a, lvs = gen.mk_atom(spec)
    energies = [lv.level_Hz for lv in lvs]
    names = {gen.name_of(t) for t in specs}
    old = None
    if case['pre']:
        old = a.add_transition((lvs[0], lvs[0]))

    def J_text(t, k):
        mode = case['J'] if case['J'] != 'mix' else ['frac', 'num', 'str'][k % 3]
        J = gen.J_of(t)
        return {'frac': frac(J), 'num': J, 'str': str(J)}[mode]

    cols = {k: [] for k in ('conf_l', 'term_l', 'j_l', 'conf_u', 'term_u', 'j_u')}
    known = []
    for k, (i, j, bad, A) in enumerate(case['rows']):
        lo, up = dict(specs[i]), dict(specs[j])
        if bad == 1:
            lo['c'] += 'x'
        elif bad == 2:
            up['t'] = '17S'
        elif bad == 3:
            up['J'] = frac(gen.J_of(up) + 7)
        elif bad == 4:
            lo['c'], up['c'] = '1s2', '1s.2p'
        elif bad == 5:
            up['t'] = up['t'] + '*' if not up['t'].endswith('*') else up['t'][:-1]
        known.append(gen.name_of(lo) in names and gen.name_of(up) in names)
        for c, t in (('l', lo), ('u', up)):
            cols['conf_' + c].append(t['c']), cols['term_' + c].append(t['t']), cols['j_' + c].append(J_text(t, k))
    As = [r[3] for r in case['rows']]
    labels = set()
    blank = case['blank']  # cells without an A
    nan = float('nan')
    if case['csv']:
        table = pd.DataFrame(cols)
        if case['Akey']:
            table['A'] = [nan if b else x for x, b in zip(As, blank)]
        heads = {c: ('col ' + c if case['heads'] else c) for c in table.columns}
        path = os.path.join(os.getcwd(), 'transitions.csv')
        table.rename(columns=heads).to_csv(path, index=False, sep=case['sep'])
        decl = {c: heads[c] for c in cols}
        if case['Akey'] in ('A', 'both'):
            decl['A'] = heads['A']
        if case['Akey'] in ('A_coeff', 'both'):
            decl['A_coeff'] = heads['A']
        df = IO.load_transition_data(path, decl, sep=case['sep'])
        os.remove(path)
        equal(len(df), len(As), 'rows read')
        have_A, A_hz, freqs = bool(case['Akey']), [x * 1e6 for x in As], [None] * len(As)
        labels.add('csv')
    else:
        df = pd.DataFrame(cols, dtype=object)
        have_A = case['Akey'] is not None
        unit = {'MHz': 1e6, 'kHz': 1e3, '1/us': 1e6}[case['Au']]
        A_hz = [x * unit for x in As]
        df['A'] = pd.Series([(None, nan, Q_(nan, case['Au']))[k % 3] if b else Q_(x, case['Au']) for k, (x, b) in enumerate(zip(As, blank))], dtype=object) if have_A else None
        # frequencies on a forest only
        freqs, parent = [], list(range(len(lvs)))

        def find(x):
            while parent[x] != x:
                x = parent[x]
            return x
        for (i, j, bad, _), f, ok in zip(case['rows'], case['freqs'], known):
            if f is None or (ok and find(i) == find(j)):
                freqs.append(None)
                continue
            if ok:
                parent[find(i)] = find(j)
            freqs.append(f[0] * 1e9)
        df['freq'] = pd.Series([(None, nan, Q_(nan, 'THz'))[k % 3] if f is None else Q_(ref.from_hz(f, c[1]), c[1])
                                for k, (f, c) in enumerate(zip(freqs, case['freqs']))], dtype=object)
    a.populate_transitions_df(df)
    want = {frozenset(r[:2]): k for k, r in enumerate(case['rows']) if known[k]}
    pairs = set(map(frozenset, a.transitions.keys()))
    equal(pairs, {frozenset(lvs[i].name for i in e) for e in want} | ({frozenset([lvs[0].name])} if old is not None else set()), 'transitions')
    if old is not None:
        same(a.transitions[lvs[0].name, lvs[0].name], old, 'a transition that was there before')
    linked = set()
    for e, k in want.items():
        i, j = case['rows'][k][:2]
        t = a.transitions[lvs[i].name, lvs[j].name]
        need({id(t.E_1), id(t.E_2)} == {id(lvs[i]), id(lvs[j])}, 'ends')
        equal(t.name, f'{lvs[i].name} → {lvs[j].name}', 'name of the transition of a row')
        if have_A and not blank[k]:
            near(t.A.to('Hz').magnitude, A_hz[k], f'A of {t.name}', 1e-9, 1e-9)
        else:
            equal(t.A, None, 'A')
        if freqs[k] is not None:
            near(t.freq_Hz, freqs[k], f'frequency of {t.name}', 6.0)
            near(t.set_freq.to('Hz').magnitude, freqs[k], 'set frequency', 6.0)
            linked |= {i, j}
            labels.add('freq')
        else:
            equal(t.set_freq, None, 'set frequency')
    equal(sorted(a.levels.keys()), sorted(names), 'levels')
    for i, lv in enumerate(lvs):
        same(a.levels[gen.name_of(specs[i])], lv, 'level')
        if i not in linked:
            near(lv.level_Hz, energies[i], f'energy of {lv.name}', 0)
    if not all(known):
        labels.add('skipped rows')
    if not want:
        labels.add('trivial')
    return sorted(labels)


SUBS = [Sub('tables', cases, check, quick=780,
            rule='tables of 1-8 (in large atoms up to 24) rows over known levels and five kinds of unknown ones, via csv (headings, separators, A/A_coeff) or directly with quantities and frequencies; non-trivial: at least one known row')]
