import contextlib
import io
import os
import shutil
import tempfile
from urllib.parse import parse_qs, urlsplit

from hypothesis import strategies as st

from .. import gen, ref
from ..core import SCRATCH, Sub
from ..gen import need, near, equal, frac
from ..ref import LETTERS, jrange

HEAD = ['Configuration', 'Term', 'J', 'Level (cm-1)', 'Uncertainty (cm-1)', 'Lande', 'Leading percentages']


@st.composite
def parent(draw, withJ=True):
    L, S2 = draw(st.integers(0, 4)), draw(st.integers(0, 4))
    t = f'{S2 + 1}{LETTERS[L]}' + draw(st.sampled_from(['', '*']))
    return f'{t}<{frac(draw(st.sampled_from(jrange(L, S2 / 2))))}>' if withJ else t


@st.composite
def ls(draw, J=None):
    L, S2 = draw(st.integers(0, 6)), draw(st.integers(0, 5))
    return f'{S2 + 1}{LETTERS[L]}' + draw(st.sampled_from(['', '*']))


@st.composite
def row(draw, i):
    """a row of a listing with what it stands for"""
    kind = draw(st.sampled_from(['LS', 'LS', 'LS', 'LSp', 'JK', 'JK', 'JJ', 'LK', 'none']))
    r = {'kind': kind, 'c2': None, 't2': '', 'lead_term': None, 'p2': None}
    outer = draw(st.sampled_from(['5d2', '6s.6p', '5f', '6p2']))
    pair = None  # texts around and inside the parents
    if kind == 'LS':
        r['c'], r['t'] = draw(st.sampled_from(['4f14.{}s', '4f14.{}d', '3d10.4s2.{}p', '{}s2', ''])).format(i + 4), draw(ls())
    elif kind == 'none':  # a level without a term, of which only the parity may be known
        r['c'] = draw(st.sampled_from(['4f13.(2F*<5/2>).5d.{}s.(3D)', '4f13.(2F*<7/2>).{}d.6p.(1P*<1>)', '4f13.{}d2', ''])).format(i + 5)
        r['t'] = draw(st.sampled_from(['', '*']))
    elif kind == 'LSp':
        p1 = draw(parent(False))
        r['c'], r['t'] = f'3d7.({p1}).{i + 4}s', draw(ls())
    elif kind == 'LK':
        p1, p2 = draw(parent(False)), draw(parent(False))
        r['c'], r['t'] = f'3d7.({p1}).{i + 4}s.4p.({p2})', f'{LETTERS[draw(st.integers(0, 5))]} {draw(st.integers(1, 4))}[{frac(draw(st.integers(0, 9)) / 2)}]' + draw(st.sampled_from(['', '*']))
        pair = True
    else:
        p1, p2 = draw(parent()), draw(parent(kind == 'JJ'))
        r['c'] = f'4f13.({p1}).{i + 4}d.{outer}.({p2})'
        pair = True
        star = draw(st.sampled_from(['', '*']))
        if kind == 'JK':
            r['t'] = f'{draw(st.integers(1, 5))}[{frac(draw(st.integers(0, 15)) / 2)}]{star}'
        else:
            a, b = (x[x.index('<') + 1:-1] for x in (p1, p2))
            r['t'] = f'({a},{b}){star}'
    js = [frac(draw(st.integers(0, 14)) / 2)]
    if draw(st.integers(0, 4)) == 0:
        js.append(frac(ref.half(js[0]) / 2 + 1))
        if draw(st.booleans()):
            js.append(frac(ref.half(js[0]) / 2 + 2))
    r['J'] = js
    r['Jsep'] = draw(st.sampled_from([',', ' or ']))
    r['E'] = draw(st.integers(0, 10 ** 9)) / 10 ** draw(st.sampled_from([2, 3, 4])) if draw(st.integers(0, 7)) else None
    r['g'] = draw(st.none() | st.integers(-3000, 3000).map(lambda x: x / 1000))
    r['p'] = draw(st.none() | st.integers(1, 100))
    lead = '' if r['p'] is None else str(r['p'])
    if r['p'] is not None and draw(st.booleans()):
        r['p2'] = draw(st.integers(1, 99))
        form = draw(st.sampled_from(['plain', 'full', 'short'])) if pair else 'plain'
        q1, q2 = draw(parent(kind in ('JK', 'JJ'))), draw(parent(kind == 'JJ'))
        if form == 'plain':
            text = r['c2'] = draw(st.sampled_from(['5d.6s2', '4f14.7s', '4f13.6s2', '3d5.(6S).4s']))
        elif form == 'full':
            text = f'({q1}).5d.7s.({q2})'
            r['c2'] = r['c'].split('(')[0] + text
        else:
            text = f'({q1})({q2})'
            a, rest = r['c'].split('(', 1)
            b = rest.split(')', 1)[1].split('(')[0]
            r['c2'] = f'{a}({q1}){b}({q2})'
        if kind == 'JJ' and form != 'plain':
            a, b = (x[x.index('<') + 1:-1] for x in (q1, q2))
            r['t2'] = f'({a}, {b})'
        else:
            r['t2'] = draw(ls()) if kind in ('LS', 'LSp', 'LK', 'none') or form == 'plain' else f'{draw(st.integers(1, 5))}[{frac(draw(st.integers(0, 15)) / 2)}]*'
            text += ' ' * draw(st.integers(1, 12)) + r['t2']
        first = ''
        if kind in ('JK', 'JJ') and draw(st.booleans()):
            r['lead_term'] = draw(st.sampled_from(['', '*']))  # what stands in the term column
            first = '  ' + r['t']
        lead += first + ' ' * draw(st.integers(6, 16)) + ':' + ' ' * draw(st.integers(1, 4)) + str(r['p2']) + '  ' + text
    r['lead'] = lead
    deco = draw(st.lists(st.sampled_from(['prefix', 'level?', 'pad', 'J?', 'conf?']), max_size=3, unique=True))
    if 'J?' in deco and len(js) > 1:
        deco.remove('J?')
    r['deco'] = deco
    return r


@st.composite
def cases(draw):
    n = draw(st.integers(1, 8)) if draw(st.integers(0, 11)) else 20
    rows = [draw(row(i)) for i in range(n)]
    if draw(st.integers(0, 3)) == 0:  # levels of one configuration and J that aren't resolved
        for x, y in zip(rows, rows[1:]):
            if x['kind'] == y['kind'] == 'LS':
                y.update(c=x['c'], E=x['E'], J=x['J'], deco=[d for d in y['deco'] if d != 'J?'])
    return {'rows': rows, 'limit': draw(st.none() | st.integers(0, n)), 'limit2': draw(st.booleans()),
            'missing': draw(st.sampled_from([[], [], ['Lande'], ['Leading percentages'], ['Lande', 'Leading percentages']])),
            'reference': draw(st.booleans()), 'species': draw(st.sampled_from(['Yb II', 'Ca II', 'Rb I'])),
            'order': draw(st.booleans()), 'save': draw(st.sampled_from(['name.csv', 'name', True])), 'head_limit_level': draw(st.booleans())}


def render(case):
    cols = [h for h in HEAD if h not in case['missing']] + (['Reference'] if case['reference'] else [])
    lines = [','.join(cols)]

    def add(d):
        lines.append(','.join('"=""' + d.get(c, '') + '"""' for c in cols) + ',')

    limit = {'Configuration': 'Yb III (4f14 1S<0>)', 'Term': 'Limit', 'J': '---', 'Level (cm-1)': '98207.0'}
    for i, r in enumerate(case['rows'] + [None]):
        if i == case['limit']:
            add(limit)
        if case['limit'] is not None and case['limit2'] and r is None:
            add({**limit, 'Level (cm-1)': '120000'})
        if r is None:
            break
        t = r['t'] if r['lead_term'] is None or 'Leading percentages' in case['missing'] else r['lead_term']
        deco = r['deco']
        if 'prefix' in deco and r['kind'] in ('LS', 'LSp'):
            t = 'abcz'[i % 4] + ' ' + t
        lev = '' if r['E'] is None else repr(r['E'])
        if lev and 'level?' in deco:
            lev += '?'
        if 'pad' in deco:
            lev = '  ' + lev + ' '
        add({'Configuration': r['c'] + '?' * ('conf?' in deco), 'Term': t, 'J': r['Jsep'].join(r['J']) + '?' * ('J?' in deco), 'Level (cm-1)': lev,
             'Uncertainty (cm-1)': '0.05', 'Lande': '' if r['g'] is None else repr(r['g']), 'Leading percentages': r['lead'], 'Reference': 'L123'})
    return '\n'.join(lines) + '\n'


def expected(case):
    out = []
    for i, r in enumerate(case['rows']):
        if i == case['limit']:
            break
        if r['E'] is None:
            continue
        lead = 'Leading percentages' not in case['missing']
        for J in r['J']:
            out.append({'Level (cm-1)': r['E'], 'J': J, 'Lande': r['g'] if 'Lande' not in case['missing'] else None, 'Configuration': r['c'], 'Term': r['t'],
                        'Percentage': float(r['p']) if r['p'] is not None and lead else 100.0, 'Configuration_2': r['c2'] if lead else None,
                        'Term_2': r['t2'] if lead else '', 'Percentage_2': r['p2'] if lead else None})
    return out


def check(case):
    import pandas as pd
    from atomtoolkit import IO
    from atomtoolkit.atom import Atom
    text = render(case)
    want = expected(case)
    real, urls = pd.read_csv, []

    def fake(url, *args, **kw):
        if isinstance(url, str) and url.startswith('http'):
            urls.append(url)
            return real(io.StringIO(text), *args, **kw)
        return real(url, *args, **kw)

    tmp = tempfile.mkdtemp(dir=SCRATCH)
    cwd = os.getcwd()
    pd.read_csv = fake
    try:
        os.chdir(tmp)
        df = IO.load_NIST_data(case['species'], term_ordered=case['order'])
        equal(os.listdir(tmp), [], 'files written without being asked for')
        df2 = IO.load_NIST_data(case['species'], case['order'], save=case['save'])
        names = os.listdir(tmp)
        equal(names, ['name.csv' if case['save'] is not True else case['species'] + '_level_data.csv'], 'saved file')
        saved = real(os.path.join(tmp, names[0]), keep_default_na=False)
    finally:
        pd.read_csv = real
        os.chdir(cwd)
        shutil.rmtree(tmp)
    equal(len(urls), 2, 'downloads')
    for u in urls:
        q = parse_qs(urlsplit(u).query, keep_blank_values=True)
        for x in ('conf', 'term', 'level', 'j', 'lande', 'perc'):
            equal(q.get(x + '_out'), ['on'], f'{x} is not asked for: {u}')
        equal(q.get('units'), ['0'], f'energies are not asked for in inverse centimetres: {u}')
        equal((q.get('multiplet_ordered') or ['0'])[0] == 'on', case['order'], f'order that is asked for: {u}')
        need('spectrum=' + case['species'].replace(' ', '+') in u, f'the listing of another species is asked for: {u}')
    for d, name in ((df, 'import'), (df2, 'import with saving')):
        equal(len(d), len(want), f'{name}: rows {list(d["Configuration"])}')
        equal(list(d.index), list(range(len(d))), f'{name}: index')
        for i, w in enumerate(want):
            for c, v in w.items():
                x = d[c].iloc[i]
                if c == 'Level (cm-1)':
                    near(x.to('cm**-1').magnitude, v, f'{name}: {c} of row {i}', 1e-9)
                    near(d['Level (Hz)'].iloc[i].to('Hz').magnitude, v * 100 * ref.C_LIGHT, f'{name}: frequency of row {i}', 1, 1e-9)
                elif v is None:
                    need(x is None or x != x or x is pd.NA, f'{name}: {c} of row {i}: {x!r} instead of none')
                elif isinstance(v, str):
                    equal(x, v, f'{name}: {c} of row {i}')
                else:
                    near(x, v, f'{name}: {c} of row {i}', 1e-9)
    equal(len(saved), len(want), 'rows of the saved file')
    for i, w in enumerate(want):
        for c in ('J', 'Configuration', 'Term'):
            equal(str(saved[c].iloc[i]), w[c], f'saved file: {c} of row {i}')
        near(float(saved['Percentage'].iloc[i]), w['Percentage'], 'saved percentage', 1e-9)
    labels = [r['kind'] for r in case['rows']] + (['multiJ'] if any(len(r['J']) > 1 for r in case['rows']) else [])
    labels += ['second'] * any(w['Percentage_2'] for w in want) + ['leadterm'] * any(r['lead_term'] is not None for r in case['rows'])
    return set(labels) | ({'trivial'} if len(want) < 2 else set())


SUBS = [Sub('listing', cases, check, quick=300, thorough=3700,
            rule='listings of up to 8 levels with all term notations, percentages and decorations; non-trivial: at least two imported rows')]
