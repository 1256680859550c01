import os
import pickle
import shutil
import tempfile

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, same, equal, raises

NAMES = ['x', 'x.atom', 'my.atom.bak', 'v1.2', 'sub.dir/y', 'sub.dir/y.atom', 'a b', None, 'atom', 'Yb_II.atom.']


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(1, 4, 'LS LS JJ JK LK', max_J=2.5, I=st.sampled_from([0.0, 0.5, 1.0, 1.5]), more=9))
    n = len(spec['levels'])
    for i, t in enumerate(spec['levels']):
        if draw(st.integers(0, 2)) == 0:
            t.update(two=dict(draw(gen.ls_term(i + 20, J=gen.J_of(t)))), p=float(draw(st.integers(40, 100))), p2=float(draw(st.integers(1, 39))))
    edges = [list(e) for e in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=4, unique_by=lambda e: frozenset(e)))]
    kinds = ['E', 'field', 'A', 'freq', 'sub', 'alias', 'add', 'del', 'talias', 'quad']
    ops = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 19), st.integers(0, 99), st.integers(1, 4000)), min_size=1, max_size=4))
    pre = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 19), st.integers(0, 99), st.integers(1, 4000)), max_size=3))
    return {'pre': [list(o) for o in pre], 'again': draw(st.booleans()), 'spec': spec, 'edges': edges, 'A': [draw(st.none() | st.integers(0, 50)) for _ in edges],
            'set': draw(st.none() | st.integers(0, 3)), 'al': [draw(st.booleans()) for _ in range(n)],
            'subal': draw(st.booleans()), 'tal': draw(st.booleans()), 'pop': draw(st.sampled_from(['none', 'some', 'all'])),
            'file': draw(st.sampled_from(NAMES)), 'ops': [list(o) for o in ops], 'pick': draw(st.integers(0, 99)),
            'quad': draw(st.none() | st.integers(-500, 500)), 'other': draw(st.sampled_from([[1, 2], {'a': 1}, 'text', None]))}


def apply(a, case, op):
    """applies an operation; same effect on the original and on a copy"""
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    kind, i, k, v = op
    lvs = sorted(a.levels.values(), key=lambda x: x.name)
    ts = sorted(a.transitions.values(), key=lambda t: sorted((t.E_1.name, t.E_2.name)))
    links = [t for t in ts if t.E_1 is not t.E_2]
    if kind == 'field':
        a.B = Q_(float(v), 'G')
    elif kind == 'add' and not any(x.term.conf == '9s2' for x in lvs):
        t = {'c': '9s2', 't': '1S', 'J': '0', 'E': 90000 + v, 'g': 0.0}
        lv = a.add_level(gen.mk_level(t), alias='new')
        if lvs:
            a.add_transition((lv, lvs[i % len(lvs)]), A=Q_(1.0, 'MHz'))
    elif not lvs or kind == 'add':
        return
    elif kind == 'E':
        lv = lvs[i % len(lvs)]
        s = lv.sublevels()[k % len(lv)]
        s.level = s.level + Q_(float(v), 'GHz')
    elif kind == 'A':
        lvs[i % len(lvs)].hfA = Q_(float(v), 'MHz')
    elif kind == 'quad':
        s = lvs[i % len(lvs)].sublevels()[0]
        s.sublevels()[k % len(s)].quadratic_zeeman = float(v)
    elif kind == 'alias':
        lvs[i % len(lvs)].alias = 'renamed'
    elif kind == 'del':
        del a.levels[lvs[i % len(lvs)].name]
    elif kind == 'talias' and ts:
        ts[i % len(ts)].alias = 't2'
    elif kind in ('freq', 'sub') and links:
        t = links[i % len(links)]
        if kind == 'sub' and t.subtransitions():
            t = t.subtransitions()[k % len(t)]
        t.set_frequency(Q_(v + 1000.0, 'GHz'))


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, Transition
    spec = case['spec']
    a, lvs = gen.mk_atom(spec)
    a.name = 'Yb II'
    for lv, al in zip(lvs, case['al']):
        if al:
            lv.alias = 'al ' + lv.term.conf
    n_set = 0
    for n, ((i, j), A) in enumerate(zip(case['edges'], case['A'])):
        kw = {} if A is None else {'A': Q_(float(A), 'MHz')}
        if case['set'] == n and i != j:
            kw['freq'] = Q_(7777.0, 'GHz')
            n_set += 1
        t = a.add_transition(Transition(lvs[i], lvs[j], **kw))
        if case['tal']:
            t.alias = f'line{n}'
    if case['subal']:
        s = lvs[0].sublevels()[0]
        s.alias = 'first'
        s.sublevels()[-1].alias = 'edge'
        for n, t in enumerate(list(a.transitions.values())[:2]):
            for s in t.subtransitions()[:1]:
                s.alias = f'component{n}'
                for z in s.subtransitions()[-1:]:
                    z.alias = f'line {n} of the component'
    if case['pop'] == 'some':
        lv = lvs[case['pick'] % len(lvs)]
        lv.sublevels()[0].sublevels()
        for t in list(a.transitions.values())[:1]:
            for s in t.subtransitions()[:1]:
                s.subtransitions()
    if case['quad'] is not None:
        s = lvs[case['pick'] % len(lvs)].sublevels()[-1].sublevels()
        s[case['pick'] % len(s)].quadratic_zeeman = float(case['quad'])
    for op in case['pre']:
        apply(a, case, op)
    before = gen.snapshot(a) if case['pop'] == 'all' else None
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.mkdir(os.path.join(d, 'sub.dir'))
        os.chdir(d)
        f = case['file']
        a.save(f)
        want = (f or a.name) if (f or a.name).endswith('.atom') else (f or a.name) + '.atom'
        files = sorted(os.path.relpath(os.path.join(p, x), d) for p, _, fs in os.walk(d) for x in fs)
        equal(files, [want], 'files written')
        b = Atom.load(want)
        if case['again']:  # a loaded atom can be saved over its file
            b.save(want)
            b = Atom.load(want)
        with open('other.atom', 'wb') as fh:
            pickle.dump(case['other'], fh)
        raises(IOError, lambda: Atom.load('other.atom'), 'loading something else')
        raises(IOError, lambda: Atom.load('missing.atom'), 'loading a file that is not there')
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)

    def same_snap(x, y, what):
        r = gen.diff(x, y)
        need(r is None, f'{what}: {r}')
    sb, sa = gen.snapshot(b), gen.snapshot(a)
    same_snap(sa, sb, 'loaded atom differs')
    if before:
        same_snap(before, sa, 'saving changed the atom')

    def coherent(x, y):
        names = {lv.name: lv for lv in x.levels.values()}
        for lv in names.values():
            same(x.levels[lv.name], lv, 'level under its name')
            same(lv.atom, x, 'atom of a level')
            for s in lv.sublevels():
                same(s.atom, x, 'atom of a sublevel'), same(s.manifold, lv, 'manifold'), same(x.levels[s.name], s, 'sublevel')
                for z in s.sublevels():
                    same(x.levels[z.name], z, 'Zeeman sublevel'), same(z.atom, x, 'atom')
        for al, lv in x.levels.aliases.items():
            same(x.levels[al], x.levels[lv.name], f'alias {al}')
            equal(x.levels[al].manifold is names[lv.manifold.name], True, 'alias leads into the atom')
        for al, t in x.transitions.aliases.items():
            same(x.transitions[al], x.transitions[t.E_1.name, t.E_2.name], f'alias {al}')
        for t in x.transitions.values():
            same(t.atom, x, 'atom of a transition')
            for e in (t.E_1, t.E_2):
                same(e, names[e.name], 'end of a transition')
            for s in t.subtransitions():
                same(s.E_1, x.levels[s.E_1.name], 'end of a component'), same(s.E_2, x.levels[s.E_2.name], 'end of a component')
    coherent(b, a)
    ids = {id(v) for v in a.levels.values()}
    need(not ids & {id(v) for v in b.levels.values()}, 'loaded atom shares levels with the original')
    for op in case['ops']:
        apply(b, case, op)
    same_snap(sa, gen.snapshot(a), 'operations on the loaded atom changed the original')
    for op in case['ops']:
        apply(a, case, op)
    same_snap(gen.snapshot(a), gen.snapshot(b), f'after {case["ops"]}')
    coherent(b, a)
    labels = sorted({o[0] for o in case['ops']} | {case['pop']})
    if not case['edges'] and len(lvs) < 2:
        labels.append('trivial')
    return labels


SUBS = [Sub('roundtrip', cases, check, quick=270,
            rule='random atoms with aliases, transitions and partly populated structure, edited before, ten kinds of path, then 1-4 operations on both atoms; non-trivial: more than one level or a transition')]
