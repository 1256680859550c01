import warnings

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, same, equal, frac

READS = ['levels', 'transitions', 'level', 'ladder', 'zladder', 'numbers', 'rank', 'slice', 'line', 'components', 'zcomponents',
         'links', 'lifetime', 'branching', 'text', 'missing', 'alias', 'find', 'find', 'linked sub', 'linked z', 'field', 'items', 'comp key', 'hf file', 'draw']


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(2, 4, 'LS LS JJ JK LK', max_J=2.5, I=st.sampled_from([0.0, 0.5, 1.0, 1.5]), more=9))
    n = len(spec['levels'])
    edges = [list(e) for e in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=1, max_size=4,
                                            unique_by=lambda e: frozenset(e)))]
    prog = st.lists(st.tuples(st.sampled_from(READS), st.integers(0, 9), st.integers(0, 99)), min_size=3, max_size=10).map(
        lambda l: [list(x) for x in l])
    return {'spec': spec, 'edges': edges, 'A': [draw(st.none() | st.integers(1, 50)) for _ in edges] if draw(st.booleans()) else [5] * len(edges),
            'set': draw(st.booleans()), 'al': draw(st.booleans()), 'eager': draw(st.booleans()), 'p1': draw(prog), 'p2': draw(prog)}


def build(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    a, lvs = gen.mk_atom(case['spec'], levels=False)
    lvs = [a.add_level(gen.mk_level(t), populate_sublevels=case['eager'], alias=f'al{i}' if case['al'] else None)
           for i, t in enumerate(case['spec']['levels'])]
    ts = []
    for n, ((i, j), A) in enumerate(zip(case['edges'], case['A'])):
        kw = {} if A is None else {'A': Q_(float(A), 'MHz')}
        if case['set'] and n == 0 and i != j:
            kw['freq'] = Q_(12345.0, 'GHz')
        t = a.add_transition(Transition(lvs[i], lvs[j], **kw))
        if case['al']:
            t.alias = f'line{n}'
        ts.append(t)
    return a, lvs, ts


def pair(t, how='comp'):
    """a pair of sublevels of one level is connected in both directions by an internal transition"""
    if t.E_1.manifold is not t.E_2.manifold:
        return frozenset((t.E_1.name, t.E_2.name))
    return (how, t.E_1.name, t.E_2.name) if how == 'comp' else (how, frozenset((t.E_1.name, t.E_2.name)))


class Reader:
    """executes reads; remembers which object each key gave"""

    def __init__(self, case):
        self.case = case
        self.a, self.lvs, self.ts = build(case)
        self.ids = {}

    def obj(self, key, o):
        """the object under a key stays the same"""
        if key in self.ids:
            same(o, self.ids[key], f'object under {key}')
        self.ids[key] = o
        return o.name

    def attempt(self, fn):
        try:
            return fn()
        except (KeyError, ValueError, TypeError) as e:
            return type(e).__name__

    def read(self, op):
        kind, i, k = op
        a = self.a
        lv = self.lvs[i % len(self.lvs)]
        t = self.ts[i % len(self.ts)]

        def sub():
            s = lv.sublevels()
            return s[k % len(s)]

        def z():
            s = sub().sublevels()
            return s[(k // 7) % len(s)]

        def num(x):
            return [float(x.level_Hz), gen.mag(x.level), float(x.shift_Hz), gen.mag(x.shift)]

        if kind == 'levels':
            return [len(a.levels), sorted(a.levels), sorted(a.levels.keys()), sorted(self.obj(x.name, x) for x in a.levels.values()),
                    sorted(a.levels.list_names()), sorted(x.name for x in a.levels.levels())]
        if kind == 'transitions':
            return [len(a.transitions), sorted(map(sorted, a.transitions)), sorted(map(sorted, a.transitions.keys())),
                    sorted(self.obj(pair(x), x) for x in a.transitions.values()),
                    sorted(map(sorted, a.transitions.list_names())), sorted(map(sorted, a.transitions.list_names(False)))]
        if kind == 'level':
            return self.obj(lv.name, a.levels[lv.name])
        if kind == 'ladder':
            return [sorted(self.obj(s.name, s) for s in lv.sublevels()), len(lv), sorted(lv.keys()), sorted(lv)]
        if kind == 'zladder':
            s = sub()
            return [sorted(self.obj(x.name, x) for x in s.sublevels()), len(s), sorted(s.keys()), sorted(s)]
        if kind == 'numbers':
            return [num(lv), num(sub()), num(z()), float(lv.lande), float(sub().gF), float(z().gF), gen.mag(lv.hfA), gen.mag(lv.hfB), gen.mag(lv.hfC)]
        if kind == 'rank':
            n = len(self.lvs)
            return self.obj(('rank', k % n), a.levels[k % n]) + self.obj(('rank', k % n), a.levels[k % n - n])
        if kind == 'slice':
            return [self.obj(x.name, x) for x in a.levels[i % 3:k % 5]]
        if kind == 'line':
            return [self.obj(pair(t), t), float(t.freq_Hz), gen.mag(t.freq), gen.mag(t.A), float(t.rel_strength), [bool(x) for x in t.allowed_types],
                    t.E_upper.name, t.E_lower.name, gen.mag(t.set_freq), t.wl.to('nm').magnitude if t.freq_Hz else None]
        if kind in ('components', 'zcomponents'):
            if kind == 'zcomponents':
                subs = t.subtransitions()
                if not subs:
                    return None
                t = subs[k % len(subs)]
            return [sorted([self.obj(pair(s), s), float(s.freq_Hz), gen.mag(s.A), float(s.rel_strength)] for s in t.subtransitions()),
                    len(t), sorted(t.keys())]
        if kind == 'links':
            return sorted((x, self.obj(pair(y, 'link'), y)) for x, y in a.linked_levels(lv.name).items())
        if kind in ('linked sub', 'linked z'):
            s = sub() if kind == 'linked sub' else z()
            return self.attempt(lambda: [sorted((x, self.obj(pair(y, 'link'), y)) for x, y in a.linked_levels(s.name).items()),
                                         gen.mag(a.state_lifetime(s.name), 's'), sorted(a.compute_branching_ratios(s.name).items())])
        if kind == 'lifetime':
            return self.attempt(lambda: gen.mag(a.state_lifetime(lv.name), 's'))
        if kind == 'branching':
            return self.attempt(lambda: sorted(a.compute_branching_ratios(lv.name).items()))
        if kind == 'text':
            repr(lv), repr(t), repr(sub())  # show how much has been populated so far, on purpose
            return [str(a), repr(a), str(lv), str(t), str(sub()), str(lv.term), lv.term.term_name, t.name,
                    repr(a.levels), repr(a.transitions), lv.manifold.name, lv.atom.name]
        if kind == 'missing':
            name = ['nope', '1s2 1S0', 'F=1', lv.name + ' F=77', lv.name + ' F=77 mF=0', lv.name + 'x', lv.name + ' mF=99'][k % 7]
            return [self.attempt(lambda: a.levels[name].name), self.attempt(lambda: a.transitions[name, lv.name].name),
                    self.attempt(lambda: a.transitions[lv.name, name].name), self.attempt(lambda: lv[name].name),
                    self.attempt(lambda: t[name, 'F=0'].name), self.attempt(lambda: a.linked_levels(name)), 'nope' in a.levels]
        if kind == 'alias':
            return [lv.alias, sorted(a.levels.aliases), sorted(a.transitions.aliases), self.obj('al', self.lvs[0]),
                    self.attempt(lambda: self.obj(lv.name, a.levels[f'al{self.lvs.index(lv)}']))]
        if kind == 'find':
            s, y = sub(), z()
            x = t.subtransitions()
            out = [self.obj(s.name, a.levels[s.name]), self.obj(y.name, a.levels[y.name]), self.obj(pair(t), a.transitions[t.E_2.name, t.E_1.name])]
            if x and t.E_1 is not t.E_2:
                c = x[k % len(x)]
                out.append(self.obj(pair(c), a.transitions[c.E_1.name, c.E_2.name]))
                d = c.subtransitions()
                if d:
                    d = d[k % len(d)]
                    out.append(self.obj(pair(d), a.transitions[d.E_2.name, d.E_1.name]))
            return out
        if kind == 'field':
            return [gen.mag(a.B, 'gauss'), float(a.B_gauss), a.I, a.name]
        if kind == 'items':
            return [[(n, self.obj(x.name, x)) for n, x in lv.items()], [(n, self.obj(x.name, x)) for n, x in sub().items()],
                    sorted((sorted(map(str, n)), self.obj(pair(x), x)) for n, x in t.items())]
        if kind == 'comp key':
            keys = sorted(t.keys())
            return [self.obj(pair(s), s) for s in (t[q] for q in keys[:4])]
        if kind == 'hf file':
            import os
            import tempfile
            from atomtoolkit import IO
            with tempfile.TemporaryDirectory() as d:
                IO.generate_hf_csv(a, os.path.join(d, 'x.csv'))
                return sorted(open(os.path.join(d, 'x.csv'), encoding='utf-8').read().split('\n'))
        if kind == 'draw':
            from matplotlib import pyplot as plt
            from atomtoolkit.render import grotrian
            try:
                fig, ax = plt.subplots()
                if k % 2:
                    grotrian.draw_levels(a)
                else:
                    g = grotrian.Grotrian()
                    g.add_level(lv, ['g', 'hf', 'z'][k % 3])
                    g.render(ax)
                return len(plt.gca().texts)
            finally:
                plt.close('all')
        raise AssertionError(kind)


def check(case):
    x, y, z = Reader(case), Reader(case), Reader(case)
    first = [x.read(op) for op in case['p1']]

    def compare(got, when):
        for op, u, v in zip(case['p1'], first, got):
            d = gen.diff(u, v, op[0], atol=1e-3)
            need(not d, f'{op} answers differently {when}: {d}')

    compare([x.read(op) for op in case['p1']], 'the second time')
    for op in case['p2']:
        x.read(op), y.read(op)
    compare([x.read(op) for op in case['p1']], f'after {case["p2"]}')
    compare([y.read(op) for op in case['p1']], f'when {case["p2"]} was read first')
    sz = gen.snapshot(z.a)
    for r, name in ((x, 'first'), (y, 'second')):
        d = gen.diff(gen.snapshot(r.a), sz, atol=1e-3)
        need(not d, f'reading changed the {name} atom: {d}')
        ids = dict(r.ids)
        equal([list(r.a.levels), r.a.levels.list_names(), [set(k) for k in r.a.transitions]],
              [list(z.a.levels), z.a.levels.list_names(), [set(k) for k in z.a.transitions]], f'order of the levels and transitions of the {name} atom')
        for lv in r.a.levels.values():
            for s in [lv] + lv.sublevels() + [q for s in lv.sublevels() for q in s.sublevels()]:
                if s.name in ids:
                    same(s, ids[s.name], f'{s.name} at the end')
        for t in r.a.transitions.values():
            for s in t.subtransitions():
                k = pair(s)
                if k in ids:
                    same(s, ids[k], f'{s.name} at the end')
                for q in s.subtransitions():
                    k = pair(q)
                    if k in ids:
                        same(q, ids[k], f'{q.name} at the end')
    kinds = {op[0] for op in case['p1'] + case['p2']}
    return sorted(kinds) + (['trivial'] if len(kinds) < 3 else [])


SUBS = [Sub('reads', cases, check, quick=130, thorough=2000,
            rule='two programs of up to 10 reads of 25 kinds on the same atom with up to 4 transitions; non-trivial: at least three kinds of read')]
