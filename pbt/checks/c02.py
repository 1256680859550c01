import itertools
import warnings

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, Violation
from ..gen import need, same, equal, raises, frac


@st.composite
def cases(draw):
    I = draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 1.5, 2.5]))
    spec = draw(gen.atom_specs(2, 5, 'LS LS LS JJ JK LK', max_J=2.5, I=st.just(I), more=9))
    n = len(spec['levels'])
    if draw(st.integers(0, 2)) == 0:  # manifolds that overlap
        for t in spec['levels']:
            t['E'] = t['E'] // 5000 * 3 + 1
    pairs = [p for p in itertools.permutations(range(n), 2)]
    m = n * (n - 1) // 2
    edges = [list(p) for p in draw(st.lists(st.sampled_from(pairs), min_size=min(m, draw(st.sampled_from([1, 2, 2, 3]))), max_size=min(m, 5 if n < 6 else 12), unique_by=frozenset))]
    return {'spec': spec, 'order': list(draw(st.permutations(list(range(n))))), 'edges': edges,
            'how': [draw(st.sampled_from(['obj', 'made', 'names', 'levels'])) for _ in edges],
            'alias': [draw(st.sampled_from([None, 'ctor', 'set'])) for _ in edges],
            'self': draw(st.booleans()), 'replace': draw(st.sampled_from([None, None, 'obj', 'levels'])), 'again': draw(st.sampled_from([None, 'name', 'A', 'alias', 'plain'])), 'dir': draw(st.sampled_from([1, -1])),
            'A': [draw(st.sampled_from([None, 1.0, 2.5])) for _ in edges], 'pick': draw(st.integers(0, 10 ** 6))}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, Transition
    spec = case['spec']
    I, specs = spec['I'], spec['levels']
    a = Atom('X', I=I)
    objs = {}
    for i in case['order']:
        objs[i] = a.add_level(gen.mk_level(specs[i]))
    ts, als = {}, {}
    for e, how, al, A in zip(case['edges'], case['how'], case['alias'], case['A']):
        kw = {} if A is None else {'A': Q_(A, 'MHz')}
        if al == 'ctor':
            kw['alias'] = f'a{e[0]}{e[1]}'
        if how == 'obj':
            t = a.add_transition(Transition(objs[e[0]], objs[e[1]], **kw))
        elif how == 'made':  # a transition between levels of an atom is in the atom
            t = Transition(objs[e[0]], objs[e[1]], **kw)
        elif how == 'names':
            t = a.add_transition((objs[e[0]].name, objs[e[1]].name), **kw)
        else:
            t = a.add_transition((objs[e[0]], objs[e[1]]), **kw)
        if al == 'ctor':
            same(a.transitions[kw['alias']], t, 'alias given on construction')
        if al == 'set':
            t.alias = f'a{e[0]}{e[1]}'
        if al:
            als[f'a{e[0]}{e[1]}'] = t
        ts[frozenset(e)] = t
    if case['again']:  # connecting two levels once more gives the transition there is
        e = case['edges'][case['pick'] % len(case['edges'])]
        t = ts[frozenset(e)]
        kw = {'name': {'name': 'other'}, 'A': {'A': Q_(3.0, 'MHz')}, 'alias': {'alias': 'again'}}.get(case['again'], {})
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            same(a.add_transition((t.E_1.name, t.E_2.name)[::case['dir']], **kw), t, 'a transition that is added again by its names')
    if case['replace']:  # a new transition between two levels that are connected takes the place of the old one
        e = frozenset(case['edges'][case['pick'] // 7 % len(case['edges'])])
        old = ts[e]
        if case['pick'] % 2:
            old.subtransitions()
        ends = (old.E_1, old.E_2)[::case['dir']]
        ts[e] = a.add_transition(Transition(*ends) if case['replace'] == 'obj' else ends)
        need(ts[e] is not old, 'the same transition')
        als = {k: t for k, t in als.items() if t is not old}
    if case['self']:
        for i in objs:
            ts[frozenset([i])] = a.add_transition(Transition(objs[i], objs[i]))
    labels = []
    for k, t in als.items():
        same(a.transitions[k], t, f'alias {k}')
    raises(KeyError, lambda: a.transitions['no such alias'], 'unknown alias')
    if len(ts) > 1:  # aliases that differ in case only
        x, y = list(ts.values())[-2:]
        x.alias, y.alias = 'cooling', 'Cooling'
        same(a.transitions['cooling'], x, 'alias cooling')
        same(a.transitions['Cooling'], y, 'alias Cooling')
        raises(KeyError, lambda: a.transitions['COOLING'], 'alias of another case')
    by_e = sorted(objs, key=lambda i: objs[i].level_Hz)
    for i, j in itertools.product(objs, repeat=2):
        if i == j and not case['self']:
            continue
        x, y = objs[i], objs[j]
        keys = [(x.name, y.name), (x, y), (by_e.index(i), by_e.index(j)), (by_e.index(i) - len(by_e), by_e.index(j)), (by_e.index(i), by_e.index(j) - len(by_e))]
        t = ts.get(frozenset([i, j]))
        if t is None:
            for k in keys:
                raises(KeyError, lambda: a.transitions[k], f'unconnected pair {k}')
            F0, F1 = ref.jrange(I, gen.J_of(specs[i]))[0], ref.jrange(I, gen.J_of(specs[j]))[-1]
            raises(KeyError, lambda: a.transitions[gen.sub_name(specs[i], F0), gen.sub_name(specs[j], F1)], 'components of an unconnected pair')
            continue
        for k in keys:
            same(a.transitions[k], t, f'transition {k}')
        equal({t.E_1.name, t.E_2.name}, {x.name, y.name}, 'ends of the transition')
        need({id(t.E_1), id(t.E_2)} == {id(x), id(y)}, 'ends are not the levels asked for')
    # components
    keys = [k for k in ts if len(k) == 2] + [k for k in ts if len(k) == 1][:1]
    n_sub = 0
    for kk in keys:
        i, j = sorted(kk)[0], sorted(kk)[-1]
        t = ts[kk]
        comp = {}  # (degenerate sublevels of one level: both directions are components of their own)
        for s in t.subtransitions():
            comp.setdefault(frozenset((s.E_1.name, s.E_2.name)), []).append(s)
            need(len(kk) == 1 or len(comp[frozenset((s.E_1.name, s.E_2.name))]) == 1, 'a pair of sublevels connected twice')
        for s in t.subtransitions():
            equal({s.E_1.manifold.name, s.E_2.manifold.name}, {objs[i].name, objs[j].name}, 'manifolds of a component')
        for F0 in ref.jrange(I, gen.J_of(specs[i])):
            for F1 in ref.jrange(I, gen.J_of(specs[j])):
                n0, n1 = gen.sub_name(specs[i], F0), gen.sub_name(specs[j], F1)
                s = comp.get(frozenset((n0, n1)))
                if s is None:
                    raises(KeyError, lambda: a.transitions[n0, n1], f'forbidden component {n0}, {n1}')
                    raises(KeyError, lambda: a.transitions[n1, n0], f'forbidden component {n1}, {n0}')
                    continue
                n_sub += 1
                for k in ((n0, n1), (n1, n0), (a.levels[n0], a.levels[n1]), (a.levels[n1], a.levels[n0])):
                    need(any(a.transitions[k] is x for x in s), f'component {k}: {a.transitions[k]!r} instead of {s!r}')
                s = a.transitions[n0, n1]
                equal({(s.E_1.name), (s.E_2.name)}, {n0, n1}, 'ends of the component')
                zs = list(s.subtransitions())
                # (within one hyperfine level, both directions between two of its sublevels are components of their own)
                zcomp = {}
                for z in zs:
                    zcomp.setdefault(frozenset((z.E_1.name, z.E_2.name)), []).append(z)
                if not zs:
                    continue
                for d in range(2):
                    z = zs[(case['pick'] + d * 7) % len(zs)]
                    zk = (z.E_1.name, z.E_2.name)
                    for k in (zk, zk[::-1], (z.E_1, z.E_2)):
                        need(any(a.transitions[k] is x for x in zcomp[frozenset(zk)]), f'Zeeman component {k}: another object')
                    if I == 0:
                        m0, m1 = z.E_1.term.mF, z.E_2.term.mF
                        k = (f'{z.E_1.manifold.name} mJ={frac(m0)}', f'{z.E_2.manifold.name} mJ={frac(m1)}')
                        for kk in (k, k[::-1]):
                            need(any(a.transitions[kk] is x for x in zcomp[frozenset(zk)]), f'{kk}: another object')
                        labels.append('mJ')
                # no transition connects a sublevel with a whole level, or a hyperfine with a Zeeman sublevel
                z1 = gen.sub_name(specs[j], F1, ref.mrange(F1)[case['pick'] % len(ref.mrange(F1))])
                for k in ((n0, objs[j].name), (objs[i].name, n1), (n0, z1), (objs[i].name, z1)):
                    raises(KeyError, lambda: a.transitions[k], f'{k}')
                    raises(KeyError, lambda: a.transitions[k[::-1]], f'{k[::-1]}')
                # a pair of Zeeman sublevels that is not a component
                for m0 in ref.mrange(F0):
                    for m1 in ref.mrange(F1):
                        zk = (gen.sub_name(specs[i], F0, m0), gen.sub_name(specs[j], F1, m1))
                        if frozenset(zk) not in zcomp:
                            raises(KeyError, lambda: a.transitions[zk], f'forbidden Zeeman component {zk}')
                            break
    if n_sub == 0:
        labels.append('no-components')
    if len(ts) < 2:
        labels.append('trivial')
    return labels


SUBS = [Sub('keys', cases, check, quick=120,
            rule='random atoms of 2-5 (sometimes up to 14) levels inserted in random order with 1-5 transitions created in random ways, every ordered pair looked up through all key forms; non-trivial: at least two transitions')]
