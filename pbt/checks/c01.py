from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, same, equal, raises, frac


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(1, 6, 'LS LS JJ JK LK', more=24))
    n = len(spec['levels'])
    order = draw(st.permutations(list(range(n))))
    al = []
    for i in range(n):
        kinds = draw(st.lists(st.sampled_from(['add', 'ctor', 'set', 'setitem', 'sub', 'subsub']), max_size=3, unique=True))
        al.append(kinds)
    moves = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 60000)), max_size=3))
    # never two levels at the same energy
    seen = {t['E'] for t in spec['levels']}
    keep = []
    for i, e in moves:
        if e not in seen:
            seen.add(e)
            keep.append([i, e])
    # a few hertz apart from another level, in either direction
    fine = [[i, j, d] for i, j, d in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1),
                                                             st.sampled_from([-700, -40, -3, 3, 12, 500, 10 ** 5])), max_size=2)) if i != j]
    return {'fine': fine, 'spec': spec, 'order': list(order), 'al': al, 'moves': keep, 'eager': draw(st.booleans()),
            'sl': draw(st.tuples(st.integers(-4, 4) | st.none(), st.integers(-4, 6) | st.none(), st.sampled_from([None, 1, 2, -1]))),
            'bad': draw(st.sampled_from(['nope', '6s 2S', '4f14.3s 2S1/2x', '']))}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom
    spec = case['spec']
    I, specs = spec['I'], spec['levels']
    a = Atom('X', I=I)
    objs, aliases = {}, {}
    for i in case['order']:
        t, kinds = specs[i], case['al'][i]
        kw = {'alias': f'ctor{i}'} if 'ctor' in kinds else {}
        lv = gen.mk_level(t, **kw)
        if 'add' in kinds:
            a.add_level(lv, populate_sublevels=case['eager'], alias=f'add{i}')
            aliases[f'add{i}'] = lv
        elif 'setitem' in kinds:
            a.levels[f'item{i}'] = lv
            aliases[f'item{i}'] = lv
        else:
            a.add_level(lv, populate_sublevels=case['eager'])
            if case['eager']:
                first = lv.sublevels()
                a.add_level(lv, populate_sublevels=True)
                need(all(x is y for x, y in zip(first, lv.sublevels())), 'sublevels after they were populated again')
            if kw:
                aliases[f'ctor{i}'] = lv
        if 'set' in kinds:
            lv.alias = f'set{i} F=1'
            aliases[f'set{i} F=1'] = lv
        objs[i] = lv
    labels = []
    for i, t in enumerate(specs):
        lv, nm = objs[i], gen.name_of(t)
        same(a.levels[nm], lv, f'level {nm!r}')
        J = gen.J_of(t)
        for F in ref.jrange(I, J):
            sub = lv[f'F={frac(F)}']
            equal(sub.term.F, F, 'F of the sublevel')
            same(sub.parent, lv, 'parent')
            same(a.levels[nm][f'F={frac(F)}'], sub, 'indexing from the level')
            same(a.levels[f'{nm} F={frac(F)}'], sub, f'sublevel {nm} F={frac(F)}')
            for m in ref.mrange(F):
                z = sub[f'mF={frac(m)}']
                equal((z.term.F, z.term.mF), (F, m), 'F, mF of the sublevel')
                same(z.parent, sub, 'parent')
                same(a.levels[f'{nm} F={frac(F)} mF={frac(m)}'], z, 'full name of a Zeeman sublevel')
                if I == 0:
                    labels.append('mJ')
                    same(a.levels[f'{nm} mJ={frac(m)}'], z, 'mJ name')
                    same(lv[f'mJ={frac(m)}'], z, 'mJ index')
            raises(KeyError, lambda: a.levels[f'{nm} F={frac(F)} mF={frac(F + 1)}'], 'mF > F')
        raises(KeyError, lambda: a.levels[f'{nm} F={frac(I + J + 1)}'], 'F > I+J')
        kinds = case['al'][i]
        if 'sub' in kinds:
            sub = list(lv.sublevels())[-1]
            sub.alias = f'hf{i}'
            aliases[f'hf{i}'] = sub
        if 'subsub' in kinds:
            z = list(list(lv.sublevels())[0].sublevels())[-1]
            z.alias = f'z{i}'
            aliases[f'z{i}'] = z
    for k, lv in aliases.items():
        same(a.levels[k], lv, f'alias {k!r}')
    raises(KeyError, lambda: a.levels[case['bad']], 'unknown name')
    raises(KeyError, lambda: a.levels['not here 2S1/2 F=1'], 'unknown sublevel')

    def ranks():
        by_e = sorted(objs.values(), key=lambda x: x.level_Hz)
        n = len(by_e)
        for r in range(-n, n):
            same(a.levels[r], by_e[r], f'rank {r}')
        raises(IndexError, lambda: a.levels[n], 'rank out of range')
        sl = slice(*case['sl'])
        got = a.levels[sl]
        equal([x.name for x in got], [x.name for x in by_e[sl]], f'slice {sl}')
        names = [gen.name_of(t) for t in specs]
        equal(sorted(a.levels.keys()), sorted(names), 'keys')
        equal(sorted(a.levels), sorted(names), 'iteration')
        equal(sorted(a.levels.list_names()), sorted(names), 'list_names')
        equal(len(a.levels), n, 'len')
        equal(len(list(a.levels.values())), n, 'number of values')
        need({id(x) for x in a.levels.values()} == {id(x) for x in objs.values()}, 'values are not the levels')
        need({id(x) for x in a.levels.levels()} == {id(x) for x in objs.values()}, 'levels() are not the levels')
        for k in a.levels.keys():
            equal(a.levels[k].name, k, 'name under key')

    ranks()
    for i, e in case['moves']:
        objs[i].level = Q_(float(e), 'GHz')
        ranks()
        labels.append('moved')
    for i, j, d in case.get('fine', []):
        e = objs[j].level_Hz + d
        if all(abs(o.level_Hz - e) > 2 for o in objs.values()):
            objs[i].level_Hz = e
            ranks()
            labels.append('nearly degenerate')
    if aliases:
        labels.append('aliases')
    if len(specs) == 1 and not aliases:
        labels.append('trivial')
    return labels + [t['k'] for t in specs]


SUBS = [Sub('keys', cases, check, quick=630,
            rule='random atoms of 1-6 levels in random insertion order with aliases on levels and sublevels, then energy moves; non-trivial: more than one level or an alias')]
