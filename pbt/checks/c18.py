from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, same, equal

ALLOWED = [[bool(b & 1), bool(b & 2), bool(b & 4)] for b in range(8)]


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 7, 12]))
    parity = draw(st.integers(0, 1))
    levels, slots = [], draw(st.permutations(list(range(n))))
    low, top = (0, 5) if n > 7 else draw(st.sampled_from([(0, 7), (0, 7), (0, 15), (0, 24), (36, 46)]))
    for i in range(n):
        t = dict(draw(gen.ls_term(i, max_l=20, max_s2=8, J=draw(st.sampled_from([J2 / 2 for J2 in range(low + parity, top, 2)])))))
        t['E'], t['g'] = slots[i] * 100 + draw(st.integers(0, 60)), 1.0
        if levels and draw(st.integers(0, 7)) == 0:  # two levels of the same energy
            t['E'] = levels[-1]['E']
        levels.append(t)
    if draw(st.integers(0, 2)) == 0:
        for t in levels:
            t['E'] *= 400
    gen.spread(draw, levels)
    pre = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=3, unique_by=lambda e: frozenset(e)))
    return {'levels': levels, 'pre': [list(p) for p in pre], 'allowed': draw(st.none() | st.sampled_from(ALLOWED)),
            'again': draw(st.none() | st.sampled_from(ALLOWED)), 'I': draw(st.sampled_from([0.0, 0.5])),
            'tuple': draw(st.booleans()), 'internal': draw(st.sampled_from(['after', 'before', 'no']))}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    specs = case['levels']
    a, lvs = gen.mk_atom({'I': case['I'], 'levels': specs})
    n = len(lvs)
    E0 = [lv.level_Hz for lv in lvs]
    old = {}
    for i, j in case['pre']:
        old[frozenset((i, j))] = a.add_transition(Transition(lvs[i], lvs[j], A=Q_(3.0, 'MHz')), )
    name = {lv.name: i for i, lv in enumerate(lvs)}

    def edges():
        out = {}
        for t in a.transitions.values():
            e = frozenset((name[t.E_1.name], name[t.E_2.name]))
            need(e not in out, f'two transitions between {t.name}')
            need({id(t.E_1), id(t.E_2)} == {id(lvs[i]) for i in e}, f'ends of {t.name}')
            out[e] = t
        equal(len(out), len(a.transitions), 'number of transitions')
        return out

    def wanted(allowed):
        out = set()
        for i in range(n):
            for j in range(i):
                al = ref.allowed_fine(gen.J_of(specs[i]), specs[i]['odd'], gen.J_of(specs[j]), specs[j]['odd'])
                if any(x and y for x, y in zip(al, allowed)):
                    out.add(frozenset((i, j)))
        return out

    def internal():
        now = edges()
        a.populate_internal_transitions()
        new = edges()
        equal(set(new), set(now) | {frozenset([i]) for i in range(n)}, 'after the internal transitions')
        for e, t in now.items():
            if len(e) == 2:
                same(new[e], t, 'transition replaced by the internal transitions')

    def populate(allowed, second=False):
        now = edges()
        if allowed is None:
            a.populate_transitions()
        else:
            a.populate_transitions(allowed=tuple(allowed) if case['tuple'] else list(allowed))
        new = edges()
        # (a level may also get its internal M1 transition)
        equal({e for e in new if len(e) == 2}, {e for e in now if len(e) == 2} | wanted(allowed or [True] * 3), f'transitions for {allowed}')
        for e, t in now.items():
            same(new[e], t, f'a transition that was there before was replaced ({t.name})')
        for e in set(new) - set(now):
            need(len(e) == 2 or (allowed or [True] * 3)[1] and all(gen.J_of(specs[i]) > 0 for i in e), f'an internal transition that is not allowed: {new[e].name}')
        if second:
            equal(set(new), set(now), 'transitions after populating a second time')
        for e, t in new.items():
            if len(e) == 2:
                for k in ((i, j) for i in e for j in e - {i}):
                    same(a.transitions[lvs[k[0]].name, lvs[k[1]].name], t, 'lookup')

    if case['internal'] == 'before':
        internal()
    populate(case['allowed'])
    populate(case['allowed'], True)
    if case['again'] is not None:
        populate(case['again'])
    if case['internal'] == 'after':
        internal()
    for lv, e in zip(lvs, E0):
        equal(lv.level_Hz, e, 'energy')
        same(a.levels[lv.name], lv, 'level')
    # components of what was added: none are left over from pairs that were rejected
    found = len(wanted(case['allowed'] or [True] * 3))
    return [f'allowed{case["allowed"]}'] + ([] if found else ['trivial']) + (['pre'] if old else []) + (['bigJ'] if max(map(gen.J_of, specs)) > 7 else [])


SUBS = [Sub('populate', cases, check, quick=1550,
            rule='atoms of 1-7 levels with J up to 45/2, existing transitions, all eight choices of types and the default, repeated; non-trivial: some pair is allowed')]
