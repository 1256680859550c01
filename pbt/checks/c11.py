from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, same, equal, frac


def grid():
    for kind, a, b in gen.line_kinds(9):
        for I2 in range(0, 10, 1 if a + b < 8 else 3):
            yield gen.line_case(kind, a / 2, b / 2, I2 / 2, swap=bool(I2 % 2), A=1000, eager=False, B=0, look=(I2 + a + b) % 6)


def cases():
    return gen.line_cases(9, max_states=10 ** 6)


def check(case):
    a, t = gen.mk_line(case)
    I, k = case['I'], gen.RANK[case['kind']]
    JU, JL = t.E_upper.term.J, t.E_lower.term.J
    want, extra = {}, {}
    for FL in ref.jrange(I, JL):
        for FU in ref.jrange(I, JU):
            if abs(ref.w6j(JL, JU, k, FU, FL, I)) > 1e-12:
                want[FL, FU] = ref.hf_strength(I, JL, FL, JU, FU, k)
            elif case['kind'] == 'M1+E2' and abs(ref.w6j(JL, JU, 2, FU, FL, I)) > 1e-12:
                extra[FL, FU] = 0.0
    gen.first_look(t, case.get('look', 5), lambda x: x.subtransitions(), 'transition')
    subs = t.subtransitions()
    equal(t.rel_strength, 1.0, 'relative strength of the transition itself')
    got = {}
    for s in subs:
        lo, up = (s.E_1, s.E_2) if s.E_1.manifold is t.E_lower else (s.E_2, s.E_1)
        same(lo.manifold, t.E_lower, 'manifold'), same(up.manifold, t.E_upper, 'manifold')
        same(lo, t.E_lower[f'F={frac(lo.term.F)}'], 'sublevel of a component')
        same(up, t.E_upper[f'F={frac(up.term.F)}'], 'sublevel of a component')
        need((lo.term.F, up.term.F) not in got, f'component {s.name} twice')
        got[lo.term.F, up.term.F] = s
        same(s.parent, t, 'parent')
        same(s.atom, a, 'atom')
        if not extra and case['kind'] != 'M1+E2':
            equal([bool(x) for x in s.allowed_types], [x == case['kind'] for x in ('E1', 'M1', 'E2')], f'types of {s.name}')
        else:
            equal([bool(x) for x in s.allowed_types], [False] + [abs(ref.w6j(JL, JU, n, up.term.F, lo.term.F, I)) > 1e-12 for n in (1, 2)], f'types of {s.name}')
    need(set(got) - set(want) <= set(extra), f'components {sorted(set(got) - set(want))}')
    want.update({q: v for q, v in extra.items() if q in got})
    equal(sorted(got), sorted(want), f'hyperfine components of a {case["kind"]} transition')
    if case['A'] is None:
        need(all(s.A is None for s in subs), 'A of a component of a transition without A')
    else:
        A = case['A'] * 1e3
        for key, s in got.items():
            near(s.rel_strength, want[key], f'relative strength of {s.name}', 1e-9)
            near(s.A.to('Hz').magnitude, A * want[key], f'A of {s.name}', 1e-9 * (A + 1))
        for FU in ref.jrange(I, JU):
            near(sum(s.rel_strength for q, s in got.items() if q[1] == FU), (2 * FU + 1) / (2 * JU + 1), f"sum from F'={FU}", 1e-9)
        near(sum(s.rel_strength for s in subs), 2 * I + 1, 'sum of all strengths', 1e-8)
    gen.is_mapping(t, gen.key_in(t), 'transition')
    over = {(s.E_lower.manifold is t.E_lower) for s in t.subtransitions()}
    return [case['kind']] + (['overlap'] if len(over) > 1 else []) + (['trivial'] if len(subs) < 2 else []) + (['noA'] if case['A'] is None else [])


@st.composite
def self_cases(draw):
    I, J2 = draw(gen.spins), draw(st.integers(0, 9))
    t = dict(draw(gen.ls_term(draw(st.integers(0, 4)), J=J2 / 2)), E=draw(st.integers(0, 5000)), g=draw(st.integers(-3000, 3000)) / 1000, **draw(gen.coefs()))
    flat = draw(st.integers(0, 4)) == 0
    if flat:
        t.update(A=0, B=0, C=0)
    return {'I': I, 't': t, 'A': draw(st.sampled_from([None, None, 1, 250])), 'how': draw(st.sampled_from(['all', 'own', 'add'])), 'eager': draw(st.booleans()),
            'B': draw(st.sampled_from([0, 0, 1, 300])), 'look': draw(st.integers(0, 5))}


def mk_self(case):
    """-> atom, the transition of a level to itself"""
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, Transition
    a = Atom('X', I=case['I'], B=Q_(float(case['B']), 'G'))
    lv = a.add_level(gen.mk_level(case['t']), populate_sublevels=case['eager'])
    if case['how'] == 'all' and case['A'] is None:
        a.populate_internal_transitions()
        return a, a.transitions[lv.name, lv.name]
    t = Transition(lv, lv, **({} if case['A'] is None else {'A': Q_(float(case['A']), 'kHz')}))
    return a, a.add_transition(t) if case['how'] == 'add' else a.transitions[lv.name, lv.name]


def check_self(case):
    """a level with itself: a component between any two of its sublevels, or one with itself, that a rank-1 operator connects"""
    a, t = mk_self(case)
    I, J, lv = case['I'], gen.J_of(case['t']), t.E_1
    same(lv, t.E_2, 'ends')
    want = {}
    for F in ref.jrange(I, J):
        for F1 in ref.jrange(I, J):
            if F <= F1 and abs(ref.w6j(J, J, 1, F1, F, I)) > 1e-12:
                want[F, F1] = ref.hf_strength(I, J, F, J, F1, 1)
    subs, got = t.subtransitions(), {}
    for s in subs:
        same(s.E_1, lv[f'F={frac(s.E_1.term.F)}'], 'sublevel'), same(s.E_2, lv[f'F={frac(s.E_2.term.F)}'], 'sublevel')
        same(s.parent, t, 'parent')
        equal([bool(x) for x in s.allowed_types], [False, True, False], f'types of {s.name}')
        got.setdefault(tuple(sorted((s.E_1.term.F, s.E_2.term.F))), []).append(s)
    equal(sorted(got), sorted(want), 'pairs of hyperfine sublevels of one level')
    for (F, F1), ss in got.items():
        # (both directions between two sublevels of the same energy are components)
        gap = abs(gen.E_hf(I, case['t'], F) - gen.E_hf(I, case['t'], F1))
        need(len(ss) == 1 or F != F1 and gap < 100, f'F={F}, F={F1} connected {len(ss)} times')
        for s in ss:
            if case['A'] is None:
                equal(s.A, None, 'A')
            else:
                near(s.rel_strength, want[F, F1], f'relative strength of {s.name}', 1e-9)
                near(s.A.to('Hz').magnitude, case['A'] * 1e3 * want[F, F1], f'A of {s.name}', 1e-9 * (case['A'] * 1e3 + 1))
    gen.is_mapping(t, lambda s: (s.E_lower.term.short_name, s.E_upper.term.short_name), 'transition of a level to itself')
    return (['trivial'] if len(want) < 2 else []) + (['A'] if case['A'] else []) + [case['how']]


SUBS = [Sub('internal', self_cases, check_self, quick=160, thorough=3000,
            rule='a level with I and J up to 9/2 connected to itself, made in three ways; non-trivial: at least two components'),
        Sub('mixed', lambda: gen.line_cases(9, max_states=10 ** 6, mixed=True), check, quick=90, thorough=1500,
            rule='random lines allowed as M1 and as E2, I, J and J\' up to 9/2; non-trivial: at least two components'),
        Sub('components', cases, check, quick=300, cases=grid,
            rule='most (I, J, J\') up to 9/2 for E1, pure E2 and pure M1, then random lines in either order with or without A, one in three between overlapping manifolds; non-trivial: at least two components')]
