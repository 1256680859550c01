from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, same, equal, frac


def grid():
    for kind, a, b in gen.line_kinds(5):
        for I2 in (0, 1, 2, 3):
            if (a + 1) * (b + 1) * (I2 + 1) ** 2 < 200:
                yield gen.line_case(kind, a / 2, b / 2, I2 / 2, swap=bool(I2 % 2), A=1000, eager=False, B=5 * I2, look=(I2 + a + b) % 6)


def cases():
    return gen.line_cases(9, max_states=900)


def check(case):
    a, t = gen.mk_line(case)
    k = gen.RANK[case['kind']]
    n = 0
    subs = t.subtransitions()
    if 'only' in case and subs:  # a single one of the components with the largest F
        subs = sorted(subs, key=lambda s: -s.E_1.term.F - s.E_2.term.F)[:4]
        subs = [subs[case['only'] % len(subs)]]
    for s in subs:
        lo, up = (s.E_1, s.E_2) if s.E_1.manifold is t.E_lower else (s.E_2, s.E_1)
        FL, FU = lo.term.F, up.term.F
        want = {(mL, mU): ref.z_strength(FL, mL, FU, mU, k) for mL in ref.mrange(FL) for mU in ref.mrange(FU)}
        want = {q: v for q, v in want.items() if v > 1e-15}
        got, extra = {}, set()
        if case['kind'] == 'M1+E2':
            if not s.allowed_types[1]:  # (the 6j symbol of rank 1 happens to be zero)
                continue
            extra = {(mL, mU) for mL in ref.mrange(FL) for mU in ref.mrange(FU) if s.allowed_types[2] and ref.z_strength(FL, mL, FU, mU, 2) > 1e-15} - set(want)
        gen.first_look(s, case.get('look', 5) + n, lambda x: x.subtransitions(), 'hyperfine component')
        zs = s.subtransitions()
        for z in zs:
            zl, zu = (z.E_1, z.E_2) if z.E_1.manifold is t.E_lower else (z.E_2, z.E_1)
            same(zl, lo[f'mF={frac(zl.term.mF)}'], 'sublevel of a Zeeman component')
            same(zu, up[f'mF={frac(zu.term.mF)}'], 'sublevel of a Zeeman component')
            need((zl.term.mF, zu.term.mF) not in got, f'component {z.name} twice')
            got[zl.term.mF, zu.term.mF] = z
            same(z.parent, s, 'parent')
            same(z.atom, a, 'atom')
            if case['kind'] == 'M1+E2':
                equal([bool(x) for x in z.allowed_types], [False] + [bool(s.allowed_types[n]) and ref.z_strength(FL, zl.term.mF, FU, zu.term.mF, n) > 1e-15 for n in (1, 2)], f'types of {z.name}')
            else:
                equal([bool(x) for x in z.allowed_types], [x == case['kind'] for x in ('E1', 'M1', 'E2')], f'types of {z.name}')
        need(set(got) - set(want) <= extra, f'components {sorted(set(got) - set(want))} of {s.name}')
        want.update({q: 0.0 for q in extra if q in got})
        equal(sorted(got), sorted(want), f'Zeeman components of {s.name} ({case["kind"]})')
        n += len(zs)
        if case['A'] is None:
            need(all(z.A is None for z in zs), 'A of a component of a transition without A')
        else:
            A = s.A.to('Hz').magnitude
            for q, z in got.items():
                near(z.rel_strength, want[q], f'relative strength of {z.name}', 1e-9)
                near(z.A.to('Hz').magnitude, A * want[q], f'A of {z.name}', 1e-9 * (A + 1))
            for i, F in ((0, FL), (1, FU)):
                for m in ref.mrange(F):
                    near(sum(z.rel_strength for q, z in got.items() if q[i] == m), 1 / (2 * F + 1), f'sum from mF={m}', 1e-9)
            near(sum(z.rel_strength for z in zs), 1.0, 'sum of all strengths', 1e-9)
        gen.is_mapping(s, gen.key_in(s), 'hyperfine component')
    over = {(s.E_lower.manifold is t.E_lower) for s in t.subtransitions()}
    return [case['kind']] + (['overlap'] if len(over) > 1 else []) + (['trivial'] if n < 2 else []) + (['noA'] if case['A'] is None else [])


def check_self(case):
    from .c11 import mk_self
    a, t = mk_self(case)
    lv, n = t.E_1, 0
    for s in t.subtransitions():
        F, F1 = s.E_1.term.F, s.E_2.term.F
        want = {}
        for m in ref.mrange(F):
            for m1 in ref.mrange(F1):
                key = (m, m1) if F != F1 else tuple(sorted((m, m1)))
                if ref.z_strength(F, m, F1, m1, 1) > 1e-15:
                    want[key] = ref.z_strength(F, m, F1, m1, 1)
        got = {}
        for z in s.subtransitions():
            zs = [z.E_1, z.E_2] if z.E_1.term.F == F else [z.E_2, z.E_1]
            if F == F1:
                zs.sort(key=lambda x: x.term.mF)
            same(zs[0], s.E_1[f'mF={frac(zs[0].term.mF)}'], 'sublevel'), same(zs[1], s.E_2[f'mF={frac(zs[1].term.mF)}'], 'sublevel')
            same(z.parent, s, 'parent')
            got.setdefault((zs[0].term.mF, zs[1].term.mF), []).append(z)
        equal(sorted(got), sorted(want), f'Zeeman components of {s.name}')
        for (m, m1), zz in got.items():
            gap = abs(zz[0].E_1.level_Hz - zz[0].E_2.level_Hz)
            need(len(zz) == 1 or F == F1 and m != m1 and gap < 100, f'mF={m}, mF={m1} of {s.name} connected {len(zz)} times')
            n += len(zz)
            for z in zz:
                if case['A'] is None:
                    equal(z.A, None, 'A')
                else:
                    A = s.A.to('Hz').magnitude
                    near(z.rel_strength, want[m, m1], f'relative strength of {z.name}', 1e-9)
                    near(z.A.to('Hz').magnitude, A * want[m, m1], f'A of {z.name}', 1e-9 * (A + 1))
    return (['trivial'] if n < 2 else []) + (['A'] if case['A'] else []) + (['field'] if case['B'] else [])


def self_cases():
    from .c11 import self_cases
    return self_cases().filter(lambda c: (2 * c['I'] + 1) * (2 * gen.J_of(c['t']) + 1) <= 30)


@st.composite
def large(draw):
    c = draw(gen.line_cases(9, I=st.integers(5, 9).map(lambda x: x / 2), max_states=10 ** 5))
    return dict(c, only=draw(st.integers(0, 3)))


SUBS = [Sub('large', large, check, quick=24, thorough=600,
            rule='one of the hyperfine components with the largest F (up to 9) of a line with up to 10000 pairs of states; non-trivial: at least two Zeeman components'),
        Sub('internal', self_cases, check_self, quick=90, thorough=1600,
            rule='a level with up to 30 states connected to itself; non-trivial: at least two Zeeman components'),
        Sub('mixed', lambda: gen.line_cases(9, max_states=400, mixed=True), check, quick=40, thorough=800,
            rule='random lines allowed as M1 and as E2 with up to 400 pairs of states; non-trivial: at least two components'),
        Sub('components', cases, check, quick=120, cases=grid,
            rule='small (I, J, J\') for E1, pure E2 and pure M1, then random lines with up to 900 pairs of states; non-trivial: at least two components')]
