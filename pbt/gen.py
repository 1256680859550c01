"""Strategies (plain JSON data) and builders (real objects) for atoms."""
import random

from hypothesis import strategies as st

from . import ref
from .core import Violation
from .ref import frac, half, jrange, LETTERS

HALF_J = [x / 2 for x in range(0, 10)]


def close(a, b, atol=2.0, rtol=1e-12):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def near(a, b, what, atol=2.0, rtol=1e-12):
    if not close(float(a), float(b), atol, rtol):
        raise Violation(f'{what}: {float(a)!r} instead of {float(b)!r} (difference {float(a) - float(b):.6g})')


def same(a, b, what):
    if a is not b:
        raise Violation(f'{what}: {a!r} is not {b!r}')


def equal(a, b, what):
    if not a == b:
        raise Violation(f'{what}: {a!r} instead of {b!r}')


# ---------------------------------------------------------------- terms

@st.composite
def ls_term(draw, i=0, max_l=5, max_s2=5, J=None):
    odd = draw(st.booleans())
    if J is None:
        L, S2 = draw(st.integers(0, max_l)), draw(st.integers(0, max_s2))
        J = draw(st.sampled_from(jrange(L, S2 / 2)))
    else:
        L, S2 = draw(st.sampled_from([(L, S2) for L in range(max_l + 1) for S2 in range(max_s2 + 1)
                                      if (half(J) + S2) % 2 == 0 and abs(2 * L - S2) <= half(J) <= 2 * L + S2]))
    conf = draw(st.sampled_from(['4f14.{}s', '5d.{}p', '4f13.(2F*).{}s2', '{}d10']))
    return {'c': conf.format(i + 3), 't': f'{S2 + 1}{LETTERS[L]}' + ('*' if odd else ''), 'J': frac(J), 'k': 'LS',
            'q': {'l': L, 's': S2 / 2}, 'odd': odd}


def _parent(draw, max_l=4, max_s2=4):
    """L, S, J, text of a parent term such as 2F*<7/2>"""
    L, S2 = draw(st.integers(0, max_l)), draw(st.integers(0, max_s2))
    J = draw(st.sampled_from(jrange(L, S2 / 2)))
    return L, S2 / 2, J, f'{S2 + 1}{LETTERS[L]}' + draw(st.sampled_from(['', '*']))


@st.composite
def jj_term(draw, i=0, max_l=4, max_s2=4):
    lc, sc, jc, tc = _parent(draw, max_l, max_s2)
    lo, so, jo, to = _parent(draw, max_l, max_s2)
    J = draw(st.sampled_from(jrange(jc, jo)))
    odd = draw(st.booleans())
    star = '*' if odd else ''
    if draw(st.booleans()):
        sep = draw(st.sampled_from([', ', ',']))
        conf, term = f'4f13.({tc}<{frac(jc)}>).{i + 3}s.6p.({to}<{frac(jo)}>)', f'({frac(jc)}{sep}{frac(jo)}){star}'
    else:
        sep = draw(st.sampled_from([', ', ',']))
        if not odd:  # the asterisks of the parents would make the term odd
            tc, to = tc.strip('*'), to.strip('*')
        conf, term = f'5d9.{i + 3}s.6p', f'({tc}<{frac(jc)}>{sep}{to}<{frac(jo)}>){star}'
    return {'c': conf, 't': term, 'J': frac(J), 'k': 'JJ', 'odd': odd,
            'q': {'lc': lc, 'sc': sc, 'jc': jc, 'lo': lo, 'so': so, 'jo': jo}}


@st.composite
def jk_term(draw, i=0, max_l=4, max_s2=4):
    lc, sc, jc, tc = _parent(draw, max_l, max_s2)
    odd = draw(st.booleans())
    if draw(st.booleans()):
        lo, so2 = draw(st.integers(0, max_l)), draw(st.integers(0, max_s2))
        conf = f'4f13.({tc}<{frac(jc)}>).5d.{i + 3}s.({so2 + 1}{LETTERS[lo]})'
    else:
        lo, so2 = draw(st.integers(0, 4)), 1
        conf = f'3p5.({tc}<{frac(jc)}>).{i + 3}{LETTERS[lo].lower()}'
    so = so2 / 2
    K = draw(st.sampled_from(jrange(jc, lo)))
    J = draw(st.sampled_from(jrange(K, so)))
    return {'c': conf, 't': f'{so2 + 1}[{frac(K)}]' + ('*' if odd else ''), 'J': frac(J), 'k': 'JK', 'odd': odd,
            'q': {'lc': lc, 'sc': sc, 'jc': jc, 'lo': lo, 'so': so, 'k': K}}


@st.composite
def lk_term(draw, i=0, max_l=4, max_s2=4):
    lc, sc, _, tc = _parent(draw, max_l, max_s2)
    so2 = draw(st.integers(0, max_s2))
    lo = draw(st.integers(0, max_l))
    if draw(st.booleans()):
        conf = f'3d7.({tc}).{i + 3}s.4p.({so2 + 1}{LETTERS[lo]}{draw(st.sampled_from(["", "*"]))})'
    else:
        so2 = 1
        conf = f'3s2.{i + 3}p.({tc}).4{LETTERS[lo].lower()}'
    L = draw(st.sampled_from([x for x in jrange(lc, lo) if x <= 20]))
    K = draw(st.sampled_from(jrange(L, sc)))
    J = draw(st.sampled_from(jrange(K, so2 / 2)))
    odd = draw(st.booleans())
    lstar, tstar = draw(st.sampled_from([('', '*'), ('*', '*'), ('*', '')])) if odd else ('', '')
    return {'c': conf, 't': f'{LETTERS[int(L)]}{lstar} {so2 + 1}[{frac(K)}]{tstar}', 'J': frac(J), 'k': 'LK',
            'odd': odd, 'q': {'lc': lc, 'sc': sc, 'lo': lo, 'so': so2 / 2, 'l': int(L), 'k': K}}


@st.composite
def unknown_term(draw, i=0, max_l=4, max_s2=4):
    """a level without a term, of which only the parity may be known: listings have them"""
    odd = draw(st.booleans())
    conf = draw(st.sampled_from(['4f13.(2F*<5/2>).5d.{}s.(3D)', '4f13.(2F*<7/2>).{}d.6p.(1P*<1>)', '4f13.{}d2'])).format(i + 5)
    return {'c': conf, 't': '*' * odd, 'J': frac(draw(st.integers(0, 9)) / 2), 'k': 'unknown', 'odd': odd, 'q': {}}


TERMS = {'LS': ls_term, 'JJ': jj_term, 'JK': jk_term, 'LK': lk_term, 'unknown': unknown_term}


def any_term(i=0, kinds='LS JJ JK LK', max_l=4, max_s2=4):
    kinds = kinds.split()
    if {'LS', 'JK'} <= set(kinds):
        kinds = kinds * 3 + ['unknown']
    return st.sampled_from(kinds).flatmap(lambda k: TERMS[k](i=i, max_l=max_l, max_s2=max_s2))


def name_of(t):
    return f"{t['c']} {t['t']}{frac(t['J'])}"


# ---------------------------------------------------------------- levels and atoms

spins = st.integers(0, 9).map(lambda x: x / 2)
small_spins = st.sampled_from([0.0, 0.5, 1.0, 1.5, 2.5])


def coefs():
    """hyperfine coefficients in MHz"""
    return st.fixed_dictionaries({'A': st.integers(-4000, 4000), 'B': st.integers(-4000, 4000), 'C': st.integers(-400, 400)})


def js_of(t):
    """the J values that a generated term can have"""
    q = t['q']
    if t['k'] == 'unknown':
        return jrange(J_of(t), 2)
    if t['k'] == 'LS':
        return jrange(q['l'], q['s'])
    if t['k'] == 'JJ':
        return jrange(q['jc'], q['jo'])
    return jrange(q['k'], q['so'])


def sibling(draw, t, used, max_J):
    """another level of the same multiplet: same configuration and term, different J"""
    js = [J for J in js_of(t) if J <= max_J and (t['c'], t['t'], J) not in used]
    if not js:
        return None
    return dict(t, J=frac(draw(st.sampled_from(js))))


def filler(draw, n, more, max_J, hf=False, table=False):
    """now and then, up to `more` further levels (or rows of a table) after n random ones: atoms have tens or hundreds of them"""
    k = draw(st.sampled_from([0] * 9 + [more // 3, more])) if more else 0
    if not k:
        return []
    r = random.Random(draw(st.integers(0, 999)))
    slots, out = r.sample(range(k), k), []
    for i in range(k):
        if out and r.random() < 0.3 and J_of(out[-1]) + 1 <= min(max_J, out[-1]['q']['l'] + out[-1]['q']['s']):
            t = dict(out[-1], J=frac(J_of(out[-1]) + 1))  # the next level of the same term
        else:
            L, S2, odd = r.randrange(5), r.randrange(4), r.random() < 0.5
            t = {'c': f'4f13.(2F*).{n + i + 3}{"spd"[i % 3]}2', 't': f'{S2 + 1}{LETTERS[L]}' + '*' * odd, 'k': 'LS', 'q': {'l': L, 's': S2 / 2}, 'odd': odd,
                 'J': frac(r.choice([x for x in jrange(L, S2 / 2) if x <= max_J] or [abs(L - S2 / 2)]))}
        t['E'], t['g'] = slots[i] * 5000 + 2500 + r.randrange(1000), r.randrange(-3000, 3001) / 1000
        if hf:
            t.update(A=r.randrange(-4000, 4001), B=r.randrange(-4000, 4001), C=r.randrange(-400, 401))
        if table:
            t.update(E=r.randrange(600001) / 10, g=r.choice([None, t['g']]), p=float(r.randrange(34, 101)), two=None)
            if r.random() < 0.3:
                t.update(two={'c': f'5d9.{i}s', 't': '2D', 'J': t['J'], 'k': 'LS', 'q': {'l': 2, 's': 0.5}, 'odd': False}, p2=float(r.randrange(1, 34)))
                if J_of(t) not in (1.5, 2.5):
                    t['two'] = None
        out.append(t)
    return out


@st.composite
def level_specs(draw, min_size=1, max_size=5, kinds='LS', max_J=4.5, hf=True, fixed_J=None, more=0):
    """levels with distinct names and manifolds that stay well apart in energy"""
    n = draw(st.integers(min_size, max_size))
    slots = draw(st.permutations(list(range(n))))
    out = []
    for i in range(n):
        for _ in range(20):
            t = draw(any_term(i, kinds))
            if half(t['J']) <= 2 * max_J:
                break
        else:
            t = draw(ls_term(i, 1, 1))
        if i and draw(st.integers(0, 3)) == 0:
            t = sibling(draw, out[-1], {(x['c'], x['t'], J_of(x)) for x in out}, max_J) or t
        t = {k: t[k] for k in ('c', 't', 'J', 'k', 'q', 'odd')}
        t['E'] = slots[i] * 5000 + draw(st.integers(0, 1000))
        t['g'] = draw(st.integers(-3000, 3000).map(lambda x: x / 1000))
        if hf:
            t.update(draw(coefs()))
        out.append(t)
    return out + filler(draw, n, more, max_J, hf)


def spread(draw, levels):
    """sometimes the levels are as far apart as in the ultraviolet"""
    if draw(st.integers(0, 5)) == 0:
        f = min(draw(st.sampled_from([60, 400])), 4 * 10 ** 6 // max(1, *[int(abs(t['E'])) for t in levels]))
        for t in levels:
            t['E'] *= max(1, f)


@st.composite
def atom_specs(draw, min_size=1, max_size=5, kinds='LS', max_J=4.5, hf=True, I=None, more=0):
    spec = {'I': draw(I if I is not None else small_spins), 'levels': draw(level_specs(min_size, max_size, kinds, max_J, hf, more=more)),
            'B': draw(st.integers(0, 500) | st.integers(0, 500) | st.integers(-500, -1))}
    spread(draw, spec['levels'])
    if draw(st.integers(0, 7)) == 0:  # energies needn't be counted from the lowest level
        down = draw(st.integers(1, 10 ** 6))
        for t in spec['levels']:
            t['E'] -= down
    return spec


def mk_term(t, F=None, mF=None, pct=None):
    from atomtoolkit.term import Term
    kw = {} if pct is None else {'percentage': pct}
    return Term(t['c'], t['t'], t['J'], F=F, mF=mF, **kw)


def mk_level(t, **kw):
    from atomtoolkit import Q_
    from atomtoolkit.atom import EnergyLevel
    if 'A' in t:
        kw.setdefault('hfA', Q_(float(t['A']), 'MHz'))
        kw.setdefault('hfB', Q_(float(t['B']), 'MHz'))
        kw.setdefault('hfC', Q_(float(t['C']), 'MHz'))
    if t.get('g') is not None:
        kw.setdefault('lande', t['g'])
    term = mk_term(t)
    if t.get('two') is not None:  # a second component and the percentages of both
        from atomtoolkit.term import MultiTerm
        term = MultiTerm(mk_term(t, pct=t['p']), mk_term(t['two'], pct=t['p2']))
    return EnergyLevel(term, Q_(float(t['E']), 'GHz'), **kw)


def mk_atom(spec, levels=True):
    """-> atom, list of level objects in the order of the spec"""
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom
    a = Atom('X', I=spec['I'], B=Q_(float(spec.get('B', 0)), 'G'))
    ls = [a.add_level(mk_level(t)) for t in spec['levels']] if levels else []
    return a, ls


def Fs(I, t):
    return jrange(I, float(ref.Fr(t['J'])) if isinstance(t['J'], str) else t['J'])


def J_of(t):
    return half(t['J']) / 2


def sub_name(t, F, mF=None):
    return name_of(t) + f' F={frac(F)}' + ('' if mF is None else f' mF={frac(mF)}')


def E_level(t):
    return t['E'] * 1e9


def E_hf(I, t, F):
    return E_level(t) + ref.hf_shift(I, J_of(t), F, t['A'] * 1e6, t['B'] * 1e6, t['C'] * 1e6)


def E_z(I, t, F, mF, B, q=0.0):
    return E_hf(I, t, F) + ref.g_F(t['g'], I, J_of(t), F) * mF * ref.MU_B_HZ_G * B + q * B * B


# ---------------------------------------------------------------- snapshots

def mag(q, unit='Hz'):
    return None if q is None else float(q.to(unit).magnitude)


def snapshot(atom, deep=True):
    """every observable of an atom as plain data"""
    s = {'name': atom.name, 'I': atom.I, 'B': mag(atom.B, 'gauss'), 'levels': {}, 'transitions': {},
         'aliases': {}, 't_aliases': {}}
    for lv in list(atom.levels.values()):
        d = {'E': float(lv.level_Hz), 'g': float(lv.lande), 'A': mag(lv.hfA), 'B': mag(lv.hfB), 'C': mag(lv.hfC),
             'alias': lv.alias, 'term': [(t.conf, t.term, t.J, t.parity, float(t.percentage), list(t.quantum_nums)) for t in lv.term]}
        if deep:
            d['sub'] = {}
            for f in lv.sublevels():
                d['sub'][f.name] = (float(f.level_Hz), float(f.gF))
                for z in f.sublevels():
                    d['sub'][z.name] = (float(z.level_Hz), float(z.gF), float(z.quadratic_zeeman))
        s['levels'][lv.name] = d
    for t in list(atom.transitions.values()):
        s['transitions'][' | '.join(sorted((t.E_1.name, t.E_2.name)))] = snap_transition(t, deep)
    for al, lv in atom.levels.aliases.items():
        s['aliases'][al] = lv.name
    for al, t in atom.transitions.aliases.items():
        s['t_aliases'][al] = t.name
    return s


def snap_transition(t, deep=True):
    d = {'f': float(t.freq_Hz), 'A': mag(t.A), 'set': mag(t.set_freq), 'allowed': [bool(x) for x in t.allowed_types],
         'rel': float(t.rel_strength), 'lu': (t.E_lower.name, t.E_upper.name), 'name': t.name}
    if deep:
        d['sub'] = {' | '.join(k): snap_transition(s, deep) for k, s in t.items()} if hasattr(t.E_1, 'hfA') else \
            {' | '.join(k): (float(s.freq_Hz), mag(s.A), float(s.rel_strength)) for k, s in t.items()}
    return d


def diff(a, b, path='', atol=2.0):
    """compares two snapshots; returns a description of the first difference"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'{path}: only in first {sorted(set(a) - set(b))[:3]}, only in second {sorted(set(b) - set(a))[:3]}'
        for k in a:
            r = diff(a[k], b[k], f'{path}/{k}', atol)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {a!r} vs {b!r}'
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f'{path}[{i}]', atol)
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b):
            return None
        tol = atol + 1e-12 * abs(a) if abs(a) > 1e5 or abs(b) > 1e5 else 1e-9 * max(1.0, abs(a))
        return None if abs(a - b) <= tol else f'{path}: {a!r} vs {b!r}'
    return None if a == b else f'{path}: {a!r} vs {b!r}'


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f'{what}: {type(e).__name__} ({e}) instead of {exc}')
    raise Violation(f'{what}: returned {r!r} instead of raising')


# ---------------------------------------------------------------- transitions allowed by exactly one multipole

def line_kinds(max2=9, mixed=False):
    """every (kind, 2J, 2J') for which exactly one of E1, M1, E2 is allowed, or those for which both of the latter are"""
    out, both = [], []
    for a in range(max2 + 1):
        for b in range(a, max2 + 1, 2):
            for odd in (True, False):
                al = ref.allowed_fine(a / 2, odd, b / 2, False)
                if sum(al) == 1:
                    out.append((('E1', 'M1', 'E2')[al.index(True)], a, b))
                elif al == (False, True, True):
                    both.append(('M1+E2', a, b))
    return both if mixed else out


RANK = {'E1': 1, 'M1': 1, 'E2': 2, 'M1+E2': 1}


def line_case(kind, J0, J1, I, **kw):
    lv = [{'c': '4f14.6s', 't': f'{half(J0) + 1}S', 'J': frac(J0), 'odd': False, 'E': 1000, 'g': 2.0, 'A': 900, 'B': 30, 'C': 2},
          {'c': '4f14.6p', 't': f'{half(J1) + 1}S' + ('*' if kind == 'E1' else ''), 'J': frac(J1), 'odd': kind == 'E1',
           'E': 8000, 'g': 1.25, 'A': -350, 'B': 12, 'C': -1}]
    return {'kind': kind, 'levels': lv, 'I': I, **kw}


@st.composite
def line_cases(draw, max2=9, I=None, max_states=400, mixed=False):
    kind = 'M1+E2' if mixed else draw(st.sampled_from(['E1', 'E1', 'E2', 'M1']))
    I = draw(I if I is not None else spins)
    opts = [x for x in line_kinds(max2, mixed) if x[0] == kind and (2 * I + 1) ** 2 * (x[1] + 1) * (x[2] + 1) <= max_states]
    if not opts:
        I, opts = 0.5, [x for x in line_kinds(max2, mixed) if x[0] == kind and 4 * (x[1] + 1) * (x[2] + 1) <= max_states]
    _, a, b = draw(st.sampled_from(opts))
    J0, J1 = (a / 2, b / 2) if draw(st.booleans()) else (b / 2, a / 2)
    odd = draw(st.booleans())
    lv = []
    for i, J in enumerate((J0, J1)):
        p = odd ^ (kind == 'E1' and i == 1)
        t = dict(draw(ls_term(i, J=J).filter(lambda t: True)))
        t['t'] = t['t'].strip('*') + '*' * p
        t['odd'] = p
        t['E'] = draw(st.integers(0, 1000)) + 5000 * i
        t['g'] = draw(st.integers(-3000, 3000)) / 1000
        t.update(draw(coefs()))
        lv.append(t)
    spread(draw, lv)
    if draw(st.integers(0, 2)) == 0:  # manifolds that overlap
        lv[1]['E'] = lv[0]['E'] + draw(st.integers(-30, 30))
    if draw(st.booleans()):
        lv[0]['E'], lv[1]['E'] = lv[1]['E'], lv[0]['E']
    return {'kind': kind, 'levels': lv, 'I': I, 'swap': draw(st.booleans()),
            'A': draw(st.sampled_from([None, 0, 1, 37, 4000, 4000])), 'eager': draw(st.booleans()),
            'B': draw(st.integers(0, 300) | st.integers(0, 20000) | st.integers(-2000, 0)), 'look': draw(st.integers(0, 5))}


def mk_line(case):
    """-> atom, transition of a line case"""
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, Transition
    a = Atom('X', I=case['I'], B=Q_(float(case['B']), 'G'))
    lv = [mk_level(t) for t in case['levels']]
    for x in lv:
        a.add_level(x, populate_sublevels=case['eager'])
    if case['swap']:
        lv = lv[::-1]
    kw = {} if case['A'] is None else {'A': Q_(float(case['A']), 'kHz')}
    return a, a.add_transition(Transition(lv[0], lv[1], **kw))


def key_in(t):
    """the key of a component of t: the names of its sublevel of the lower level and its sublevel of the upper level of t"""
    def key(s):
        lo, up = (s.E_1, s.E_2) if s.E_1.parent is t.E_lower else (s.E_2, s.E_1)
        return lo.term.short_name, up.term.short_name
    return key


def first_look(x, pick, subs, what):
    """whatever is asked first, it sees all of the sublevels or components"""
    look = (len, lambda y: len(list(y)), lambda y: len(y.keys()), lambda y: len(y.values()), lambda y: len(y.items()), lambda y: len(subs(y)))[pick % 6]
    n = look(x)
    equal(n, len(subs(x)), f'{what}: size on the first look ({pick % 6})')


def is_mapping(t, key_of, what):
    """a transition acts as a mapping of its components"""
    subs = t.subtransitions()
    keys = list(t.keys())
    equal(len(t), len(subs), f'{what} len')
    equal(list(t), keys, f'{what} iteration')
    equal(len(set(keys)), len(keys), f'{what} keys are distinct')
    need(len(list(t.values())) == len(subs) and {id(x) for x in t.values()} == {id(x) for x in subs}, f'{what} values')
    n = 0
    for k, s in t.items():
        n += 1
        equal(k, key_of(s), f'{what} key')
        same(t[k], s, f'{what}[{k}]')
        need(any(s is x for x in subs), f'{what} item is not one of its components')
        if k[::-1] not in keys:
            same(t[k[::-1]], s, f'{what}[{k[::-1]}]')
    equal(n, len(subs), f'{what} items')


def composition_of(t):
    """squared LS amplitudes of a generated term"""
    q, J = t['q'], J_of(t)
    if t['k'] == 'LS':
        return {(q['l'], q['s']): 1.0}
    if t['k'] == 'LK':
        return ref.composition('LK', J, q['l'], q['k'], q['sc'], q['so'])
    return ref.composition(t['k'], J, q['jc'], q['jo'] if t['k'] == 'JJ' else q['k'], q['lc'], q['sc'], q['lo'], q['so'])


def estimate_g(terms):
    """g-value of a mixture [(term, percentage)]"""
    J = J_of(terms[0][0])
    if J == 0 or any(t['k'] == 'unknown' for t, _ in terms):
        return 0.0
    tot = sum(p for _, p in terms)
    return sum(p / tot * sum(w * ref.g_LS(J, L, S) for (L, S), w in composition_of(t).items()) for t, p in terms)


@st.composite
def table_rows(draw, min_size=1, max_size=7, kinds='LS LS JJ JK LK', max_J=4.5, close=False, more=0, three=False):
    """rows of a level table as made by the IO module"""
    n = draw(st.integers(min_size, max_size))
    rows = []
    for i in range(n):
        for _ in range(20):
            t = draw(any_term(i, kinds))
            if half(t['J']) <= 2 * max_J:
                break
        else:
            t = draw(ls_term(i, 1, 1))
        if i and draw(st.integers(0, 3)) == 0:
            t = sibling(draw, rows[-1], {(x['c'], x['t'], J_of(x)) for x in rows}, max_J) or t
        t = {k: t[k] for k in ('c', 't', 'J', 'k', 'q', 'odd')}
        t['E'] = draw(st.integers(0, 600000)) / 10 if i else 0.0
        t['g'] = draw(st.none() | st.integers(-3000, 3000).map(lambda x: x / 1000))
        t['p'] = float(draw(st.integers(34, 100)))
        t['two'] = None
        if draw(st.booleans()):
            t['two'] = dict(draw(ls_term(i + 20, J=J_of(t))))
            t['p2'] = float(draw(st.integers(1, int(t['p']))))
            if three and draw(st.booleans()):
                t['three'], t['p3'] = dict(draw(ls_term(i + 40, J=J_of(t)))), draw(st.integers(1, 30)) + 0.5
        rows.append(t)
    return rows + filler(draw, n, more, max_J, table=True)


def reindex(df, how):
    """the same rows under another index, as left behind by filtering and sorting"""
    import pandas as pd
    n = len(df)
    if how == 'filtered':
        df = pd.concat([df.iloc[:1], df.iloc[:1], df.iloc[1:]], ignore_index=True)
        return df[[k != 0 for k in range(n + 1)]]
    df = df.copy()
    if how == 'shifted':
        df.index = range(1, n + 1)
    elif how == 'labels':
        df.index = [f'row {k}' for k in range(n)]
    elif how == 'shuffled':
        df.index = list(range(n))[::-1]
    return df


def mk_table(rows, frac_J=True):
    import numpy as np
    import pandas as pd
    nan = float('nan')
    df = pd.DataFrame({
        'Level (cm-1)': pd.Series([r['E'] for r in rows], dtype='float64').astype('pint[cm**-1]'),
        'J': [r['J'] for r in rows],
        'Lande': pd.Series([nan if r['g'] is None else r['g'] for r in rows], dtype='float64'),
        'Configuration': [r['c'] for r in rows], 'Term': [r['t'] for r in rows], 'Percentage': [r['p'] for r in rows],
        'Configuration_2': [r['two']['c'] if r['two'] else None for r in rows],
        'Term_2': [r['two']['t'] if r['two'] else '' for r in rows],
        'Percentage_2': pd.Series([r['p2'] if r['two'] else nan for r in rows], dtype='float64')})
    if any(r.get('three') for r in rows):
        df['Configuration_3'] = [r['three']['c'] if r.get('three') else None for r in rows]
        df['Term_3'] = [r['three']['t'] if r.get('three') else '' for r in rows]
        df['Percentage_3'] = pd.Series([r['p3'] if r.get('three') else nan for r in rows], dtype='float64')
    df['Level (Hz)'] = df['Level (cm-1)'].pint.to('Hz')
    return df
