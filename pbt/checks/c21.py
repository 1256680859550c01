from fractions import Fraction

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, Violation
from ..gen import need, equal, raises
from ..ref import LETTERS


@st.composite
def cases(draw):
    return {'n': draw(st.integers(-400, 400) | st.integers(-10 ** 6, 10 ** 6)), 'kind': draw(st.sampled_from(['int', 'float', 'npf', 'npi', 'np32'])),
            'bad': draw(st.text(alphabet='abcxyz?*[]', min_size=1, max_size=4)), 'l': draw(st.integers(0, 20)),
            'word': draw(st.text(alphabet=LETTERS + LETTERS.lower(), min_size=2, max_size=3)),
            'off': draw(st.floats(0.01, 0.99)), 'big': draw(st.integers(21, 1000))}


def check(case):
    import numpy as np
    from atomtoolkit import util
    n = case['n']  # twice the number
    val, text = n / 2, str(Fraction(n, 2))
    forms = [val, np.float64(val)] + ([np.float32(val)] if abs(n) < 2 ** 23 else [])
    if n % 2 == 0:
        forms += [n // 2, np.int64(n // 2)]
    for v in forms:
        s = util.float_to_frac(v)
        equal(s, text, f'float_to_frac({v!r})')
        need(type(s) is str, 'not a string')
        equal(float(util.frac_to_float(s)), val, f'frac_to_float({s!r})')
        equal(util.frac_to_float(v), v, f'frac_to_float({v!r})')
    equal(util.float_to_frac(text), text, f'float_to_frac({text!r})')
    equal(util.float_to_frac(str(val)), text, f'float_to_frac({str(val)!r})')
    equal(util.frac_to_float(text), val, f'frac_to_float({text!r})')
    equal(util.frac_to_float(str(val)), val, f'frac_to_float({str(val)!r})')
    equal(util.float_to_frac(util.frac_to_float(text)), text, 'round trip')
    equal(util.frac_to_float(None), None, 'frac_to_float(None)')
    equal(util.float_to_frac(None), None, 'float_to_frac(None)')
    raises(ValueError, lambda: util.frac_to_float(case['bad']), f'frac_to_float({case["bad"]!r})')
    raises(ValueError, lambda: util.float_to_frac(case['bad']), f'float_to_frac({case["bad"]!r})')
    # letters
    l = case['l']
    let = LETTERS[l]
    for x in (l, float(l), np.int64(l), np.float64(l)):
        equal(util.l_to_let(x), let, f'l_to_let({x!r})')
    for x in (let, let.lower()):
        equal(util.let_to_l(x), l, f'let_to_l({x!r})')
    equal(util.let_to_l(''), None, "let_to_l('')")
    raises(ValueError, lambda: util.let_to_l(case['word']), f'let_to_l({case["word"]!r})')
    raises(ValueError, lambda: util.let_to_l('J'), "let_to_l('J')")
    raises(ValueError, lambda: util.let_to_l('?'), "let_to_l('?')")
    for x in (l + case['off'], np.float64(l + case['off']), -l - 1, float(-l - 1), np.int64(-l - 1), -case['off']):
        raises(ValueError, lambda: util.l_to_let(x), f'l_to_let({x!r})')
    raises(TypeError, lambda: util.l_to_let(let), f'l_to_let({let!r})')
    raises((IndexError, ValueError), lambda: util.l_to_let(case['big']), f'l_to_let({case["big"]!r})')
    return ['negative'] * (n < 0) + ['half'] * (n % 2) + (['trivial'] if n in (0, 2) else [])


SUBS = [Sub('numbers', cases, check, quick=6000,
            rule='half-integers up to 5e5 of either sign in five number types and as strings, all letters, rejected inputs; non-trivial: not 0 or 1')]
