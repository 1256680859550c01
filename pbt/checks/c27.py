import math

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, same, equal, frac
from .c26 import L, G


@st.composite
def cases(draw):
    c = draw(gen.line_cases(5, I=st.sampled_from([0.0, 0.5, 0.5, 1.0, 1.5, 2.5, 3.5]), max_states=draw(st.sampled_from([150, 150, 150, 150, 1200]))))
    c['A'] = draw(st.sampled_from([1, 37, 4000]))
    c['two'] = draw(st.booleans())
    c['what'] = draw(st.sampled_from(['transitions', 'hyperfine', 'hyperfine list', 'zeeman', 'zeeman of line', 'zeeman list',
                                      'spectrum hf', 'spectrum z', 'spectrum lines', 'transitions hf', 'transitions z',
                                      'zeeman lines', 'zeeman mixed', 'zeeman mixed', 'some hf', 'some z', 'some z']))
    c['two'] = c['two'] or c['what'] == 'zeeman mixed'
    c['unit'] = draw(st.sampled_from(['GHz', 'MHz', 'THz', 'Hz']))
    c['shape'] = draw(st.sampled_from(['lorentzian', 'gaussian', 'laser', 'thermal', 'thermal', 'both']))
    c['w'] = draw(st.integers(1, 3000) | st.integers(1, 3000) | st.integers(1, 9)) / 1000  # GHz
    c['n'] = draw(st.integers(5, 40))
    c['pad'] = draw(st.sampled_from([None, 2.0, 5.0, 30.0]))
    c['ampl'] = draw(st.booleans())
    c['total'] = draw(st.booleans())
    c['coloring'] = draw(st.sampled_from(['l', 'u', 'transition_type', 'transition_type', None, 'function']))
    c['label'] = draw(st.booleans())
    c['seed'] = draw(st.integers(1, 1000))
    return c


def grid():
    """lines of many components, some of them weak"""
    for I, J0, J1, kind in ((3.5, 3.5, 2.5, 'E1'), (3.5, 1.5, 2.5, 'E1'), (2.5, 2.5, 2.5, 'E1')):
        lv = []
        for i, J in enumerate((J0, J1)):
            L = int(J + 0.5)
            lv.append({'c': f'4f14.{6 + i}s', 't': f'2{ref.LETTERS[L]}' + '*' * i, 'k': 'LS', 'q': {'l': L, 's': 0.5}, 'odd': i == 1, 'J': frac(J), 'E': 5000 * i + 17,
                       'g': 1.25 - 0.5 * i, 'A': 300 + 77 * i, 'B': 40, 'C': 0})
        for what in ('zeeman', 'zeeman of line', 'spectrum z', 'zeeman list'):
            yield {'kind': kind, 'levels': lv, 'I': I, 'swap': False, 'A': 37, 'eager': True, 'B': 12, 'look': 0, 'two': False, 'what': what, 'unit': 'GHz',
                   'shape': 'lorentzian', 'w': 0.25, 'n': 9, 'pad': None, 'ampl': False, 'total': True, 'coloring': 'transition_type', 'label': False, 'seed': 3}


def check_colors(lines, rgb, coloring, paint):
    """one hue for each value of the property that is asked for; equal colors only for equal properties"""
    import colorsys
    if coloring is None or coloring == 'function':
        for x, c in zip(lines, rgb):
            want = paint(x) if coloring else (0, 0, 0)
            need(max(abs(p - q) for p, q in zip(c, want)) < 1e-9, f'color of {x.name}: {c} instead of {want}')
        return
    z = hasattr(lines[0].E_1, 'quadratic_zeeman')
    num = lambda lv: lv.term.mF if z else lv.term.F
    props = {'l': lambda x: (num(x.E_lower), num(x.E_upper)), 'u': lambda x: (num(x.E_upper), num(x.E_lower)),
             'transition_type': lambda x: (x.E_upper.term.mF - x.E_lower.term.mF, x.E_lower.term.mF)}[coloring]
    seen = {}
    for x, c in zip(lines, rgb):
        need(all(0 <= v <= 1 for v in c), f'color of {x.name}: {c}')
        same_c = seen.setdefault(props(x), c)
        need(same_c == c, f'{x.name}: {c} and {same_c} for equal properties {props(x)}')
    if len({p[0] for p in seen}) > 7:
        return  # (the tenth color and those after it are the same)
    for p, c in seen.items():
        for q, d in seen.items():
            need(p == q or max(abs(x - y) for x, y in zip(c, d)) > 1e-6, f'the same color {c} for {p} and {q}')
            if p[0] == q[0]:
                (h, _, s), (k, _, r) = colorsys.rgb_to_hls(*c), colorsys.rgb_to_hls(*d)
                need(min(s, r) < 1e-6 or abs((h - k + 0.5) % 1 - 0.5) < 1e-6, f'different hues {c} and {d} for {p} and {q}')


def check(case):
    import numpy as np
    from matplotlib import colors as mcolors, pyplot as plt
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    from atomtoolkit.render import lineshapes as ls, spectra
    a, t = gen.mk_line(case)
    ts = [t]
    if case['two']:
        d = dict(case['levels'][1], c='4f14.20g', E=20000)
        ts.append(a.add_transition(Transition(a.levels[gen.name_of(case['levels'][0])], a.add_level(gen.mk_level(d)), A=Q_(30.0, 'kHz'))))
    before = gen.snapshot(a)
    what = case['what']
    hf = [s for x in ts for s in x.subtransitions()]
    zs = [z for s in hf for z in s.subtransitions()]
    if not hf or not zs:
        return ['trivial']
    one = hf[case['seed'] % len(hf)]

    def some(xs):  # a selection of components
        i, j = sorted((case['seed'] % len(xs), case['seed'] // 7 % len(xs)))
        return [xs[i], xs[j]] if i < j else [xs[i]]
    fn, arg, lines = {
        'transitions': (spectra.plot_transitions, ts, ts),
        'transitions hf': (spectra.plot_transitions, hf, hf),
        'transitions z': (spectra.plot_transitions, zs[:30], zs[:30]),
        'hyperfine': (spectra.plot_hyperfine_spectrum, t, t.subtransitions()),
        'hyperfine list': (spectra.plot_hyperfine_spectrum, ts, hf),
        'zeeman': (spectra.plot_zeeman_spectrum, t, [z for s in t.subtransitions() for z in s.subtransitions()]),
        'zeeman of line': (spectra.plot_zeeman_spectrum, one, one.subtransitions()),
        'zeeman lines': (spectra.plot_zeeman_spectrum, ts, zs),
        'some hf': (spectra.plot_spectrum, some(hf), some(hf)),
        'some z': (spectra.plot_spectrum, some(zs), some(zs)),
        'zeeman mixed': (spectra.plot_zeeman_spectrum, [one, *ts[1:]], one.subtransitions() + [z for x in ts[1:] for s in x.subtransitions() for z in s.subtransitions()]),
        'zeeman list': (spectra.plot_zeeman_spectrum, hf, zs),
        'spectrum hf': (spectra.plot_spectrum, t, t.subtransitions()),
        'spectrum z': (spectra.plot_spectrum, one, one.subtransitions()),
        'spectrum lines': (spectra.plot_spectrum, ts, ts),
    }[what]
    if what == 'zeeman mixed' and one.parent is not t:
        return ['trivial']
    if not lines:
        return ['trivial']
    unit = case['unit'] if what in ('transitions', 'transitions hf', 'transitions z') or what[:4] in ('spec', 'some') else 'GHz'
    per = 1e9 / {'GHz': 1e9, 'MHz': 1e6, 'THz': 1e12, 'Hz': 1.0}[unit]
    w = case['w'] * per  # in the plotted unit
    kw, shape = {}, case['shape']
    if shape in ('thermal', 'both') and (min(x.freq_Hz for x in lines) < 1e6 or what[:4] not in ('spec', 'some') or unit != 'GHz'):
        shape = 'gaussian'
    if shape == 'laser' and (what[:4] not in ('spec', 'some') or unit != 'GHz'):
        shape = 'lorentzian'
    rel = None
    if shape == 'lorentzian':
        kw['lineshape'] = ls.LorentzianLineShape(w)
    elif shape == 'gaussian':
        kw['lineshape'] = ls.GaussianLineShape(w)
    elif shape == 'laser':
        kw['laser_linewidth'] = Q_(w, 'GHz') if case['seed'] % 2 else Q_(w * 1000, 'MHz')
    else:
        kw['temp'], kw['mass'] = Q_(float(case['seed']), 'K'), Q_(40.0, 'amu')
        rel = math.sqrt(ref.K_B * case['seed'] / (40 * 1.66053906660e-27)) / ref.C_LIGHT
        if shape == 'both':  # both widths count when they are comparable
            fs = [x.freq_Hz / 1e9 for x in lines]
            gam = rel * math.sqrt(min(fs) * max(fs)) * (1, 0.3, 3, 100, 0.01)[case['seed'] % 5]
            kw['laser_linewidth'] = Q_(gam, 'GHz') if case['seed'] % 2 else Q_(gam * 1000, 'MHz')
    if unit != 'GHz':
        kw['unit'] = unit
    kw['num_points'] = case['n']
    if case['pad'] is not None:
        kw['padding'] = case['pad']
    if not case['total']:
        kw['total'] = False
    coloring = case['coloring']
    shade = {x.name: (k % 11) / 10 for k, x in enumerate(lines)}
    paint = lambda x: (shade[x.name], 0.5, 0.25)
    if what in ('transitions', 'transitions hf', 'transitions z'):
        if coloring == 'function':
            kw['color_func'] = paint
        else:
            coloring = None
    else:
        if coloring == 'transition_type' and not hasattr(lines[0].E_1, 'quadratic_zeeman'):
            coloring = 'u' if case['seed'] % 2 else 'l'
        kw['coloring'] = paint if coloring == 'function' else coloring
        if coloring is None and case['seed'] % 2 and what[:4] in ('spec', 'some'):
            del kw['coloring']  # the default
        if coloring != 'function' and hasattr(lines[0], 'set_freq') and lines[0].parent is None:
            coloring = None  # whole transitions are black
    ampl = {}
    if case['ampl']:
        ampl = {x.name: max(0.0, (i * case['seed'] + case['seed'] // 8) % 8 - 0.5) for i, x in enumerate(lines)}
        kw['ampl_dict'] = dict(ampl)
    if case['label']:
        kw['label_func'] = lambda x: 'label of ' + x.name
    try:
        fig = plt.figure()
        fn(arg, **kw)
        curves = [(np.asarray(c.get_xdata(), float), np.asarray(c.get_ydata(), float), c.get_label()) for c in plt.gca().get_lines()]
        rgb = {c.get_label(): mcolors.to_rgb(c.get_color()) for c in plt.gca().get_lines()}
        axis = plt.gca().get_xlabel()
    finally:
        plt.close('all')
    need(f'({unit})' in axis, f'label of the axis: {axis} ({what} in {unit})')
    need(kw.get('ampl_dict', {}) == ampl, 'the amplitude table has changed')
    equal(len(curves), len(lines) + case['total'], f'number of curves ({what})')
    total = curves.pop() if case['total'] else None
    n, pad = case['n'], 20.0 if case['pad'] is None else case['pad']
    todo = list(curves)
    o = ls.ThermalLineShape(T=kw['temp'], m=kw['mass'], gamma=gam) if shape == 'both' else None
    for x in lines:
        f = abs(x.E_1.level_Hz - x.E_2.level_Hz) / 1e9 * per
        h = x.rel_strength * ampl.get(x.name, 1.0)
        width = w if rel is None else rel * f if shape == 'thermal' else max(rel * f, gam)
        lo, up = (x.E_1, x.E_2) if x.E_1.level_Hz <= x.E_2.level_Hz else (x.E_2, x.E_1)
        if abs(lo.level_Hz - up.level_Hz) < 10:  # degenerate
            lo, up = x.E_lower, x.E_upper
        shapef = L if shape in ('lorentzian', 'laser') else G
        slack = 0
        if shape == 'both':
            shapef = lambda v, f, _, h: h * float(o.shape_func(v, f))
            slack = 1e-5 * h * float(o.shape_func(f, f))

        def is_curve(c):
            xs, ys, label = c
            if len(xs) != n or abs((xs[0] + xs[-1]) / 2 - f) > 1e-6 * width + 1e-11 * f:
                return 'position'
            if abs((xs[-1] - xs[0]) / 2 - pad * width) > 1e-4 * pad * width + 1e-11 * f:
                return 'range'
            for i in range(n):
                if abs(ys[i] - shapef(xs[i], f, width, h)) > 1e-5 * h + slack + (1e-9 * abs(h) + slack * 1e-4) * f / width:
                    return f'height at {xs[i]}: {ys[i]} instead of {shapef(xs[i], f, width, h)}'
            if label != 'label of ' + x.name if case['label'] else not (lo.term.short_name in label.split('→')[0] and up.term.short_name in label.split('→')[1]):
                return f'label {label}'

        why = [is_curve(c) for c in todo]
        if None not in why:
            need(False, f'no curve for {x.name} at {f} {unit} with height {h}: {why}')
        todo.pop(why.index(None))
    if total is not None:
        X = np.sort(np.concatenate([c[0] for c in curves]))
        equal(len(total[0]), len(X), 'number of points of the total')
        for i in range(len(X)):
            near(total[0][i], X[i], 'grid of the total', 1e-9 * per)
        for i in range(0, len(X), max(1, len(X) // 40)):
            near(total[1][i], sum(np.interp(X[i], c[0], c[1]) for c in curves), 'total',
                 1e-6 + sum(max(c[1][0], c[1][-1]) for c in curves if not c[0][0] <= X[i] <= c[0][-1]))
    if case['label'] and len({x.name for x in lines}) == len(lines):
        check_colors(lines, [rgb['label of ' + x.name] for x in lines], coloring, paint)
    d = gen.diff(before, gen.snapshot(a))
    need(not d, f'plotting changed the atom: {d}')
    return [what, shape] + (['trivial'] if len(lines) < 2 else []) + (['total'] if case['total'] else [])


SUBS = [Sub('plots', cases, check, quick=310, thorough=1900, cases=grid,
            rule='some lines of more than a hundred components, then E1/M1/E2 lines with up to 1200 pairs of states, all plotting entry points and lineshapes; non-trivial: at least two curves')]
