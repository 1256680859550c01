from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, equal, frac
from ..ref import jrange, mrange

STYLES = {'g': ['g', 'gross', None], 'hf': ['hf', 'hyperfine'], 'z': ['z', 'zeeman']}


@st.composite
def options(draw):
    o = {}
    for key, values in (('width', [0.5, 0.8, 2.0]), ('x0', [-1.0, 0.0, 3.25]), ('x1', [-0.75, 0.0, 0.5]), ('y0', [-5.0, 0.0, 40.0]),
                        ('y1', [-2.0, 0.0, 0.125]), ('offset', [0.0, 0.1, 0.3]), ('hf_scale', [1.0, 100.0, 25000.0]),
                        ('z_scale', [0.0, 1.0, 12.0]), ('squeeze', [True, False, 'F']), ('spacing', ['realistic', 1.0]),
                        ('sublevel_width', ['degeneracy', 'schematic', 0.0, 0.25, 1.0]), ('linewidth', [1, 3]),
                        ('bbox', ['rect', 'bracket', 'bracket', None]), ('bracket_color', [[1, 0, 0, 1], [0, 0, 1, 0.25]]), ('bracket_lw', [2, 5]),
                        ('bbox_pad', [0.0, 0.25, 1.0]), ('bracket_h', [0.01, 0.125]), ('rect_color', [[1, 0, 0], [0, 0.5, 0]]), ('rect_alpha', [0.5, 1.0]), ('color', [[1, 0, 0, 1], [0, 0.5, 0, 0.5]])):
        if draw(st.integers(0, 3)) == 0 or key == 'bbox' and draw(st.booleans()):
            o[key] = draw(st.sampled_from(values))
    return o


@st.composite
def cases(draw, dense=False):  # dense: many arrows between sublevels, drawn to chosen boxes
    spec = draw(gen.atom_specs(1 + dense, 3, max_J=2.5 if dense else 5.5, I=st.sampled_from([0.5, 1.0, 1.5] if dense else [0.0, 0.0, 0.5, 0.5, 1.0, 1.5, 2.5, 4.5])))
    if not dense and draw(st.integers(0, 9)) == 0:  # many sublevels
        spec['I'] = draw(st.sampled_from([3.5, 4.5]))
        spec['levels'][0].update(draw(gen.ls_term(0, J=draw(st.sampled_from([3.5, 4.0, 4.5, 5.5])))))
    n = draw(st.integers(1 + dense, len(spec['levels'])))
    items = []
    for i in draw(st.permutations(range(len(spec['levels']))))[:n]:
        items.append({'i': i, 'style': draw(st.sampled_from(['hf', 'z'] if dense else ['g', 'hf', 'z'])), 'alias': draw(st.integers(0, 2)),
                      'depth': 0 if dense else draw(st.sampled_from([0, 0, 0, 1, 2])), 'pick': draw(st.integers(0, 1000)), 'o': draw(options())})
    arrows = []
    if n > 1:
        for _ in range(draw(st.integers(2, 6) if dense else st.integers(0, 2))):
            x, y = draw(st.permutations(range(n)))[:2]
            arrows.append({'a': x, 'b': y, 'sub': dense or draw(st.booleans()), 'pick': draw(st.integers(0, 1000)),
                           'over': draw(st.tuples(*[st.sampled_from([False, 'g', 'hf', 'own'] if dense else [False, False, 'g', 'hf', 'own'])] * 2)), 'name': draw(st.integers(0, 2)), 'tr': draw(st.booleans()), 'o': draw(st.fixed_dictionaries({}, optional={
                               k: st.sampled_from([-0.5, 0.25, 2.0]) for k in ('start_x1', 'end_x1', 'start_y1', 'end_y1')})),
                           'anchor': draw(st.none() | st.tuples(st.integers(1, 9), st.integers(1, 9)))})
    return {'atom': spec, 'items': items, 'arrows': arrows, 'axes': draw(st.booleans()), 'twice': draw(st.sampled_from([False, False, True])), 'default': draw(st.booleans()),
            'late': draw(st.sampled_from([None, None, None, 'add', 'render']))}


def grid():
    """levels of many sublevels"""
    for I, t, J in ((4.5, '3G', 4.0), (4.5, '2G*', 4.5), (4.5, '2H', 5.5), (3.5, '6F', 5.5), (3.5, '3F', 4.0), (5.0, '3H', 5.0)):
        lv = {'c': '4f13.6s2', 't': t, 'k': 'LS', 'q': {'l': 'SPDFGH'.index(t[1]), 's': (int(t[0]) - 1) / 2}, 'odd': '*' in t, 'J': frac(J), 'E': 400, 'g': 1.125,
              'A': 700, 'B': -300, 'C': 20}
        for style in ('hf', 'z'):
            for o in ({'offset': 0.1, 'bbox': 'rect'}, {'squeeze': False, 'sublevel_width': 0.25, 'bbox': 'bracket'}):
                yield {'atom': {'I': I, 'B': 25, 'levels': [lv]}, 'items': [{'i': 0, 'style': style, 'alias': 0, 'depth': 0, 'pick': 3, 'o': o}],
                       'arrows': [], 'axes': True, 'twice': False, 'default': False, 'late': None}


def lines_of(I, B, t, style, o, F=None, mF=None, squeeze_F=None):
    """expected {(F, mF): (x of the left end, x of the right end, y)} in plot units (THz)"""
    J = gen.J_of(t)
    W = o.get('width', 0.8)
    x = o.get('x0', J) + o.get('x1', 0)
    y = o.get('y0', gen.E_level(t) / 1e12) + o.get('y1', 0)
    if style == 'g':
        return {(None, None): (x - W / 2, x + W / 2, y)}
    s, zs = o.get('hf_scale', 10000.0) / 1e12, o.get('z_scale', 5.0)
    Fs = jrange(I, J)
    sq = o.get('squeeze', True)
    sq = 2 * {True: I + J, False: squeeze_F, 'F': Fs[-1]}[sq] + 1
    a = {'degeneracy': 1.0, 'schematic': 0.0}.get(o.get('sublevel_width', 1.0), o.get('sublevel_width', 1.0))
    off = o.get('offset', 0.0)
    out = {}
    for i, f in enumerate(Fs):
        if F is not None and f != F:
            continue
        hf = gen.E_hf(I, t, f) - gen.E_level(t)
        if style == 'hf':
            w = (1 - a) * (W - (len(Fs) - 1) * off * W) + a * W * (2 * f + 1) / sq
            c = x + off * W * i
            out[f, None] = (c - w / 2, c + w / 2, y + s * hf)
        else:
            for m in mrange(f):
                if mF is None or m == mF:
                    dz = gen.E_z(I, t, f, m, B) - gen.E_hf(I, t, f)
                    w = 0.9 * W / sq
                    c = x + m * (w + (0.1 * W / (sq - 1) if sq > 1 else 0.1 * W))
                    out[f, m] = (c - w / 2, c + w / 2, y + s * (hf + zs * dz))
    return out


def hull(lines):
    lines = list(lines)
    return min(w[0] for w in lines), min(w[2] for w in lines), max(w[1] for w in lines), max(w[2] for w in lines)


def match(drawn, wanted, what, get):
    drawn = list(drawn)
    for w in wanted:
        d = [max(abs(x - y) for x, y in zip(get(g), get(w))) for g in drawn]
        if not d or min(d) > 1e-6 * (1 + max(map(abs, get(w)))):
            need(False, f'{what}: nothing is drawn at {w}; closest {drawn[d.index(min(d))] if d else None}')
        drawn.pop(d.index(min(d)))
    equal(drawn, [], f'{what}: drawn in addition')


def disturb(a, lv, sign):
    from atomtoolkit import Q_
    a.B = Q_(a.B.to('G').magnitude + 4.0 * sign, 'G')
    for l in lv:
        l.level = Q_(gen.mag(l.level) + 4e12 * sign, 'Hz')
        l.hfA = Q_(gen.mag(l.hfA) + 4e9 * sign, 'Hz')


def depth_of(l):
    return 0 if l.term.F is None else 1 if l.term.mF is None else 2


def up(l, n):
    for _ in range(n):
        l = l.parent
    return l


def read(axes):
    """(x0, x1, y, color, linewidth) of the drawn lines"""
    from matplotlib.collections import LineCollection
    out, brackets = [], []
    for c in axes.collections:
        if isinstance(c, LineCollection):
            segs = [s.tolist() for s in c.get_segments()]
            cols, lws = c.get_colors(), c.get_linewidths()
            for i, s in enumerate(segs):
                if len(s) == 2:
                    (xa, ya), (xb, yb) = s
                    need(ya == yb, 'a level is drawn as a slanted line')
                    out.append((min(xa, xb), max(xa, xb), ya, tuple(float(v) for v in cols[i % len(cols)]), float(lws[i % len(lws)])))
                else:
                    brackets.append((s, tuple(float(v) for v in cols[i % len(cols)]), float(lws[i % len(lws)])))
    return out, brackets


def check(case):
    from matplotlib import pyplot as plt
    from matplotlib.collections import PatchCollection
    from matplotlib.patches import FancyArrowPatch
    from atomtoolkit.atom import Transition
    from atomtoolkit.render.grotrian import Grotrian
    spec = case['atom']
    I = spec['I']
    a, lv = gen.mk_atom(spec)
    ground = min(spec['levels'], key=lambda t: t['E'])
    g = Grotrian()
    late = case.get('late')
    if late:  # another field and other energies until the levels have been added, or until a first rendering
        disturb(a, lv, 1)
    expected, boxes, regions, targets = [], [], [], []
    for it in case['items']:
        t, style, o = spec['levels'][it['i']], it['style'], it['o']
        level, F, mF = lv[it['i']], None, None
        if it['depth'] and (style == 'g' or style == 'z' or it['depth'] == 1):
            F = jrange(I, gen.J_of(t))[it['pick'] % len(jrange(I, gen.J_of(t)))]
            level = level[f'F={frac(F)}']
            if it['depth'] == 2:
                mF = mrange(F)[it['pick'] % len(mrange(F))]
                level = level[f'mF={frac(mF)}']
        kw = {k: tuple(v) if isinstance(v, list) else v for k, v in o.items()}
        if o.get('squeeze') == 'F':
            kw['squeeze'] = jrange(I, gen.J_of(t))[-1]
        name = STYLES[style][it['alias'] % len(STYLES[style])]
        if case['default'] and it['pick'] % 2:
            g.add_level_strategy = name or 'g'
            g.add_level(level, **kw)
            g.add_level_strategy = 'gross'
        elif name is None:
            g.add_level(level, **kw)
        else:
            g.add_level(level, name, **kw)
        want = lines_of(I, spec['B'], t, style, o, F, mF, I + gen.J_of(ground))
        col, lw = tuple(float(x) for x in o.get('color', (0, 0, 0, 1))), float(o.get('linewidth', 2))
        expected += [(*w, col, lw) for w in want.values()]
        region = hull(want.values())
        # levels with shifted sublevels, or narrower lines than those of other levels, need not have the tightest box
        exact = style != 'z' or it['depth'] > 0 or not o.get('offset') and o.get('squeeze') is not False and len(want) > 1
        boxes.append((o.get('bbox'), region, {**o, 'exact': exact}))
        regions.append(region)
        targets.append({'level': lv[it['i']] if style == 'g' else level, 'drawn': want, 't': t, 'style': style, 'i': it['i']})
    arrows = []
    linked = {}
    for ar in case['arrows']:
        ends, regs, overs = [], [], []
        for n, over in zip((ar['a'], ar['b']), ar['over']):
            use = False
            tg = targets[n]
            e, r = tg['level'], regions[n]
            if ar['sub'] and len(tg['drawn']) > 1:  # one of the lines of the level
                f, m = sorted(tg['drawn'], key=str)[ar['pick'] % len(tg['drawn'])]
                e = lv[tg['i']][f'F={frac(f)}']
                if m is not None:
                    e = e[f'mF={frac(m)}']
                w = tg['drawn'][f, m]
                r = (w[0], w[2], w[1], w[2])
                whole = case['items'][n]['depth'] == 0
                if over and m is not None and (over == 'own' or over == 'hf'):  # the box of the lines of F
                    r = hull([x for k, x in tg['drawn'].items() if k[0] == f])
                    use = over == 'hf'
                    e = e if use else e.parent
                elif over == 'g' and whole:
                    r, use = regions[n], 'g'
            if use:
                use = {'g': ('g', 'gross', 'manifold'), True: ('hf', 'hyperfine', 'hf')}[use][ar['name']]
            overs.append(use)
            ends.append(e)
            regs.append(r)
        kw, swapped = dict(ar['o']), False
        if ar['anchor']:
            kw['start_anchor'], kw['end_anchor'] = ar['anchor']
        pair = frozenset((ar['a'], ar['b']))
        t = None
        if ar['tr'] and ends[0].manifold is not ends[1].manifold and type(ends[0]) is type(ends[1]):
            if pair not in linked:
                linked[pair] = Transition(ends[0].manifold, ends[1].manifold)
            t = linked[pair]
            for n in range(depth_of(ends[0])):
                t = None if t is None else next((s for s in t.values() if {s.E_1, s.E_2} == {up(e, depth_of(e) - n - 1) for e in ends}), None)
        if t is not None:
            if t.E_lower is not ends[0]:
                regs, overs = regs[::-1], overs[::-1]
                swapped = True
            if any(overs):
                kw['override_bbox'] = tuple(overs)
            g.add_transition(t, **kw)
        else:
            if any(overs):
                kw['override_bbox'] = tuple(overs)
            g.add_transition(tuple(ends), **kw)
        arrows.append((regs, {**ar, 'swapped': swapped}))
    if late == 'add':
        disturb(a, lv, -1)
    before = gen.snapshot(a) if late != 'render' else None
    try:
        if case['twice'] or late == 'render':
            g.render(plt.subplots()[1])
        if late == 'render':
            disturb(a, lv, -1)
            before = gen.snapshot(a)
        if case['axes']:
            fig, ax = plt.subplots()
            g.render(ax)
        else:
            g.render()
            ax = plt.gca()
        lines, brackets = read(ax)
        patches = [p for p in ax.patches if isinstance(p, FancyArrowPatch)]
        rects = []
        for c in ax.collections:
            if isinstance(c, PatchCollection):
                cols = [tuple(float(v) for v in x) for x in c.get_facecolor()]
                for i, p in enumerate(c.get_paths()):
                    r = p.get_extents()
                    rects.append((r.x0, r.y0, r.x1, r.y1, cols[i % len(cols)]))
    finally:
        plt.close('all')
    match([l[:3] for l in lines], [l[:3] for l in expected], 'lines', lambda l: l)
    match([(*l[:3], *l[3], l[4]) for l in lines], [(*l[:3], *l[3], l[4]) for l in expected], 'lines with color and width', lambda l: l)
    nr = [(r, o) for b, r, o in boxes if b == 'rect']
    nb = [(r, o) for b, r, o in boxes if b == 'bracket']
    equal(len(rects), len(nr), 'number of rectangles')
    equal(len(brackets), 2 * len(nb), 'number of brackets')

    def around(r, b, o):
        p = o.get('bbox_pad', 0.05)
        h = (r[3] - r[1]) * p
        b0, tol = (r[0] - p, r[1] - h, r[2] + p, r[3] + h), 1e-7 * (1 + max(map(abs, r)))
        if o['exact']:
            return all(abs(x - y) <= tol for x, y in zip(b0, b))
        return b[0] <= b0[0] + tol and b[2] >= b0[2] - tol and abs(b[1] - b0[1]) <= tol and abs(b[3] - b0[3]) <= tol

    for r, o in nr:
        hit = [b[4] for b in rects if around(r, b, o)]
        need(hit, f'no rectangle around {r} with {o}: {rects}')
        need(any(abs(c[3] - o.get('rect_alpha', 0.2)) < 1e-6 and ('rect_color' not in o or max(abs(x - y) for x, y in zip(c, o['rect_color'])) < 1e-6)
                 for c in hit), f'rectangle around {r} with {o}: colors {hit}')
    for r, o in nb:
        col, lw, h = tuple(float(v) for v in o.get('bracket_color', (0, 0, 0, .8))), o.get('bracket_lw', 1), o.get('bracket_h', 0.05)
        hit = [b for b, c, w in brackets if max(abs(x - y) for x, y in zip(c, col)) < 1e-6 and w == lw
               and all(abs(abs(b[i][0] - b[j][0]) - h) < 1e-6 for i, j in ((0, 1), (3, 2)))]
        pairs = [(p[1][0], min(p[1][1], p[2][1]), q[1][0], max(p[1][1], p[2][1])) for p in hit if p[0][0] > p[1][0] for q in hit if q[0][0] < q[1][0] and q[1][1] == p[1][1] and q[2][1] == p[2][1]]
        need(any(around(r, b, o) for b in pairs), f'no brackets around {r} with {o}: {brackets}')
    equal(len(patches), len(arrows), 'number of arrows')
    for p, (regs, ar) in zip(patches, arrows):
        pos = p._posA_posB
        for end, r, q, anchor in (('start', regs[0], pos[0], 0), ('end', regs[1], pos[1], 1)):
            x, y = (r[0] + r[2]) / 2, (r[1] + r[3]) / 2
            tx, ty = 1e-6, 1e-6
            it = case['items'][ar['a' if (end == 'start') != ar.get('swapped', False) else 'b']]
            if ar['anchor']:
                n, pad = ar['anchor'][anchor] - 1, it['o'].get('bbox_pad', 0.05)
                h = pad * (r[3] - r[1])
                x, y = (r[0] - pad, x, r[2] + pad)[n % 3], (r[3] + h, y, r[1] - h)[n // 3]
            if it['style'] == 'z':
                tx = 1.5 if it['o'].get('offset') else 0.1  # the box of a level with shifted or narrow sublevels need not be the tightest
            near(q[0], x + ar['o'].get(end + '_x1', 0), f'{end} of an arrow, x', tx)
            near(q[1], y + ar['o'].get(end + '_y1', 0), f'{end} of an arrow, y', ty, 1e-6)
    d = gen.diff(before, gen.snapshot(a))
    need(not d, f'rendering changed the atom: {d}')
    return [it['style'] for it in case['items']] + (['trivial'] if len(expected) < 2 else []) + (['arrow'] if arrows else [])


def geometry_cases():
    return st.fixed_dictionaries({
        'atom': gen.atom_specs(1, 1, max_J=6.5, I=st.sampled_from([0.5, 1.0, 1.5, 2.5])), 'b': st.sampled_from(['schematic', 0.0, 0.3, 0.75, 1.0]),
        'scale': st.sampled_from([1.0, 1000.0, 30000.0]), 'width': st.sampled_from([0.4, 1.0])})


def check_geometry(case):
    """schematic spacing is in equal steps; the lines of F = I+J fill the width in hyperfine and in Zeeman style"""
    from matplotlib import pyplot as plt
    from atomtoolkit.render.grotrian import Grotrian
    spec = case['atom']
    t, I = spec['levels'][0], spec['I']
    a, lv = gen.mk_atom(spec)
    b = 0.0 if case['b'] == 'schematic' else case['b']
    W = case['width']
    J = gen.J_of(t)
    Fs = jrange(I, J)
    for style in ('hf', 'z'):
        g = Grotrian()
        g.level_width = W
        g.add_level(lv[0], style, spacing=case['b'], hf_scale=case['scale'], z_scale=0.0)
        try:
            fig, ax = plt.subplots()
            g.render(ax)
            lines, _ = read(ax)
        finally:
            plt.close('all')
        if style == 'hf':
            lines.sort(key=lambda l: l[1] - l[0])  # by F
            equal(len(lines), len(Fs), 'number of hyperfine lines')
            near(lines[-1][1] - lines[-1][0], W, 'width of the line of the largest F', 1e-9)
            s = case['scale'] / 1e12
            rest = [l[2] - gen.E_level(t) / 1e12 - b * s * (gen.E_hf(I, t, F) - gen.E_level(t)) for l, F in zip(lines, Fs)]
            steps = [y - x for x, y in zip(rest, rest[1:])]
            tol = 1e-9 * (1 + s * 1e11)
            for d in steps:
                near(d, steps[0], 'schematic steps are not equal', tol)
            if b == 1:
                for r in rest:
                    near(r, 0, 'realistic spacing', tol)
            elif steps:
                need(steps[0] >= -tol, 'schematic spacing is upside down')
                span = abs(gen.E_hf(I, t, Fs[-1]) - gen.E_hf(I, t, Fs[0])) * s * (1 - b)
                need(all(abs(r) <= span / 2 + tol for r in rest), 'schematic lines are not around the energy of the level')
        else:
            equal(len(lines), int((2 * J + 1) * (2 * I + 1)), 'number of Zeeman lines')
            left, right = min(l[0] for l in lines), max(l[1] for l in lines)
            near((left + right) / 2, J, 'center of the Zeeman lines', 1e-9)
            near(right - left, W, 'total width of the Zeeman lines', 1e-9)
            n = len(set(round((l[0] + l[1]) / 2, 7) for l in lines))
            need(n <= 2 * (int(2 * (I + J)) + 1), 'too many different positions')
    return ['trivial'] if len(Fs) < 2 else []


def quick_cases():
    return st.fixed_dictionaries({
        'atom': gen.atom_specs(1, 5, 'LS LS JJ JK', max_J=5.5, I=st.sampled_from([0.0, 0.5, 1.0])), 'plot': st.sampled_from(['norm', None, 'hf', 'z']),
        'types': st.tuples(st.booleans(), st.booleans(), st.booleans()), 'internal': st.booleans(), 'seen': st.lists(st.integers(0, 9), max_size=3)})


def check_quick(case):
    """draw_levels: a marker for every level at its J and energy, an edge for every transition between two levels"""
    from matplotlib import pyplot as plt
    from matplotlib.collections import LineCollection, PathCollection
    from atomtoolkit.atom import Transition
    from atomtoolkit.render.grotrian import draw_levels
    spec = case['atom']
    a, lv = gen.mk_atom(spec)
    for i, x in enumerate(lv):
        for y in lv[i + 1:]:
            if any(p and q for p, q in zip(case['types'], Transition(x, y).allowed_types)) or (i + len(lv)) % 3 == 0:
                pass
            else:
                del a.transitions[x.name, y.name]
    if case['internal']:
        for x in lv:
            a.add_transition(Transition(x, x))
    for k in case['seen']:
        for s in lv[k % len(lv)].sublevels():
            s.sublevels()
        for t in list(a.transitions.values())[:k]:
            for s in t.subtransitions():
                s.subtransitions()
    before = {(t.E_1.name, t.E_2.name): t.freq_Hz for t in a.transitions.values()}
    depth = {'hf': 1, 'z': 2}.get(case['plot'], 0)
    nodes, edges, n = {x.name: x for x in lv}, {frozenset(k) for k in before}, 0
    for d in range(depth):
        nodes = {s.name: s for k in sorted({k % len(lv) for k in case['seen']}) for s in lv[k].sublevels()} if d == 0 else \
            {z.name: z for s in nodes.values() for z in s.sublevels()}
    try:
        plt.figure()
        draw_levels(a, **({} if case['plot'] is None else {'plot_type': case['plot']}))
        cols = plt.gca().collections
        points = [tuple(map(float, p)) for c in cols if isinstance(c, PathCollection) for p in c.get_offsets()]
        segs = [tuple(sorted(map(tuple, s.tolist()))) for c in cols if isinstance(c, LineCollection) for s in c.get_segments()]
        texts = sorted((t.get_text(), *map(float, t.get_position())) for t in plt.gca().texts)
    finally:
        plt.close('all')
    pos = {k: (x.term.J, x.level_Hz / 1e12) for k, x in nodes.items()}
    drawn = {k for k, *_ in texts}
    if depth == 0:
        equal(drawn, set(nodes), 'levels that are drawn')
    else:  # sublevels are made when they are first used
        need(set(nodes) <= drawn, f'not drawn: {sorted(set(nodes) - drawn)}')
        for k in drawn - set(nodes):
            x = a.levels[k]
            need(x.manifold in lv and x.term.F is not None and (x.term.mF is None) == (depth == 1), f'{k} is drawn')
            pos[k] = (x.term.J, x.level_Hz / 1e12)
    equal(len(texts), len(drawn), 'number of labels')
    for k, x, y in texts:
        near(x, pos[k][0], f'J of {k}', 1e-9), near(y, pos[k][1], f'energy of {k}', 1e-9, 1e-12)
    equal(len(points), len(texts), 'number of markers')
    for p, q in zip(sorted(points), sorted((x, y) for _, x, y in texts)):
        near(p[0], q[0], 'marker', 1e-9), near(p[1], q[1], 'marker', 1e-9, 1e-12)
    if depth == 0:
        want = sorted(tuple(sorted(pos[x] for x in e)) for e in edges if len(e) == 2)
        equal(len(segs), len(want), 'number of edges')
        for p, q in zip(sorted(segs), want):
            for u, v in zip(p, q):
                near(u[0], v[0], 'edge', 1e-9), near(u[1], v[1], 'edge', 1e-9, 1e-12)
    equal({(t.E_1.name, t.E_2.name): t.freq_Hz for t in a.transitions.values()}, before, 'transitions of the atom')
    return ['trivial'] if len(lv) < 2 else [str(case['plot'])]


SUBS = [Sub('quick', quick_cases, check_quick, quick=90, thorough=1300, rule='draw_levels of atoms of 1-5 levels, partly explored, for levels, hyperfine and Zeeman sublevels; non-trivial: at least two levels'),
        Sub('diagram', cases, check, quick=370, thorough=4600, cases=grid, rule='levels of up to 11 hyperfine levels, then up to 3 levels in random styles with random options, up to 2 arrows; non-trivial: at least two lines'),
        Sub('arrows', lambda: cases(True), check, quick=70, thorough=1000, rule='2-3 levels in hyperfine or Zeeman style with 2-6 arrows between sublevels, to chosen boxes; non-trivial: at least two lines'),
        Sub('geometry', geometry_cases, check_geometry, quick=110, thorough=1300, rule='hyperfine and Zeeman style with schematic spacing; non-trivial: at least two hyperfine levels')]
