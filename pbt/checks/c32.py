import warnings

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, same, equal, raises, frac

OPS = ['add', 'add', 'append', 'set', 'again', 'line', 'line', 'pair names', 'pair levels', 'line append', 'line set', 'line again',
       'alias', 'sub alias', 'line alias', 'del', 'del', 'del line', 'del line', 'del missing', 'touch', 'eager', 'bring', 'fresh', 'reborn line', 'revive', 'drop aliased']


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(3, 5, 'LS', max_J=1.5, I=st.sampled_from([0.0, 0.5, 0.5, 1.0]), more=9))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 19), st.integers(0, 19), st.integers(0, 9)), min_size=4, max_size=14))
    n = len(spec['levels'])
    ready = draw(st.sampled_from([0, 0, 1, 2]))
    lines = [list(p) for p in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=2, unique_by=lambda p: frozenset(p)))]
    return {'ready': ready, 'ready lines': lines, 'spec': spec, 'ops': [list(o) for o in ops], 'start': draw(st.integers(0, max(5, n))), 'lines': draw(st.integers(0, 3))}


class Model:
    def __init__(self, case):
        from atomtoolkit import Q_
        from atomtoolkit.atom import Atom, Transition
        self.case, spec = case, case['spec']
        self.specs = spec['levels']
        self.objs = [gen.mk_level(t) for t in self.specs]  # the current object of every name
        ready = case['ready']  # levels and transitions that are given to the constructor
        lines = [Transition(self.objs[i], self.objs[j]) for i, j in case['ready lines']] if ready else []
        kw = {} if not ready else {'levels': [self.objs[i] for i in range(ready)], 'transitions': lines}
        self.a = Atom('X', I=spec['I'], B=Q_(float(spec['B']), 'G'), **kw)
        self.names = [o.name for o in self.objs]
        self.present, self.aliases, self.lines, self.taliases = {}, {}, {}, {}
        self.dead_names, self.dead_lines, self.count = set(), [], 0
        self.touched = {}  # transitions whose components exist, by identity
        self.labels = set()
        for i in range(ready):
            self.level_added(i)
        for t in lines:
            self.line_added(t)

    # --- effects on the model

    def level_added(self, i):
        lv = self.objs[i]
        self.present[lv.name] = lv
        if lv.alias is not None:
            self.aliases[lv.alias] = lv

    def line_added(self, t):
        for e in (t.E_1, t.E_2):
            self.level_added(self.names.index(e.name)) if e.name not in self.present else None
        self.lines[frozenset((t.E_1.name, t.E_2.name))] = t
        if t.alias is not None:
            self.taliases[t.alias] = t

    def line_gone(self, pair):
        t = self.lines.pop(pair)
        subs = t.subtransitions()[:2] if id(t) in self.touched else []  # listing them would make them otherwise
        self.dead_lines.append((pair, t, [(s.E_1.name, s.E_2.name) for s in subs]))
        self.taliases = {k: v for k, v in self.taliases.items() if v is not t and v.parent is not t and getattr(v.parent, 'parent', None) is not t}

    def level_gone(self, name):
        lv = self.present.pop(name)
        self.dead_names.add(name)
        self.aliases = {k: v for k, v in self.aliases.items() if v.manifold is not lv}
        for pair in [p for p in self.lines if name in p]:
            self.line_gone(pair)

    def keys_of_level(self, name):
        out = [name] + [k for k, v in self.aliases.items() if v is self.present[name]]
        ranks = sorted(self.present.values(), key=lambda x: x.level_Hz)
        return out + [ranks.index(self.present[name]), ranks.index(self.present[name]) - len(ranks)]

    def keys_of_line(self, pair):
        t = self.lines[pair]
        x, y = t.E_1.name, t.E_2.name
        ranks = [l.name for l in sorted(self.present.values(), key=lambda x: x.level_Hz)]
        return [(x, y), (y, x), (ranks.index(x), ranks.index(y)), (ranks.index(y), ranks.index(x)), (t.E_2, t.E_1)] + \
            [k for k, v in self.taliases.items() if v is t]

    # --- one operation on both

    def apply(self, op):
        from atomtoolkit.atom import Transition
        kind, i, j, k = op
        a, n = self.a, len(self.objs)
        i %= n
        lv, other = self.objs[i], self.objs[j % n]
        name, absent = lv.name, lv.name not in self.present
        pair = frozenset((lv.name, other.name))
        self.count += 1
        if kind in ('add', 'eager') or (kind == 'again' and not absent):
            al = f'al{self.count}' if k % 3 == 0 else None
            if kind == 'eager' and absent and k % 2:
                lv = self.objs[i] = gen.mk_level(self.specs[i])
            subs = [] if absent else lv.sublevels()
            zs = [z for s in subs[:1 + k % 2] for z in s.sublevels()]
            same(a.add_level(lv, populate_sublevels=kind == 'eager', alias=al), lv, 'add_level')
            self.level_added(i)
            need(not subs or (len(subs) == len(lv.sublevels()) and all(x is y for x, y in zip(subs, lv.sublevels()))), f'sublevels of {name} after it was added again')
            for x, y in zip(zs, [z for s in lv.sublevels()[:1 + k % 2] for z in s.sublevels()]):
                same(y, x, 'Zeeman sublevels of a level that was added again')
        elif kind == 'append':
            a.levels.append(lv)
            self.level_added(i)
        elif kind == 'set':
            a.levels[f'al{self.count}'] = lv
            self.level_added(i)
            need(self.aliases.get(f'al{self.count}') is lv, 'alias of a level that was assigned to a key')
        elif kind == 'fresh' and absent:
            self.objs[i] = lv = gen.mk_level(self.specs[i], alias=f'al{self.count}' if j % 3 else None)
            if k % 3 == 0:
                a.levels.append(lv)
            else:
                a.add_level(lv, populate_sublevels=k % 3 == 1)
            need(j % 3 == 0 or a.levels[f'al{self.count}'] is lv, 'alias that a level was made with')
            self.level_added(i)
        elif kind in ('line', 'bring', 'line append', 'line set', 'pair levels', 'pair names') and pair not in self.lines:
            if kind == 'pair names':
                if absent or other.name not in self.present:
                    raises(KeyError, lambda: a.add_transition((lv.name, other.name)), 'pair of names that are not in the atom')
                    return
                t = a.add_transition((lv.name, other.name))
            elif kind == 'pair levels':
                if lv.atom is None and other.atom is not None:  # the constructor looks at the first one
                    lv, other = other, lv
                t = a.add_transition((lv, other))
            else:
                t = Transition(lv, other, alias=f'line{self.count}' if k % 4 == 0 else None)
                if kind == 'line append':
                    a.transitions.append(t)
                elif kind == 'line set':
                    a.transitions[f'tal{self.count}'] = t
                else:
                    same(a.add_transition(t), t, 'add_transition')
                if k % 4 == 0 and kind != 'line set':
                    equal(t.alias, f'line{self.count}', 'alias of a transition')
                    self.taliases[t.alias] = t
                elif k % 4 == 0:
                    self.taliases[f'line{self.count}'] = t
            equal({t.E_1, t.E_2} == {lv, other}, True, f'{t!r} connects other levels')
            equal(t.name, f'{t.E_1.name} → {t.E_2.name}', 'default name of a transition')
            self.line_added(t)
        elif kind == 'line again' and self.lines:
            p = sorted(self.lines, key=sorted)[j % len(self.lines)]
            t = self.lines[p]
            if k % 5 == 4:  # under another key
                a.transitions[f'tal{self.count}'] = t
                self.taliases[f'tal{self.count}'] = t
            elif k % 2:
                same(a.add_transition(t), t, 'add_transition')
            else:
                key = next(q for q in a.transitions.keys() if frozenset(q) == p)
                same(a.add_transition(key[::-1] if i % 2 else key), t, 'adding a pair that is already connected')
            self.line_added(t)
        elif kind == 'alias' and not absent:
            lv.alias = f'al{self.count}'
            self.aliases[lv.alias] = lv
        elif kind == 'sub alias' and not absent:
            s = lv.sublevels()[k % len(lv)]
            if k % 2:
                s = s.sublevels()[j % len(s)]
            s.alias = f'al{self.count}'
            self.aliases[s.alias] = s
        elif kind == 'line alias' and self.lines:
            t = self.lines[sorted(self.lines, key=sorted)[j % len(self.lines)]]
            if k % 3 == 0 and t.subtransitions():
                self.touched[id(t)] = t
                s = t.subtransitions()[k % len(t)]
                if i % 2 and s.subtransitions():
                    s = s.subtransitions()[k % len(s)]
                s.alias = f'tal{self.count}'
                self.taliases[s.alias] = s
            else:
                t.alias = f'tal{self.count}'
                self.taliases[t.alias] = t
        elif kind == 'del' and not absent:
            keys = self.keys_of_level(name)
            del a.levels[keys[k % len(keys)]]
            self.level_gone(name)
            self.labels.add('deleted level')
        elif kind == 'revive' and not absent:  # deleted after its sublevels were used, and added again
            for s in lv.sublevels()[:1 + k % 2]:
                s.sublevels()
            del a.levels[name]
            self.level_gone(name)
            a.add_level(lv)
            self.level_added(i)
            same(lv.sublevels()[0].atom, a, 'atom of a sublevel')
            equal(a.linked_levels(lv.sublevels()[0].name), {}, 'levels linked to a sublevel of a level that was added again')
            equal(a.linked_levels(lv.sublevels()[0].sublevels()[0].name), {}, 'levels linked to a Zeeman sublevel of a level that was added again')
            self.labels.add('deleted level')
        elif kind in ('del line', 'drop aliased') and self.lines:
            p = sorted(self.lines, key=sorted)[j % len(self.lines)]
            if kind == 'drop aliased':  # with aliases on all depths of its components
                t = self.lines[p]
                self.touched[id(t)] = t
                for s in t.subtransitions()[:2]:
                    for n, x in enumerate([s] + s.subtransitions()[:2]):
                        x.alias = f'tal{self.count}-{s.name}-{n}'
                        self.taliases[x.alias] = x
                self.compare(False)
                if i % 3 == 0:  # with one of its levels
                    name = sorted(p)[k % len(p)]
                    del a.levels[name]
                    self.level_gone(name)
                    self.labels.add('deleted level')
                    return
            keys = self.keys_of_line(p)
            del a.transitions[keys[k % len(keys)]]
            self.line_gone(p)
            self.labels.add('deleted line')
        elif kind == 'reborn line' and self.dead_lines:  # connect a pair anew that was connected before
            p, old, _ = self.dead_lines[j % len(self.dead_lines)]
            if p in self.lines or not all(self.objs[self.names.index(x)] is not None for x in p):
                return
            ends = [self.objs[self.names.index(x)] for x in sorted(p)]
            ends = ends * 2 if len(ends) == 1 else ends
            if k % 3 == 2 and all(e in (old.E_1, old.E_2) for e in ends):
                t = a.add_transition(old)  # the very same object again
                same(t, old, 'add_transition')
            else:
                t = a.add_transition(Transition(ends[0], ends[1]))
                need(t is not old, 'a new transition is a new object')
            self.line_added(t)
            self.labels.add('reconnected')
        elif kind == 'del missing':
            for key in ('nope', f'al-{i}'):
                self.missing(lambda: a.levels.__delitem__(key), f'deleting level {key!r}')
            if absent:
                self.missing(lambda: a.levels.__delitem__(name), 'deleting a level that is not there')
            elif pair not in self.lines and other.name in self.present:
                self.missing(lambda: a.transitions.__delitem__((name, other.name)), 'deleting a transition that is not there')
        elif kind == 'touch':
            for t in list(self.lines.values())[:2]:
                self.touched[id(t)] = t
                for s in t.subtransitions()[:3]:
                    s.subtransitions()

    def zeeman_links(self, lv, s):
        z = s.sublevels()[len(self.lines) % len(s)]
        want = {y for t in self.lines.values() if lv in (t.E_1, t.E_2) for c in t.subtransitions() if s in (c.E_1, c.E_2)
                for d in c.subtransitions() if z in (d.E_1, d.E_2) for y in {d.E_1.name, d.E_2.name} - {z.name}}
        equal(sorted(self.a.linked_levels(z.name)), sorted(want), f'levels linked to {z.name}')

    def missing(self, fn, what):
        raises(KeyError, fn, what)

    # --- comparison

    def compare(self, deep):
        a = self.a
        equal(sorted(a.levels), sorted(self.present), 'levels')
        equal(sorted(a.levels.keys()), sorted(self.present), 'keys of levels')
        equal(sorted(a.levels.list_names()), sorted(self.present), 'names of levels')
        equal(len(a.levels), len(self.present), 'number of levels')
        need({id(x) for x in a.levels.values()} == {id(x) for x in self.present.values()} and len(a.levels.values()) == len(self.present), 'values of levels')
        ranks = sorted(self.present.values(), key=lambda x: x.level_Hz)
        equal([x.name for x in a.levels[:]], [x.name for x in ranks], 'levels by rank')
        for name, lv in self.present.items():
            same(a.levels[name], lv, f'level {name}')
            same(lv.atom, a, 'atom of a level')
        equal(sorted(a.levels.aliases), sorted(self.aliases), 'aliases')
        for al, x in self.aliases.items():
            same(a.levels[al], x, f'alias {al}')
        for name in self.names:
            if name not in self.present:
                raises(KeyError, lambda: a.levels[name], 'name of a level that is not there')
        pairs = [frozenset(p) for p in a.transitions]
        equal(sorted(map(sorted, pairs)), sorted(map(sorted, self.lines)), 'transitions')
        equal(len(a.transitions), len(self.lines), 'number of transitions')
        need({id(t) for t in a.transitions.values()} == {id(t) for t in self.lines.values()} and len(a.transitions.values()) == len(self.lines), 'values of transitions')
        equal(sorted(sorted(set(p)) for p in a.transitions.list_names()), sorted(sorted(p) for p in self.lines if len(p) == 2), 'names of transitions')
        equal(sorted(sorted(set(p)) for p in a.transitions.list_names(hide_self_transitions=False)), sorted(sorted(p) for p in self.lines), 'names of all transitions')
        for p, t in self.lines.items():
            x, y = (sorted(p) * 2)[:2]
            same(a.transitions[x, y], t, f'transition {x} - {y}')
            same(a.transitions[y, x], t, f'transition {y} - {x}')
            need({t.E_1.name, t.E_2.name} == p and t.E_1 is self.present[t.E_1.name] and t.E_2 is self.present[t.E_2.name], 'levels of a transition')
        equal(sorted(a.transitions.aliases), sorted(self.taliases), 'aliases of transitions')
        for al, t in self.taliases.items():
            same(a.transitions[al], t, f'alias {al}')
        names = sorted(self.present)
        for x in names:
            equal(sorted(a.linked_levels(x)), sorted(y for p in self.lines if x in p for y in p - {x}), f'levels linked to {x}')
            for y in names:
                if frozenset((x, y)) not in self.lines:
                    raises(KeyError, lambda: a.transitions[x, y], 'a pair that is not connected')
        if deep:
            for p, t in self.lines.items():
                for s in t.subtransitions():
                    same(s.parent, t, 'parent of a component')
                    need({s.E_1.manifold.name, s.E_2.manifold.name} == p, 'ends of a component')
                    for e in (s.E_1, s.E_2):
                        same(e.manifold, self.present[e.manifold.name], 'a component connects the current levels')
                        same(a.levels[e.name], e, 'end of a component')
                    if len(p) == 2:
                        same(a.transitions[s.E_1.name, s.E_2.name], s, 'component')
                        equal(a.linked_levels(s.E_1.name).get(s.E_2.name) is s, True, f'{s.name} among the linked levels of its end')
            for lv in list(self.present.values()):
                for s in lv.sublevels()[:2]:
                    self.zeeman_links(lv, s)
                    ends = [{c.E_1.name, c.E_2.name} - {s.name} for t in self.lines.values() if lv in (t.E_1, t.E_2)
                            for c in t.subtransitions() if s in (c.E_1, c.E_2) and c.E_1 is not c.E_2]
                    equal(sorted(a.linked_levels(s.name)), sorted({y for e in ends for y in e}), f'levels linked to {s.name}')
            for p, old, subs in self.dead_lines[-2:]:
                if p in self.lines or len(p) == 1:
                    continue
                for pair in subs:
                    raises(KeyError, lambda: a.transitions[pair], 'component of a deleted transition')
                for x in p & set(self.present):
                    for s in self.present[x].sublevels()[:2]:
                        linked = a.linked_levels(s.name)
                        need(not any(y.startswith(z + ' ') for y in linked for z in p - {x}), f'{s.name} is still linked to the other end of a deleted transition')


def check(case):
    from atomtoolkit.atom import Transition
    m = Model(case)
    n = len(m.objs)
    for i in range(min(case['start'], n)):
        m.apply(['add', i, 0, 1])
    for i in range(case['lines']):
        m.apply(['line', i, i + 1, 1])
    m.compare(False)
    for op in case['ops']:
        before = len(m.lines), len(m.present)
        m.apply(op)
        m.compare(False)
        m.labels.add(op[0])
    m.compare(True)
    if not m.labels & {'deleted level', 'deleted line'}:
        m.labels.add('trivial')
    return sorted(m.labels)


SUBS = [Sub('edits', cases, check, quick=420, thorough=6000,
            rule='histories of 4-14 edits of 28 kinds on 3-5 (sometimes up to 14) levels compared with a dictionary model after every step; non-trivial: something was deleted')]
