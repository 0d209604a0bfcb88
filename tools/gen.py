"""Scripts of API calls for the drivers (inputs only; the oracle is spec/Trace.tla).

A script is a list of lines; see drivers/rust/src/main.rs for the operations. The generator
keeps a rough picture of the graphs it builds so that it can aim at boundaries (levels equal to
the number of ones of some block, thresholds equal to some average); it judges nothing.
"""
import random
from fractions import Fraction

MAX = 2**64 - 1
EDGY = [0, 1, 2, 3, 6, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 65535, 65536,
        2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**56,
        2**63 - 1, 2**63, 2**64 - 9, 2**64 - 8, MAX - 1, MAX]


class Gen:
    def __init__(self, seed, api='rust', und=None):
        self.r = random.Random(seed)
        self.api = api
        self.und = und              # make only undirected (or directed) graphs
        self.n = 0

    def direction(self):
        x = self.r.randrange(2)
        return x if self.und is None else self.und

    # -- helpers ---------------------------------------------------------------------------
    def ids(self, k, style=None):
        """k distinct ids to work with."""
        r = self.r
        style = style or r.choice(['small', 'small', 'small', 'block', 'edgy', 'mixed'])
        if style == 'small':
            pool = list(range(max(k, 4)))
        elif style == 'block':
            b = 8 * r.randrange(0, 4)
            pool = [b + x for x in (0, 1, 3, 6, 7, 8, 9, 15, 16)]
        elif style == 'edgy':
            pool = EDGY
        else:
            pool = list(range(5)) + r.sample(EDGY, 5)
        pool = sorted(set(pool))
        out = r.sample(pool, min(k, len(pool)))
        if k > 2 and r.random() < 0.12:      # two ids that differ in one bit
            x = out[0] ^ 1 << r.randrange(64)
            if x != MAX and x not in out:
                out[1] = x
        return out

    def universe(self, ids, extra=1):
        u = list(dict.fromkeys(ids))[:5]
        while extra:
            x = self.r.choice(EDGY)
            if x not in u:
                u.append(x)
                extra -= 1
        return 'U ' + ' '.join(map(str, u))

    def edges(self, kind=None, vmax=None):
        """A list of directed edges of some shape."""
        r = self.r
        kind = kind or r.choice(['sparse', 'dense', 'full', 'star', 'instar', 'diag', 'blocks',
                                 'blocks', 'counted', 'counted', 'big', 'one', 'none', 'corner'])
        n = vmax or r.choice([1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 25])
        E = []
        if kind == 'sparse':
            E = [(r.randrange(n), r.randrange(n)) for _ in range(r.randrange(1, 2 * n + 2))]
        elif kind == 'dense':
            E = [(a, b) for a in range(n) for b in range(n) if r.random() < 0.6][:220]
        elif kind == 'full':
            n = min(n, 12)
            E = [(a, b) for a in range(n) for b in range(n)]
        elif kind == 'star':
            E = [(0, b) for b in range(n)]
        elif kind == 'instar':
            E = [(b, n - 1) for b in range(n)]
        elif kind == 'diag':
            E = [(a, a) for a in range(n)]
        elif kind == 'blocks':
            n = max(n, 9)
            for _ in range(r.randrange(1, 4)):
                c, w = 8 * r.randrange(0, (n + 7) // 8), 8 * r.randrange(0, (n + 7) // 8)
                p = r.choice([1, 1, 0.5, 0.9])
                E += [(c + i, w + j) for i in range(8) for j in range(8) if r.random() < p]
            E = [e for e in E if max(e) < n or r.random() < 0.5]
        elif kind == 'counted':
            # blocks with chosen numbers of ones
            for c, w in r.sample([(a, b) for a in range(3) for b in range(3)], r.randrange(1, 4)):
                k = r.choice([1, 2, 3, 8, 31, 32, 33, 62, 63, 64, r.randrange(1, 65)])
                cells = [(8 * c + i, 8 * w + j) for i in range(8) for j in range(8)]
                E += r.sample(cells, k)
        elif kind == 'big':
            ids = self.ids(5, 'edgy')
            E = [(r.choice(ids), r.choice(ids)) for _ in range(r.randrange(1, 8))]
        elif kind == 'one':
            E = [tuple(r.choice(EDGY) for _ in range(2))]
        elif kind == 'corner':
            E = [(n - 1, n - 1), (0, n - 1), (n - 1, 0)][:r.randrange(1, 4)]
        r.shuffle(E)
        return E

    def build(self, h, und, E, extra=None, quiet=True):
        L = [f'newg {h} {und}']
        by = {}
        for a, b in E:
            by.setdefault(a, []).append(b)
        if self.r.random() < 0.3 and all(MAX not in e for e in E):
            for a, bs in by.items():
                L.append(f'addv {h} {a} {len(bs)} ' + ' '.join(map(str, bs)))
        else:
            L += [f'adde {h} {a} {b}' + (' q' if quiet else '') for a, b in E]
        if extra is not None:
            L.append(f'addv {h} {extra} -')
        L.append(f'obs {h}')
        return L

    def graph(self, h='g0', kind=None, und=None, small=False):
        """Lines that make a graph, its edges as stored, its vertex count."""
        r = self.r
        und = self.direction() if und is None else und
        E = self.edges(kind) if not small else self.edges(
            r.choice(['sparse', 'star', 'diag', 'one', 'none', 'full', 'corner']), r.choice([1, 2, 3, 4, 5]))
        top = max([max(e) for e in E if MAX not in e], default=-1)
        extra = None
        if r.random() < 0.4:
            extra = r.choice([top + 1, (top // 8 + 1) * 8 - 1, (top // 8 + 1) * 8, top + 20, 0])
            extra = min(max(extra, 0), MAX - 1)
        S = {e for e in E if MAX not in e}
        if und:
            S |= {(b, a) for a, b in S}
        vc = max(top, extra if extra is not None else -1) + 1
        return self.build(h, und, E, extra), S, vc, und

    def probe(self, S, vc, extra=()):
        r = self.r
        flat = sorted({x for e in S for x in e})
        # from different blocks, if there are any
        r.shuffle(flat)
        seen, first, rest = set(), [], []
        for x in flat:
            (rest if x // 8 in seen else first).append(x)
            seen.add(x // 8)
        u = (first + rest)[:3] + list(extra) + [max(vc - 1, 0), vc if vc <= MAX else 0]
        u = list(dict.fromkeys(u))[:6]
        return 'U ' + ' '.join(map(str, u))

    def reset(self, name):
        self.n += 1
        return f'reset {name}-{self.n}'

    # -- families --------------------------------------------------------------------------
    def hist(self):
        """A random history of one graph, everything observed after every call."""
        r = self.r
        ids = self.ids(r.randrange(2, 6))
        und = self.direction()
        L = [self.reset('hist'), self.universe(ids), f'newg g {und}']
        live = []
        for _ in range(r.randrange(8, 28)):
            a, b = r.choice(ids), r.choice(ids)
            x = r.random()
            if live and x < 0.30:
                a, b = r.choice(live)
                if r.random() < 0.5:
                    a, b = b, a
                L.append(f'dele g {a} {b}')
            elif x < 0.38:
                L.append(f'dele g {a} {b}')
            elif x < 0.46:
                L.append(f'addv g {r.choice(ids + EDGY)} ' + r.choice(['-', '0']))
            elif x < 0.58:
                vs = [r.choice(ids) for _ in range(r.randrange(1, 5))]
                if all(v == MAX for v in vs):
                    vs[0] = 0
                L.append(f'addv g {a} {len(vs)} ' + ' '.join(map(str, vs)))
                live += [(a, v) for v in vs]
            elif live and x < 0.66:
                a, b = r.choice(live)
                L.append(f'adde g {b} {a}')
            else:
                L.append(f'adde g {a} {b}')
                live.append((a, b))
        return L

    def teardown(self):
        """Build a graph, then remove every edge again (either orientation), probing as it goes."""
        L, S, vc, und = self.graph('g', self.r.choice(['sparse', 'star', 'instar', 'diag', 'dense', 'big']))
        S = list(S)
        self.r.shuffle(S)
        out = [self.reset('teardown'), self.probe(S, vc)] + L
        for k, (a, b) in enumerate(S[:60]):
            if und and self.r.random() < 0.5:
                a, b = b, a
            out.append(f'dele g {a} {b}' + ('' if k % 6 == 0 or k > len(S) - 4 else ' q'))
        out += ['obs g', f'adde g {S[0][0]} {S[0][1]}' if S else 'adde g 0 0', 'obs g']
        return out

    def maxid(self):
        """The id that cannot be counted, in every position of every call."""
        r = self.r
        und = self.direction()
        ids = self.ids(3) + [MAX]
        L = [self.reset('maxid'), self.universe(ids + [0], 0), f'newg g {und}']
        for _ in range(r.randrange(4, 12)):
            a, b = r.choice(ids + [MAX]), r.choice(ids + [MAX])
            x = r.random()
            if x < 0.35:
                L.append(f'adde g {a} {b}')
            elif x < 0.5:
                L.append(f'dele g {a} {b}')
            elif x < 0.65:
                L.append(f'addv g {a} ' + r.choice(['-', '0']))
            else:
                vs = [r.choice(ids + [MAX]) for _ in range(r.randrange(1, 4))]
                if all(v == MAX for v in vs):
                    vs.append(ids[0])
                L.append(f'addv g {a} {len(vs)} ' + ' '.join(map(str, vs)))
        return L + ['clone g h', 'compress g c 1', 'decompress c d', 'decm g e same', f'adde d {MAX} 0', f'addv e {MAX} -', 'obsall']

    def wide(self):
        """Many neighbours of one vertex: degrees above 255."""
        r = self.r
        n = r.choice([256, 257, 300])
        hub = r.choice([0, 7, n, 2**40])
        und = self.direction()
        off, step = r.choice([(0, 1), (0, 1), (1, 1), (3, 2), (n, 1), (2**32 - 5, 1), (1, 2**20 + 1)])
        many = list(range(off, off + n * step, step))
        L = [self.reset('wide'), f'U {hub} {off} {many[1]} {many[-1]} {many[-1] + 1} 0 {MAX}', f'newg g {und}']
        line = list(many)
        if r.random() < 0.5:
            r.shuffle(many)
        L.append(f'addv g {hub} {n} ' + ' '.join(map(str, many)))
        L += [f'adde g {v} {hub} q' for v in line[::r.choice([1, 1, 3])]]
        L += [f'dele g {hub} {v} q' for v in line[5::50]]
        L += [f'obs g', f'dele g {line[1]} {hub}', f'dele g {hub} {hub}', f'clone g g1', f'adde g1 {hub} {line[-1] + 5}', 'obs g']
        return L

    def fan(self):
        """A vertex (or many) that gains many edges and loses almost all of them again."""
        r = self.r
        n = r.choice([5, 9, 17, 30, 40, 60, 100, 130, 240, 260, 300])
        hub = r.choice([0, 7, n, 2**33 + 1])
        shape = r.choice(['out', 'in', 'both', 'cols'])
        und = self.direction()
        off, step = r.choice([(0, 1), (0, 1), (0, 1), (1, 1), (2, 3), (n, 1), (2**33, 8)])
        N = range(off, off + n * step, step)
        E = {'out': [(hub, v) for v in N], 'in': [(v, hub) for v in N],
             'both': [(hub, v) for v in N] + [(v, hub) for v in N],
             'cols': [(v, v // 2) for v in N]}[shape]
        E = list(dict.fromkeys(E))
        L = [self.reset('fan'), f'U {hub} 0 {N[1]} {N[-1]} {N[-1] + 1}', f'newg g {und}']
        by = {}
        for a, b in E:
            by.setdefault(a, []).append(b)
        for a, bs in by.items():
            L.append(f'addv g {a} {len(bs)} ' + ' '.join(map(str, bs)) + ' q')
        L.append('obs g')
        r.shuffle(E)
        keep = r.choice([0, 1, 1, 2, 3, n // 2])
        gone, left = E[keep:], E[:keep]
        for a, b in gone:
            if und and r.random() < 0.3:
                a, b = b, a
            L.append(f'dele g {a} {b} q')
        L.append('obs g')
        for a, b in (left[:1] + gone[:2]):
            L += [f'adde g {a} {b}', f'adde g {a} {b} q']
        for a, b in left[:2]:
            L.append(f'dele g {a} {b}')
        return L + ['clone g k', 'enc k', 'compress g c 1', 'decompress c d', 'obsall']

    def large(self):
        """Thousands of edges; few observations."""
        r = self.r
        n = r.choice([300, 700, 1100])
        und = self.direction()
        hub = r.choice([3, n - 1, n])
        off = r.choice([0, 0, 1, 5])
        L = [self.reset('large'), f'U {hub} 0 1 {n // 2} {n + 3}', f'newg g {und}']
        many = list(range(off, n)) + [r.randrange(off, n) for _ in range(r.choice([0, 40]))]
        if r.random() < 0.7:
            r.shuffle(many)
        L.append(f'addv g {hub} {len(many)} ' + ' '.join(map(str, many)) + ' q')
        for v in range(0, n, 5):
            L.append(f'addv g {v} 6 {hub} ' + ' '.join(str(r.randrange(off, n)) for _ in range(5)) + ' q')
        for v in range(0, n, 7):
            L.append(f'dele g {hub} {v} q')
        L += ['obs g', f'dele g {hub} 1 q', f'adde g {hub} {n + 3} q', 'obs g', 'enc g', 'decm g h same', 'drop h',
              f'pool g p {r.choice([2, 7, 10, 64])}', 'drop p', f'approx g x {r.choice([2, 3, 16])} {r.choice(["1/9", "1/4", "0/1"])}', 'drop x',
              f'compress g c {r.choice([1, 1, 2, 3])}', 'enc c', 'decompress c d']
        return L

    def dense(self):
        """Full and nearly full blocks, on and off the diagonal."""
        r = self.r
        n = r.choice([8, 9, 15, 16, 17, 24, 25, 32, 33, 40])
        und = self.direction()
        lo = r.choice([0, 0, 0, 1, 8, 16, 2**33, MAX - 64])
        to = r.choice([lo, lo, 8 * (lo // 8) + 8, lo + 32]) if lo < 2**34 else lo
        if to != lo and n > 32:
            n = 32
        L = [self.reset('dense'), f'U {lo} {lo + n - 1} {to} {to + n - 1} {lo + n}', f'newg g {und}']
        L += [f'addr g {lo + x} {to} {n} 1 q' for x in range(n)] if to < 2**30 else \
            [f'addv g {lo + x} {n} ' + ' '.join(str(to + y) for y in range(n)) + ' q' for x in range(n)]
        L += [f'addv g {lo + n + r.choice([0, 6, 30]) - 1} - q'] * r.randrange(2)
        for _ in range(r.choice([0, 0, 1, 2, 5])):
            L.append(f'dele g {lo + r.randrange(n)} {to + r.randrange(n)} q')
        for i, b in enumerate(r.sample([2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, n, n + 1], 3)):
            L += [f'pool g p{i} {b}', f'drop p{i}',
                  f'approx g x{i} {b} ' + r.choice(['1/1', '1/1', f'{b * b - 1}/{b * b}', f'{b * b - 2}/{b * b}', '99/100', '1/2', '0/1']), f'drop x{i}']
        for i, l in enumerate(r.sample([1, 32, 56, 60, 62, 63, 64, 64, 200], 2)):
            L += [f'compress g c{i} {l}', f'decompress c{i} d{i}', f'decm c{i} e{i} same' if n <= 17 else f'drop d{i}']
        return L + ['redec g h' if n > 17 else 'decm g h same']

    def huge(self, shape=None):
        """More edges, or more neighbours of one vertex, than 16 bits can count."""
        r = self.r
        und = self.direction()
        shape = shape or r.choice(['out', 'in', 'grid'])
        if shape in ('grid', 'plot'):
            a, b = r.choice([(256, 257), (257, 256), (260, 256), (257, 259)] if shape == 'grid' else [(64, 65), (65, 66), (90, 50), (66, 70)])
            lo = r.choice([0, 0, 8, 100]) if not und else r.choice([0, 0, 200])
            if und:
                # each link counts twice
                a, b = ((184, 184) if lo else r.choice([(257, 257), (258, 258)])) if shape == 'grid' else r.choice([(50, 50), (70, 70)])
            L = [self.reset('huge'), f'U 0 {a - 1} {lo} {lo + b - 1} {lo + b}', f'newg g {und}']
            L += [f'addr g {x} {lo} {b} 1 q' for x in range(a)]
            L += ['obs g', f'dele g 3 {lo + 2} q', 'redec g h', f'pool g p {r.choice([64, 128, 256, a])}', 'drop p', f'pool g p {2 * lo + 600}', 'drop p', f'approx g x {r.choice([16, 50])} 1/3', 'drop x',
                  f'compress g c {r.choice([1, 60])}', 'decompress c d', f'delr g 0 {lo} {b} 1']
            return L
        n = r.choice([65536, 65537, 65600])
        hub = r.choice([0, 7, n, 2**33])
        lo = r.choice([0, 0, 1, 3])
        L = [self.reset('huge'), f'U {hub} 0 1 {lo + n - 1} {lo + n}', f'newg g {und}']
        if shape == 'out' or und:
            L += [f'addr g {hub} {lo} {n} 1']
        else:
            L += [f'addm g {hub} {lo} {n} 1']
        L += ['redec g h', f'dele g {hub} 5 q', 'clone g k', f'delr k {hub} {lo} {n - 2} 1' if shape == 'out' or und else 'dele k 4 ' + str(hub), 'obs g']
        return L

    def long(self):
        """Histories of many hundreds of calls, so that what counts calls or sums over time has time to go wrong."""
        r = self.r
        kind = r.choice(['graph', 'graph', 'adj', 'mat']) if self.api == 'rust' else 'graph'
        ids = r.choice([list(range(6)), [0, 5, 7, 8, 15, 16], [3, 255, 256, 257, 65535], [1, 2**32, 2**32 + 1, 2**63, MAX - 1], self.ids(4)])
        ids = [x for x in ids if x != MAX]
        n = r.choice([300, 600, 1100]) if self.api == 'rust' else r.choice([280, 560])
        every = r.choice([23, 40, 61])
        def at():
            return f'{r.choice(ids)} {r.choice(ids)}'
        L = [self.reset('long'), 'U ' + ' '.join(map(str, ids[:5]))]
        if kind == 'graph':
            L.append(f'newg g {self.direction()}')
            for i in range(n):
                x = r.random()
                op = f'adde g {at()}' if x < 0.45 else f'dele g {at()}' if x < 0.9 else \
                    f'addv g {r.choice(ids)} 2 {at()}' if x < 0.96 else f'addv g {r.choice(ids)} -'
                L.append(op + ('' if i % every == 0 else ' q'))
                if i % 97 == 50:
                    L += ['enc g']
        elif kind == 'adj':
            L.append('newa a')
            for i in range(n):
                x = r.random()
                op = f'seta a {r.choice([1, 1, 2, 255])} {at()}' if x < 0.5 else f'seta a 0 {at()}' if x < 0.6 else f'zeroa a {at()}'
                L.append(op + ('' if i % every == 0 else ' q'))
                if i % 97 == 50:
                    L += ['a2g a g ' + r.choice(['dir', 'dir', 'und'])]
        else:
            t = r.choice(['u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'f32', 'f64', 'u128', 'i128', 'usize', 'isize'] if 'usize' in self.TYPES else ['u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'f32', 'f64'])
            L.append(f'newm m {t}')
            for i in range(n):
                x = r.random()
                op = f'incm m {at()}' if x < 0.6 else f'setm m {int(t[0] in "if" and x < 0.7)} {r.choice([0, 1, 2, 5])} 0 {at()}' if x < 0.8 else f'zerom m {at()}'
                L.append(op + ('' if i % every == 0 else ' q'))
        L += ['obsall']
        return L

    def mix(self, focus=None):
        """The same questions again and again about graphs that change in between, often by moving an edge
        so that all counts stay the same."""
        r = self.r
        und = self.direction()
        n = r.choice([2, 3, 4, 6, 9])
        top = r.choice([n - 1, n - 1, 2 * n, 17])
        cells = [(a, b) for a in range(n) for b in range(n) if not und or a <= b]
        r.shuffle(cells)
        b, lvl, thr = r.choice([2, 2, 3, 4]), r.choice([1, 1, 2, 3]), r.choice(['1/4', '1/9', '1/2', '1/1'])
        q = {'str': ['str g'], 'enc': ['enc g'], 'pool': [f'pool g p {b}'], 'approx': [f'approx g x {b} {thr}'],
             'compress': [f'compress g c {lvl}', 'enc c', 'str c'], 'decompress': [f'compress g c {lvl}', 'decompress c d'],
             'clone': ['clone g k'], 'dec': ['decm g h same'], 'pooltext': [f'pool g p {b}', 'str p']}
        if focus:
            q = {k: v for k, v in q.items() if k in focus.split('+')}
        L = [self.reset('mix'), f'U 0 1 {n - 1} {top}', f'newg g {und}']
        on = cells[:r.randrange(0, len(cells) // 2 + 1)]
        L += [f'adde g {a} {c} q' for a, c in on] + [f'addv g {top} -']
        for _ in range(r.randrange(6, 12)):
            for k in r.sample(sorted(q), min(len(q), r.randrange(1, 4))):
                L += q[k]
            x = r.random()
            off = [e for e in cells if e not in on]
            if x < 0.5 and on and off:
                a, c = on.pop(r.randrange(len(on)))
                e = r.choice(off)
                on.append(e)
                ops = [f'dele g {a} {c} q', f'adde g {e[0]} {e[1]} q']
                r.shuffle(ops)
                L += ops
            elif x < 0.65 and on:
                a, c = on.pop(r.randrange(len(on)))
                L.append(f'dele g {a} {c}')
            elif x < 0.8 and off:
                e = r.choice(off)
                on.append(e)
                L.append(f'addv g {e[0]} 1 {e[1]}' if r.random() < 0.5 else f'adde g {e[0]} {e[1]}')
            elif x < 0.9:
                top += r.choice([0, 1, 3, 8])
                L.append(f'addv g {top} -')
            else:
                L += ['drop g', f'newg g {und}'] + [f'adde g {a} {c} q' for a, c in [(c2, a2) for a2, c2 in on]] + [f'addv g {top} - q']
                on = [(min(e), max(e)) if und else (e[1], e[0]) for e in on]
            if r.random() < 0.3:
                L.append('obs g')
        for k in sorted(q):
            L += q[k]
        return L + ['obsall']

    def derive(self, h='g0', S=(), vc=0, tag=''):
        """Calls that derive new objects from graph h."""
        r = self.r
        b = r.choice([0, 1, 2, 3, 5, 7, 8, max(vc, 1), vc + 3 if vc < MAX - 3 else vc])
        return r.choice([
            [f'clone {h} x{tag}'],
            [f'compress {h} x{tag} {self.level(S)}'],
            [f'compress {h} y{tag} {self.level(S)}', f'decompress y{tag} x{tag}'],
            [f'approx {h} x{tag} {b} {self.thr(S, b)}'],
            [f'pool {h} x{tag} {b}'],
            [f'decm {h} x{tag} same'],
            [f'enc {h}'],
            [f'str {h}'] if vc <= 24 else [f'enc {h}'],
        ])

    def iso(self):
        """Copies and derived objects, changed on either side; all objects observed."""
        r = self.r
        L, S, vc, und = self.graph('g0', small=r.random() < 0.6)
        pool = sorted({x for e in S for x in e})[:5] or [0, 1]
        out = [self.reset('iso'), self.probe(S, vc)] + L
        graphs, others, k = ['g0'], [], 0
        for _ in range(r.randrange(4, 9)):
            h = r.choice(graphs)
            k += 1
            x = r.random()
            if x < 0.5:
                d = self.derive(h, S, vc, str(k))
                out += d
                w = d[-1].split()
                if w[0] in ('clone', 'decompress', 'approx') or (w[0] == 'decm'):
                    graphs.append(w[2])
                elif w[0] in ('compress', 'pool'):
                    others.append(w[2])
                    if r.random() < 0.5:
                        out.append(f'clone {w[2]} z{k}')
                        others.append(f'z{k}')
                        if r.random() < 0.4:
                            out.append(f'drop {w[2]}')
            elif x < 0.75:
                a, b = r.choice(pool + [0, 1]), r.choice(pool + [0, 2])
                out.append(f'adde {h} {a} {b}')
            elif x < 0.9:
                a, b = r.choice(list(S)) if S else (0, 0)
                out.append(f'dele {h} {a} {b}')
            else:
                out.append(f'addv {h} {min(MAX - 1, vc + r.randrange(9))} -')
            out.append('obsall')
            if len(graphs) > 3:
                out.append(f'drop {graphs.pop(r.randrange(len(graphs)))}')
            if len(others) > 3:
                out.append(f'drop {others.pop(0)}')
        return out

    def a2g(self):
        r = self.r
        ids = self.ids(r.randrange(1, 5), r.choice(['small', 'small', 'block', 'mixed']))
        L = [self.reset('a2g'), self.universe(ids), 'newa a']
        E, ones = [], set()
        sym = r.random() < 0.6
        for _ in range(r.randrange(0, 7)):
            a, b = r.choice(ids), r.choice(ids)
            ones |= {(a, b), (b, a)} if sym else {(a, b)}
            L.append(f'seta a {r.choice([1, 1, 1, 2, 255])} {a} {b}')
            if sym:
                L.append(f'seta a 1 {b} {a}')
            E.append((a, b))
        if r.random() < 0.4:
            a, b = r.choice(ids + EDGY), r.choice(ids)
            L.append(f'seta a 0 {a} {b}')
            ones.discard((a, b))
        if E and r.random() < 0.4:
            a, b = r.choice(E)
            L.append(f'zeroa a {a} {b}')
            ones.discard((a, b))
            if r.random() < 0.5:
                L.append(f'zeroa a {b} {a}')
                ones.discard((b, a))
        if sym and E and r.random() < 0.5:
            # spoil the symmetry in one place, on either side of the diagonal
            a, b = r.choice(E + [(r.choice(ids), r.choice(ids))])
            if r.random() < 0.5:
                a, b = b, a
            if r.random() < 0.5:
                L.append(f'zeroa a {a} {b}')
                ones.discard((a, b))
            else:
                a, b = r.choice(ids), r.choice(ids)
                L.append(f'seta a 1 {a} {b}')
                ones.add((a, b))
        L += ['a2g a g0 und', 'a2g a g1 dir']
        for h in ('g0', 'g1'):
            a, b = r.choice(ids), r.choice(ids)
            L += [f'adde {h} {a} {b}', f'dele {h} {b} {a}', f'decm {h} h{h} same', f'compress {h} c{h} 1']
        a, b = r.choice(ids), r.choice(ids)
        L += [f'seta a 1 {a} {b}', 'a2g a g2 und', f'seta a 1 {b} {a}', 'a2g a g3 und', 'obsall']
        ones |= {(a, b), (b, a)}
        ones = {e for e in ones if MAX not in e}
        if all((y, x) in ones for x, y in ones):
            L += ['a2g a g4 unchecked', f'dele g4 {a} {b}', f'adde g4 {b} {ids[0]}']
        return L

    def level(self, S):
        r = self.r
        cnt = {}
        for a, b in S:
            cnt[(a // 8, b // 8)] = cnt.get((a // 8, b // 8), 0) + 1
        c = r.choice(list(cnt.values()) or [1])
        if self.api == 'py' and r.random() < 0.15:
            return r.choice([-1, -1000, 256, 257, 320, 100000])
        return max(0, min(255, r.choice([0, 1, 1, 2, c, c, c + 1, c + 1, c - 1, 32, 63, 64, 65, 128, 192, 255])))

    def thr(self, S, b):
        r = self.r
        b = max(b, 1)
        x = r.random()
        if x < 0.1:
            return r.choice(['0/1', '-1/2', '1/1', '2/1', 'inf', '-inf', '1/1000000000000000000',
                             '1/1000000000000000001', '1/10000000000000000000', '1000001/1000000', '-0/1'])
        cnt = {}
        for e in S:
            k = (e[0] // b, e[1] // b)
            cnt[k] = cnt.get(k, 0) + 1
        c, area = r.choice(list(cnt.values()) or [1]), b * b
        if area >= 2**40:
            return r.choice(['0/1', '1/10', '1/1', f'1/{10**18}', '3/10000000000000000000'])
        if x < 0.55:
            return f'{c}/{area}'
        if x < 0.75:     # just above or below; exact in binary if the area is a power of two
            d = r.choice([-1, 1])
            if area & (area - 1) == 0 and area < 2**20:
                return f'{c * 2**30 + d}/{area * 2**30}'
            return f'{c * 1000 + d}/{area * 1000}'
        if x < 0.9:
            return f'{r.randrange(0, min(area, 1000) + 2)}/{min(area, 1000)}'
        f = Fraction(r.randrange(0, 100), 100)
        return f'{f.numerator}/{f.denominator}'

    def side(self, S, vc):
        r = self.r
        return r.choice([0, 1, 2, 2, 3, 4, 5, 7, 8, 9, 16, max(vc - 1, 0), vc, min(vc + 1, MAX),
                         vc // 2 + 1, 2**32, MAX, 49, 2**16])

    def pool(self):
        L, S, vc, und = self.graph('g')
        L = [self.reset('pool'), self.probe(S, vc, (0, 1))] + L
        for i in range(self.r.randrange(2, 6)):
            b = self.side(S, vc)
            L += [f'pool g p{i} {b}']
        L += ['obs g']
        return L

    def approx(self):
        r = self.r
        L, S, vc, und = self.graph('g')
        L = [self.reset('approx'), self.probe(S, vc, (0, 1))] + L
        for i in range(r.randrange(3, 8)):
            b = self.side(S, vc)
            L += [f'approx g x{i} {b} {self.thr(S, min(b, max(vc, 1)))}']
            if r.random() < 0.2:
                L += [f'approx x{i} y{i} 2 1/4', f'adde x{i} 1 0']
        L += ['obs g']
        return L

    def bigpool(self):
        """Large, sparse graphs with block dimensions that are not powers of two."""
        r = self.r
        b = r.choice([2**32, 2**32 - 1, 10**9, 2 * 10**9, 3, 10, 1000003, 2**40 + 1, 2**63])
        und = self.direction()
        base = r.choice([b, 2 * b, 5 * b, b, 2 * b, 5 * b, 2**63, MAX - 7]) % (MAX - 3)
        E = [(base + r.randrange(-2, 3), r.choice([0, base])) for _ in range(r.randrange(1, 6))]
        E = [(max(a, 0), c) for a, c in E]
        top = max(max(e) for e in E)
        L = [self.reset('bigpool'), f'U 0 1 2 {top}'] + self.build('g', und, E, min(MAX - 1, top + r.randrange(3)))
        L += ['pool g p3 1', f'pool g p {b}', f'approx g x {b} ' + r.choice(['0/1', f'1/{10**18}', '3/10000000000000000000', '1/2', '-inf']),
              f'pool g p2 {top + 1}', f'approx g y {top + 1} 0/1', f'compress g c 1', 'decompress c d', 'enc c', 'decm c c2 same']
        return L

    def sparse(self):
        """Every operation on a few edges between huge ids."""
        r = self.r
        und = self.direction()
        ids = r.sample([2**20, 2**24 + 3, 2**27, 2**28 + 7, 2**31, 2**32 - 1, 2**32, 2**40, 2**48 + 5, 2**63, MAX - 1, 0, 1], 4)
        E = [(r.choice(ids), r.choice(ids)) for _ in range(r.randrange(1, 7))]
        E.append((r.choice(ids), max(ids)))
        top = max(ids)
        L = [self.reset('sparse'), self.universe(ids)] + self.build('g', und, E, r.choice([None, top, MAX - 1]))
        b = [r.choice([2, 3, 8, 2**16, 2**20, 2**31 - 1, 2**32, top // 2 + 1, top, MAX]) for _ in 'xxx']
        L += ['clone g k', f'dele k {E[0][0]} {E[0][1]}', 'enc g', 'decm g h same', f'adde h {r.choice(ids)} {top}',
              f'pool g p {b[0]}', f'pool g p2 {b[1]}', f'approx g x {b[2]} {r.choice(["0/1", "1/1000000000000000000", "1/4"])}',
              f'approx x y {b[0]} 0/1', 'compress g c 1', f'compress g c2 {r.choice([2, 64])}', 'decompress c d', 'decompress c2 d2',
              'enc c', 'decm c e same', 'decompress e f', 'clone c k2', 'clone p k3', f'addv d {top} 3 {ids[0]} {ids[1]} {ids[2]}']
        if top >= 2**28:
            L += ['str g', 'str c', 'str d', 'str p' if top // b[0] >= 2**24 else 'obs p']     # too large to print
        if self.api == 'rust':
            t = r.choice(['u8', 'i64', 'f64', 'i128'])
            L += ['newa a'] + [f'seta a 1 {a} {c}' for a, c in E] + ['clone a a2', f'zeroa a {E[0][0]} {E[0][1]}', 'a2g a2 g2 dir', 'a2g a2 g3 und',
                  f'newm m {t}'] + [f'incm m {a} {c}' for a, c in E] + ['clone m m2', f'zerom m {E[0][0]} {E[0][1]}',
                  f'newb b {und} {top} 1', f'addb b 1 {top // 8} {top // 8} -', 'finish b bc', 'enc bc', 'decm bc bd same', 'decompress bc bg']
            if top >= 2**24 + 3:
                L += ['str a2', 'str m', 'str m 9']
        return L + ['obsall']

    def claims(self):
        """Messages whose headers claim much more than there is."""
        r = self.r
        L, S, vc, und = self.graph('g', small=r.random() < 0.7)
        L = [self.reset('claims'), self.probe(S, vc, (2**20,))] + L + ['compress g c 1', 'enc c']
        for i in range(12):
            v = 2**r.randrange(14, 64) + r.choice([0, 0, -1, 1])
            h, f = r.choice([('g', (8,)), ('g', (8,)), ('g', (16,)), ('c', (8, 32)), ('c', (8, 32)), ('c', (16,)), ('c', (24,)), ('c', (8,)), ('c', (32,))])
            m = ' '.join(f'word {x} {-(-v // 8) if x == 8 and h == "c" else v}' for x in f)
            if r.random() < 0.2:
                m += f' recword {r.randrange(4)} {r.randrange(1, 3) if h == "c" else r.randrange(2)} {v // 8 - 1 if h == "c" else v - 1}'
            L.append(f'decm {h} x same {m}')
            x = r.random()
            if x < 0.3:
                L += ['enc x', 'clone x y']
            elif h == 'g':
                L += r.choice([[f'pool x p {r.choice([2, 2**10, 2**20])}'], [f'approx x y {r.choice([2, 3, 2**20])} 0/1'], ['compress x y 1', 'decompress y z'],
                               ['adde x 1 0', 'dele x 1 0'], [f'addv x {min(v + 1, MAX - 1)} -']])
            else:
                L += ['decompress x z', 'enc x']
            if v >= 2**28:
                L.append('str x')
        return L

    def compress(self):
        r = self.r
        L, S, vc, und = self.graph('g')
        L = [self.reset('compress'), self.probe(S, vc)] + L
        for i in range(r.randrange(3, 7)):
            L += [f'compress g c{i} {self.level(S)}']
            if r.random() < 0.4:
                L += [f'enc c{i}']
        return L + ['obs g']

    def cq(self):
        r = self.r
        L, S, vc, und = self.graph('g')
        L = [self.reset('cq'), self.probe(S, vc)] + L
        for i in range(r.randrange(2, 5)):
            L += [f'compress g c{i} {self.level(S)}', f'decompress c{i} d{i}']
            if r.random() < 0.5:
                L += [f'compress d{i} e{i} {r.choice([0, 1, self.level(S)])}', f'decompress e{i} f{i}', f'clone c{i} k{i}',
                      f'decompress k{i} m{i}', f'adde d{i} 3 1', f'obs c{i}']
        L += ['compress g c 1', 'decompress c d', 'compress g cz 0', 'decompress cz dz']
        return L

    def tiny(self):
        """Graphs with fewer vertices than a block."""
        r = self.r
        n = r.randrange(0, 8)
        und = self.direction()
        E = [(a, b) for a in range(n) for b in range(n) if r.random() < r.choice([0.2, 0.5, 1])]
        S = set(E) | ({(b, a) for a, b in E} if und else set())
        L = [self.reset('tiny'), 'U 0 1 2 6 7 8'] + self.build('g', und, E, n - 1 if n else None)
        for i in range(5):
            l = r.choice([0, 1, 2, len(S) - 1, len(S), len(S) + 1, 49, 64])
            L += [f'compress g c{i} {max(0, min(255, l))}', f'decompress c{i} d{i}', f'enc c{i}', f'str c{i}']
            b = r.choice([1, 2, 3, n, n + 1])
            L += [f'pool g p{i} {b}', f'approx g x{i} {b} {self.thr(S, max(1, min(b, n)))}']
        return L

    def builder(self):
        r = self.r
        und = self.direction()
        vc = r.choice([0, 1, 7, 8, 9, 16, 17, 24, 64, 65, 2**32, MAX, MAX - 7])
        lim = max(1, -(-vc // 8))
        lvl = r.choice([0, 1, 5, 63, 64, 65, 200, 255])
        L = [self.reset('builder'), None, f'newb b {und} {vc} {lvl}']
        cells = set()
        for _ in range(r.randrange(0, 5)):
            c, w = [r.choice([0, 1, 2, lim - 1, lim // 2, r.randrange(0, 4)]) for _ in 'xx']
            c, w = min(c, lim - 1), min(w, lim - 1)
            outside = vc < 2**40 and r.random() < 0.08
            if outside:     # a block beyond the declared vertices
                c, w = r.choice([(lim + r.randrange(3), w), (c, lim + r.randrange(3)), (lim, lim)])
            if (c, w) in cells or (und and (w, c) in cells and c != w):
                continue
            e = r.choice([1, 2**63, MAX, 0x8040201008040201, r.getrandbits(64), r.getrandbits(64) & r.getrandbits(64), 1 << r.randrange(64)])
            # keep the bits within the vertex count, unless the point is to exceed it
            if not outside and (r.random() < 0.85 or vc > 2**60):
                e = sum(1 << k for k in range(64) if e >> k & 1 and 8 * c + k % 8 < vc and 8 * w + k // 8 < vc)
            if und and c == w:
                e |= transpose(e)
            if e == 0 and r.random() < 0.7:
                continue
            wt = '-' if r.random() < 0.6 else str(bin(e).count('1'))
            L.append(f'addb b {e} {c} {w} {wt}')
            cells.add((c, w))
            if und and c != w:
                L.append(f'addb b {transpose(e)} {w} {c} {wt}')
                cells.add((w, c))
        for c, w in list(cells)[:2]:
            if r.random() < 0.25 and (not und or c <= w):      # the same position once more, possibly emptied
                e = r.choice([0, 1, 1, 3, 2**9])
                if 8 * c + 1 >= vc or 8 * w + 1 >= vc:
                    e &= 1
                if und and c == w:
                    e |= transpose(e)
                wt = r.choice(['-', '-', '0', '1'])
                L.append(f'addb b {e} {c} {w} {wt}')
                if und and c != w:
                    L.append(f'addb b {transpose(e)} {w} {c} {wt}')
        u = list(dict.fromkeys([x for c, w in list(cells)[:2] for x in (min(8 * c, MAX), min(8 * w + 7, MAX))] + [0, vc, 9]))[:6]
        L[1] = 'U ' + ' '.join(map(str, u))
        L += ['finish b c', 'enc c', 'decompress c d', 'clone c k', 'decm c c2 same', 'decompress c2 d2', 'obsall']
        if lim <= 8:
            L.append('str c')
        return L

    def genc(self):
        L, S, vc, und = self.graph('g')
        r = self.r
        L = [self.reset('genc'), self.probe(S, vc)] + L
        L += ['enc g', 'decm g h same', 'enc h']
        if S:
            a, b = r.choice(sorted(S))
            L += [f'dele g {a} {b}', 'enc g', 'decm g h2 same', f'adde h2 {b} {a}', 'enc h2']
        L += [f'compress g c 1', 'decompress c d', 'enc d', 'obsall']
        return L

    def cenc(self):
        L, S, vc, und = self.graph('g')
        r = self.r
        L = [self.reset('cenc'), self.probe(S, vc)] + L
        for i in range(2):
            L += [f'compress g c{i} {self.level(S)}', f'enc c{i}', f'decm c{i} k{i} same', f'enc k{i}', f'decompress k{i} d{i}']
        L += ['obsall']
        return L

    def headermut(self, hdr):
        r = self.r
        fields = [8, 16] if hdr == 26 else [8, 16, 24, 32]
        x = r.random()
        if x < 0.25:
            return f'xor {r.randrange(hdr)} {1 << r.randrange(8)}'
        if x < 0.40:
            p = r.choice([hdr - 2, hdr - 1, 3, 7, 0])
            return f'set {p} {r.choice([0, 1, 2, 3, 64, 65, 128, 255])}'
        if x < 0.65:
            return f'addword {r.choice(fields)} {r.choice([-1, 1, 8, -8, 2, 256, 2**32, 2**60, 2**61])}'
        return (f'word {r.choice(fields)} '
                f'{r.choice([0, 1, 2**16, 2**20, 2**24, 2**27, 2**28, 2**31, 2**32, 2**56, 2**59, 2**60, 2**60 + 1, 2**61, 2**63, MAX, MAX - 1, (2**64) // 24 + 1, (2**64) // 16, 7, 8, 9, 16])}')

    def mutations(self, hdr):
        r = self.r
        rec = 16 if hdr == 26 else 24
        x = r.random()
        if x < 0.35:
            return self.headermut(hdr)
        if x < 0.45:
            return r.choice([f'trunc {r.choice([1, 2, 7, 8, rec - 1, rec, rec + 1])}', f'keep {r.randrange(0, hdr + 3)}',
                             f'ext {"00" * r.choice([1, 8, rec, 2 * rec])}', f'ext {"00" * (rec - 1)}01'])
        if x < 0.55:
            return f'cprec {r.randrange(8)} {r.randrange(8)}'
        if x < 0.62:
            return f'duprec {r.randrange(8)}'
        if x < 0.70:
            return f'rmrec {r.randrange(8)} {r.randrange(2)}'
        if x < 0.80:
            return f'recxor {r.randrange(8)} {r.randrange(rec)} {1 << r.randrange(8)}'
        if x < 0.92:
            return (f'recword {r.randrange(8)} {r.randrange(rec // 8)} '
                    f'{r.choice([0, 1, 2, 3, 7, 8, 2**60, 2**61 - 1, 2**61, 2**63, MAX, MAX - 1])}')
        if hdr == 42:
            return f'clrbit {r.randrange(8)} {r.randrange(64)}'
        return f'xor {r.randrange(60)} {r.randrange(1, 256)}'

    def gdec(self):
        r = self.r
        small = r.random() < 0.8
        L, S, vc, und = self.graph('g', small=small) if small else self.graph('g', r.choice(['sparse', 'big', 'one', 'corner', 'none']))
        L = [self.reset('gdec'), self.probe(S, vc)] + L
        for i in range(r.randrange(10, 18)):
            m = ' '.join(self.mutations(26) for _ in range(r.choice([1, 1, 1, 2, 3])))
            L.append(f'decm g h{i % 3} same {m}')
            if r.random() < 0.3:
                L += [f'enc h{i % 3}', f'decm h{i % 3} k same', 'obs k']
            if r.random() < 0.2:
                L += [f'adde h{i % 3} 1 0', f'compress h{i % 3} c 1']
        L += ['decm g h c', 'decm g h c set 0 113 set 1 255 set 2 122 set 3 237 set 7 2']
        return L

    def gdecraw(self):
        """Messages made from scratch."""
        r = self.r
        L = [self.reset('gdecraw'), 'U 0 1 2 3 7 8']
        for i in range(12):
            n = r.randrange(0, 5)
            dim = r.choice([0, 1, 2, 3, 4, 8, MAX, 2**63])
            und = r.choice([0, 0, 1, 1, 2])
            pool = [0, 1, 2, dim - 1 if dim else 0, dim, r.choice(EDGY)]
            recs = [(r.choice(pool[:4]), r.choice(pool[:4])) if r.random() < 0.85 else (r.choice(pool), r.choice(pool)) for _ in range(n)]
            if und == 1 and r.random() < 0.8:
                recs += [(b, a) for a, b in recs if a != b]
            if r.random() < 0.7:
                recs = list(dict.fromkeys(recs))
            cnt = len(recs) if r.random() < 0.9 else r.choice([0, len(recs) + 1, 2**60, 2**59])
            b = (0x7ae71ffd).to_bytes(4, 'big') + (1).to_bytes(4, 'big') + dim.to_bytes(8, 'big') + cnt.to_bytes(8, 'big') + bytes([und, r.choice([0, 0, 0, 0, 1])])
            for x, y in recs:
                b += x.to_bytes(8, 'big') + y.to_bytes(8, 'big')
            L.append(f'dec g h{i} {b.hex()}')
            if r.random() < 0.3:
                L += [f'enc h{i}', f'addv h{i} 9 -']
        L.append('dec g e ' + (bytes(r.getrandbits(8) for _ in range(r.randrange(1, 60))).hex()))
        L.append('dec g e -')
        L.append('dec g e 7ae71ffd')
        return L

    def cdec(self):
        r = self.r
        L, S, vc, und = self.graph('g', r.choice(['sparse', 'counted', 'blocks', 'corner', 'big', 'diag', 'star', 'one', 'full']))
        L = [self.reset('cdec'), self.probe(S, vc)] + L
        L += [f'compress g c {r.choice([0, 1, 1, 2, self.level(S)])}']
        for i in range(r.randrange(9, 16)):
            m = ' '.join(self.mutations(42) for _ in range(r.choice([1, 1, 1, 2, 3])))
            L.append(f'decm c k{i % 3} same {m}')
            if r.random() < 0.3:
                L += [f'enc k{i % 3}', f'decompress k{i % 3} d']
        L += ['decm c h g', 'decm c h g set 0 122 set 1 231 set 2 31 set 3 253 set 7 1']
        return L

    def cdecraw(self):
        r = self.r
        L = [self.reset('cdecraw'), 'U 0 1 7 8 9 16']
        for i in range(12):
            vc = r.choice([0, 1, 7, 8, 9, 15, 16, 17, 20, MAX])
            lim = max(1, -(-vc // 8))
            und = r.choice([0, 0, 1, 1, 2])
            recs = []
            for _ in range(r.randrange(0, 4)):
                c, w = r.choice([0, 1, lim - 1, lim]), r.choice([0, 1, lim - 1])
                e = r.choice([1, MAX, 1 << r.randrange(64), r.getrandbits(64) & r.getrandbits(64), 0])
                if r.random() < 0.8:
                    c, w = min(c, lim - 1), min(w, lim - 1)
                    e = sum(1 << k for k in range(64) if e >> k & 1 and 8 * c + k % 8 < vc and 8 * w + k // 8 < vc)
                    if e == 0 and r.random() < 0.8:
                        continue
                if und == 1 and c == w and r.random() < 0.8:
                    e |= transpose(e)
                if r.random() < 0.25 and vc < 2**60:    # one bit at the edge of the vertices, or just past it
                    a, b = [min(r.choice([vc - 1, vc, 0, vc, vc + 1]), 8 * lim - 1) for _ in 'xx']
                    a, b = max(a, 0), max(b, 0)
                    c, w, e = a // 8, b // 8, e * (a // 8 == c and b // 8 == w) | 1 << (a % 8 + 8 * (b % 8))
                    if und == 1 and c == w:
                        e |= transpose(e)
                recs.append((e, c, w))
                if und == 1 and c != w and r.random() < 0.8:
                    recs.append((transpose(e), w, c))
            if r.random() < 0.7:
                recs = list({(c, w): (e, c, w) for e, c, w in recs}.values())
            cnt = len(recs) if r.random() < 0.9 else len(recs) + 1
            ec = sum(bin(e).count('1') for e, _, _ in recs) + (0 if r.random() < 0.9 else r.choice([1, -1, 2**32]))
            ec = max(ec, 0)
            dim = lim if r.random() < 0.9 else r.choice([0, lim + 1, lim - 1])
            b = (0x71ff7aed).to_bytes(4, 'big') + r.choice([2, 2, 2, 2, 2, 2, 1, 3]).to_bytes(4, 'big')
            for x in (dim, cnt, ec, vc):
                b += max(x, 0).to_bytes(8, 'big')
            b += bytes([und, r.choice([1, 5, 64, 1, 5, 64, 0, 65])])
            for rec in recs:
                for x in rec:
                    b += x.to_bytes(8, 'big')
            L.append(f'dec c k{i} {b.hex()}')
            if r.random() < 0.4:
                L += [f'enc k{i}', f'decompress k{i} d{i}']
        L.append('dec c e ' + (bytes(r.getrandbits(8) for _ in range(r.randrange(1, 90))).hex()))
        L.append('dec c e -')
        return L

    def longmsg(self):
        """Messages of hundreds of records with at most one flaw, most often near the end."""
        r = self.r
        L = [self.reset('longmsg'), 'U 0 1 7 8 300']

        def at(n):
            return r.choice([n - 1, n - 1, n - 2, n // 2, 0, r.randrange(n)])
        for i in range(3):
            n = r.choice([20, 70, 130, 257, 300, 520, 1030])
            vc = r.choice([40, 300, 301, 304, 2**20, 2**40 + 3])
            und = r.choice([0, 1])
            flaw = r.choice(['', '', 'out', 'out', 'twice', 'one-way', 'count', 'cut', 'more', 'zero', 'edges'])
            if r.random() < 0.5:
                recs = set()
                for _ in range(n):
                    x, y = r.randrange(vc), r.randrange(vc)
                    recs |= {(x, y), (y, x)} if und else {(x, y)}
                recs = sorted(recs)
                r.shuffle(recs)
                k = at(len(recs))
                if flaw in ('out', 'zero'):
                    z = r.choice([vc, vc + 1, MAX, MAX - 1])
                    other = recs[k][r.randrange(2)]
                    bad = r.choice([(z, other), (other, z), (z, z)])
                    if und:
                        recs = [x for x in recs if x not in (recs[k], recs[k][::-1])]
                        recs.insert(min(k, len(recs)), bad)
                        if bad[0] != bad[1]:
                            recs.insert(min(k, len(recs)), bad[::-1])
                    else:
                        recs[k] = bad
                elif flaw == 'twice':
                    recs[k] = recs[r.randrange(len(recs))]
                elif flaw == 'one-way' and recs[k][0] != recs[k][1]:
                    del recs[k]
                cnt = len(recs) + (r.choice([1, -1, 65536]) if flaw in ('count', 'edges') else 0)
                b = (0x7ae71ffd).to_bytes(4, 'big') + (1).to_bytes(4, 'big') + vc.to_bytes(8, 'big') + cnt.to_bytes(8, 'big') + bytes([und, 0])
                k, size = 'g', 16
            else:
                lim = -(-vc // 8)
                blocks = {}
                for _ in range(min(n, 260, lim * lim // 3)):
                    c, w = r.randrange(lim), r.randrange(lim)
                    e = r.choice([1, 1 << r.randrange(64), r.getrandbits(64), MAX])
                    e = sum(1 << j for j in range(64) if e >> j & 1 and 8 * c + j % 8 < vc and 8 * w + j // 8 < vc)
                    if und and c == w:
                        e |= transpose(e)
                    if e:
                        blocks[c, w] = e
                        if und:
                            blocks[w, c] = transpose(e)
                recs = [(e, c, w) for (c, w), e in blocks.items()]
                r.shuffle(recs)
                k = at(len(recs))
                e, c, w = recs[k]
                if flaw == 'zero':
                    recs[k] = (0, c, w)
                elif flaw == 'out':
                    if vc % 8 and r.random() < 0.6:
                        recs[k] = (1 << r.choice([7, 63, 56, vc % 8, 8 * (vc % 8)]), lim - 1, lim - 1)
                    else:
                        recs[k] = r.choice([(e, lim, w), (e, c, lim), (e, MAX, w), (e, c, 2**61)])
                elif flaw == 'twice':
                    recs[k] = (r.choice([e, 1]),) + recs[r.randrange(len(recs))][1:]
                elif flaw == 'one-way':
                    recs[k] = (e ^ (1 << r.choice([0, 1, 8, 9])) or 1, c, w)
                recs = recs if r.random() < 0.5 else sorted(recs, key=lambda x: (x[1], x[2]))
                ec = sum(bin(e).count('1') for e, _, _ in recs) + (r.choice([1, -1, 64, 65536]) if flaw == 'edges' else 0)
                cnt = len(recs) + (r.choice([1, -1]) if flaw == 'count' else 0)
                b = (0x71ff7aed).to_bytes(4, 'big') + (2).to_bytes(4, 'big')
                for x in (lim, cnt, max(ec, 0), vc):
                    b += x.to_bytes(8, 'big')
                b += bytes([und, r.choice([1, 5, 64])])
                k, size = 'c', 24
            for rec in recs:
                for x in rec:
                    b += x.to_bytes(8, 'big')
            if flaw == 'cut':
                b = b[:-r.choice([1, 8, size])]
            if flaw == 'more':
                b += b[-r.choice([1, 8, size]):]
            L.append(f'dec {k} h{i} {b.hex()}')
            if k == 'c' and r.random() < 0.3:
                L.append(f'decompress h{i} d{i}')
            L.append(f'drop h{i}')
        return L

    def adj(self):
        r = self.r
        ids = self.ids(r.randrange(2, 6))
        L = [self.reset('adj'), self.universe(ids), 'newa a']
        for i in range(r.randrange(8, 24)):
            a, b = r.choice(ids), r.choice(ids)
            x = r.random()
            if x < 0.5:
                L.append(f'seta a {r.choice([1, 1, 2, 7, 128, 255])} {a} {b}')
            elif x < 0.65:
                L.append(f'seta a 0 {a} {b}')
            elif x < 0.9:
                L.append(f'zeroa a {a} {b}')
            else:
                L += ['clone a k', f'seta a 1 {b} {a}', 'obs k', f'zeroa k {a} {b}', 'obs a']
        return L

    def num(self, t):
        """A value of type t: sign, mantissa, exponent of two."""
        r = self.r
        if t[0] in 'ui':
            bits = int(t[1:])
            hi = 2**bits - 1 if t[0] == 'u' else 2**(bits - 1) - 1
            m = r.choice([0, 1, 2, 7, 9, 10, 99, 100, hi, hi - 1, hi // 2, hi // 10, r.randrange(hi + 1)])
            neg = t[0] == 'i' and r.random() < 0.5
            if neg and r.random() < 0.1:
                m = hi + 1
            return int(neg and m > 0), m, 0
        mant = 24 if t == 'f32' else 53
        x = r.random()
        if self.api == 'rust' and r.random() < 0.14:
            return r.choice([(0, 'nan', 0), (0, 'inf', 0), (1, 'inf', 0), (1, 0, 0)])
        neg = r.random() < 0.4
        if x < 0.3:
            m, e = r.randrange(0, 2000), -r.choice([0, 1, 2, 3, 4, 7])
        elif x < 0.45:
            m, e = r.choice([1, 3, 5, 9, 99, 999, 9999]), -r.choice([0, 1, 2, 3, 10])
        elif x < 0.6:
            v = r.choice([9.99, 9.995, 9.999, 0.5, 0.05, 0.005, 99.5, 1.5, 2.5, 0.125, 0.375, 1e-3, 0.1, 0.3, 0.847724, 1.3, 10.12, 99.99, 0.01])
            if t == 'f32':
                import struct
                v = struct.unpack('f', struct.pack('f', v))[0]
            m, q = v.as_integer_ratio()
            e = -(q.bit_length() - 1)
        elif x < 0.7:
            m, e = r.getrandbits(mant), r.choice([-60, -20, 0, 10, 60])
        elif x < 0.75 and t == 'f64':
            m, e = r.getrandbits(50) | 1, r.choice([900, -900, 300, 127, 130, 80])
        elif x < 0.75:
            m, e = r.getrandbits(20) | 1, r.choice([100, -100, 90])
        else:
            m, e = r.randrange(0, 300), 0
        return int(neg and m > 0), m, e

    TYPES = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64']

    def matwide(self, kind=None):
        """Matrices of hundreds of columns and rows, set up in any order and taken apart again."""
        r = self.r
        n = r.choice([65, 130, 256, 257, 257, 300, 300])
        cells = {'diag': [(i, i) for i in range(n)], 'col': [(3, i) for i in range(n)], 'row': [(i, 3) for i in range(n)],
                 'anti': [(i, n - 1 - i) for i in range(n)], 'some': [(r.randrange(n), r.randrange(n)) for _ in range(n)]}[r.choice(['diag', 'col', 'row', 'anti', 'some'])]
        if r.random() < 0.5:
            r.shuffle(cells)
        adj = r.random() < 0.4 if kind is None else kind == 'adj'
        t = r.choice(self.TYPES)
        L = [self.reset('matwide'), f'U 0 3 {n - 1} {n}', 'newa m' if adj else f'newm m {t}']
        for x, y in cells:
            L.append(f'seta m {r.choice([1, 1, 2])} {x} {y} q' if adj else f'setm m 0 {r.choice([1, 2, 9])} 0 {x} {y} q' if r.random() < 0.3 else f'incm m {x} {y} q')
        for x, y in r.sample(cells, 4):
            L.append(f'seta m 1 {x} {y} q' if adj else f'incm m {x} {y} q')
        L += ['obs m', 'clone m k']
        for x, y in r.sample(cells, len(cells) - r.choice([0, 1, 3])):
            L.append(f'{"zeroa" if adj else "zerom"} m {x} {y} q')
        L += ['obs m', 'obs k'] + (['a2g k g dir'] if adj else [])
        return L

    def mat(self):
        """CsrSquareMatrix of any numeric type."""
        r = self.r
        t = r.choice(self.TYPES)
        ids = self.ids(r.randrange(2, 5))
        L = [self.reset('mat'), self.universe(ids), f'newm m {t}']
        val = {}
        for i in range(r.randrange(8, 24)):
            a, b = r.choice(ids), r.choice(ids)
            x = r.random()
            ok = MAX not in (a, b)
            if x < 0.4:
                n = self.num(t) if r.random() < 0.8 else ((0, 0, 0) if r.random() < 0.5 or t[0] == 'u' else (1, 1, 0))
                L.append(f'setm m {n[0]} {n[1]} {n[2]} {a} {b}')
                if ok:
                    val[(a, b)] = n
            elif x < 0.75:
                # overflow is left open
                neg, m, e = val.get((a, b), (0, 0, 0))
                if t[0] in 'ui':
                    bits = int(t[1:])
                    hi = 2**bits - 1 if t[0] == 'u' else 2**(bits - 1) - 1
                    if not neg and m == hi:
                        continue
                    v = (-m if neg else m) + 1
                    nv = (int(v < 0), abs(v), 0)
                else:
                    nv = 0, 1, 0     # (not needed)
                L.append(f'incm m {a} {b}')
                if ok:
                    val[(a, b)] = nv
            elif x < 0.92:
                L.append(f'zerom m {a} {b}')
                val.pop((a, b), None)
            else:
                L += ['clone m k', f'incm k {a} {b}' if (a, b) not in val else f'zerom k {a} {b}', 'obs m', 'drop k']
        return L

    def text(self):
        """matrix_string of graphs, compressed graphs and adjacency matrices."""
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 9, 10, 11, 17, 24])
        und = self.direction()
        p = r.choice([0, 0.1, 0.5, 1])
        E = [(a, b) for a in range(n) for b in range(n) if r.random() < p][:150]
        L = [self.reset('text'), 'U 0 1'] + self.build('g', und, E, n - 1 if n else None) + ['str g']
        L += [f'compress g c {r.choice([1, 2, 30])}', 'str c', 'decompress c d', 'str d']
        if E:
            a, b = r.choice(E)
            L += [f'dele g {a} {b}', 'str g']
        L += ['newa a'] + [f'seta a 1 {a} {b}' for a, b in E[:12]] + ['str a'] + ([f'zeroa a {E[0][0]} {E[0][1]}', 'str a',
              f'seta a 1 {E[0][1]} {E[0][0]}', 'str a'] if E else []) + [ f'seta a 0 {min(n + 2, 30)} 0', 'str a']
        big = r.choice([2**24, 2**32 - 1, 2**32, 2**40, 2**63, MAX - 1])
        L += ['newg z 0', f'addv z {big} -', 'str z', f'adde z {big} 0', 'str z', 'compress z cz 1',
              'newa za', f'seta za 1 0 {big}', 'str za']
        if big >= 2**32:
            L += ['str cz']
        return L

    def bigtext(self):
        """Texts with hundreds of rows and columns and few entries."""
        r = self.r
        n = r.choice([65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]) if self.api != "rust" else r.choice([65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 258, 300, 512, 600, 999, 1000, 1001, 1025, 1025, 1030, 1030])
        und = self.direction()
        pool = sorted({0, 1, 9, 10, 63, 64, 99, 100, 127, 128, 254, 255, 256, 257, n // 2, n - 2, n - 1})
        pool = [x for x in pool if 0 <= x < n]
        E = [(r.choice(pool), r.choice(pool)) for _ in range(r.randrange(0, 9))]
        if r.random() < 0.8:            # the last cells of the page
            far = [n - 1, n - 1, n - 2, n - 20]
            E += [(r.choice(far), r.choice(far)) for _ in range(3)]
        L = [self.reset('bigtext'), 'U 0 1', f'newg g {und}'] + [f'adde g {a} {b} q' for a, b in E] + [f'addv g {n - 1} - q', 'str g']
        b = r.choice([1, 2, 1])
        L += [f'pool g p {b}', f'str p {r.choice([0, 1, 2])}' if n > 400 else 'str p', f'compress g c {r.choice([1, 1, 2])}', 'str c']
        if E:
            L += [f'dele g {E[0][0]} {E[0][1]} q', 'str g']
        if self.api == 'rust':
            t = r.choice(self.TYPES)
            L += ['newa a'] + [f'seta a 1 {x} {y}' for x, y in E] + [f'seta a 0 {n - 1} 0', 'str a', f'newm m {t}']
            for x, y in E[:5]:
                s = self.num(t)
                if s[2] + len(str(s[1])) > 20:
                    s = (0, 1, 0)
                L.append(f'setm m {s[0]} {s[1]} {s[2]} {x} {y}')
            if n <= 400:
                L += [f'setm m 0 0 0 0 {n - 1}', 'str m', 'str m 0']
        return L

    def numtext(self):
        r = self.r
        t = r.choice(self.TYPES + ['f64', 'f64', 'f32', 'i32', 'i128'])
        n = r.choice([1, 2, 3, 3, 4, 5])
        L = [self.reset('numtext'), 'U 0 1', f'newm m {t}']
        if t[0] == 'f' and r.random() < 0.2:        # all the digits the smallest values have, and more
            k = 1074 if t == 'f64' else 149
            for i in range(r.choice([1, 2])):
                m, e = r.choice([(1, -k), (r.getrandbits(20) | 1, -k), (r.getrandbits(22) | 1, -k + r.randrange(40)), (3, -k + r.randrange(k)), ((1 << 53) - 1 if k == 1074 else (1 << 24) - 1, -k)])
                L += [f'setm m {r.choice([0, 0, 1])} {m} {e} {i} 0', f'str m {r.choice([k, k - 1, k + 1, k + 200, k // 3, k - 30])}']
            return L
        cells = [(a, b) for a in range(n) for b in range(n)]
        used = []
        tiny = t[0] == 'f' and r.random() < 0.25        # nothing wider than what is no number
        for i in range(r.randrange(0, 6)):
            a, b = r.choice(cells)
            s = self.num(t) if not tiny else r.choice([(0, 'nan', 0), (0, 'inf', 0), (1, 'inf', 0), (r.randrange(2), r.randrange(10), 0), (0, r.randrange(1, 20), -1)])
            if tiny:
                L.append(f'str m {r.choice([0, 0, 1, 2])}')
            L.append(f'setm m {s[0]} {s[1]} {s[2]} {a} {b}')
            used.append((a, b))
            if r.random() < 0.5:
                L += ['str m'] if r.random() < 0.4 else [f'str m {r.choice([0, 1, 2, 3, 5, 8, 17])}']
        L += ['str m', f'str m {r.choice([0, 1, 2, 4])}', 'str m 0', f'str m {r.choice([30, 64, 300])}']
        for a, b in used:
            L.append(f'zerom m {a} {b}')
        L += ['str m', 'str m 1']
        big = r.choice([2**24, 2**32, 2**40, 2**63, MAX - 1])
        L += [f'setm m 0 1 0 {big} 0', 'str m', 'str m 3']
        return L

    def pooltext(self):
        L, S, vc, und = self.graph('g', self.r.choice(['sparse', 'dense', 'full', 'blocks', 'diag', 'corner']))
        r = self.r
        L = [self.reset('pooltext'), self.probe(S, vc, (0, 1))] + L
        for i in range(3):
            b = r.choice([2, 3, 4, 5, 7, 8, 0, vc])
            L += [f'pool g p{i} {b}', f'str p{i}', f'str p{i} {r.choice([0, 1, 2, 3, 6, 12, 17, 40, 256, 300])}', f'clone p{i} q{i}', f'str q{i} 3']
        return L

    # -- C and Python ----------------------------------------------------------------------
    def bare(self):
        """Every call on things with nothing in them: no vertices, no edges, or none left."""
        r = self.r
        und = self.direction()
        how = r.choice(['none', 'none', 'isolated', 'emptied'])
        n = 0 if how == 'none' else r.choice([1, 2, 7, 8, 9])
        L = [self.reset('bare'), 'U 0 1 8', f'newg g {und}']
        if how == 'isolated':
            L += [f'addv g {n - 1} -']
        elif how == 'emptied':
            L += [f'adde g 0 {n - 1}', f'dele g 0 {n - 1}']
        calls = ['obs g', 'str g', 'enc g', 'decm g h same', 'clone g k', f'compress g c {r.choice([0, 1, 64])}', f'pool g p {r.choice([0, 1, 2, 9])}',
                 f'approx g x {r.choice([0, 1, 2, 9])} 1/4', 'dele g 0 0', 'noout g'] + (['null'] if self.api == 'c' else [])
        if self.api == 'rust':
            calls = [c for c in calls if c != 'noout g']
        r.shuffle(calls)
        i = next(k for k, c in enumerate(calls) if c.startswith('compress'))
        j = next(k for k, c in enumerate(calls) if c.startswith('pool'))
        more = [(i, ['str c', 'enc c', 'decm c e same', 'decompress c d', 'clone c l', 'obs c', 'str d', 'str l']), (j, ['str p', 'str p 0', 'str p 5', 'clone p q', 'obs p', 'str q'])]
        for k, cs in sorted(more, reverse=True):
            r.shuffle(cs)
            first = [c for c in cs if c in ('decompress c d', 'clone c l', 'clone p q')]
            calls[k + 1:k + 1] = first + [c for c in cs if c not in first]
        L += calls
        if self.api != 'rust':
            holds = [f'hold g b{k} {x}' for k, x in enumerate(['bytes', 'str', 'edges', 'in 0', f'in {n + 1}', 'out 0', f'out {n + 1}'])] + \
                    ['hold c b7 bytes', 'hold c b8 str', 'hold p b9 entries', 'hold p b10 str', 'hold p b11 str 3']
            r.shuffle(holds)
            L += holds
            rels = [f'rel b{k}' for k in range(12)] + ['drop g', 'drop p', 'drop c']
            r.shuffle(rels)
            L += rels + ['obsall']
        return L

    # -- threads (see drivers/rust/src/tdriver.rs) ------------------------------------------
    def relay(self, of=None):
        """Any history, its calls made by threads that take turns."""
        r = self.r
        of = of or r.choice(['hist', 'iso', 'mix', 'mix', 'teardown', 'cq', 'bare', 'genc'] + (['mat', 'adj', 'builder'] if self.api == 'rust' else []))
        L = [x for x in getattr(self, of)() if x.split()[0] not in ('hold', 'rel', 'idx', 'walk', 'iter', 'next', 'null', 'noout')]
        n, k = r.choice([2, 2, 3, 4]), 0
        roles = r.random() < 0.5    # some threads only ask, the others only change
        out = [self.reset(f'relay-{of}')]
        for x in L[1:]:
            if roles and r.random() < 0.97:
                change = x.split()[0] in ('newg', 'adde', 'dele', 'addv', 'drop', 'seta', 'setm', 'incm', 'zerom', 'zeroa', 'addb', 'newb')
                k = 0 if change else r.randrange(1, n) if r.random() < 0.1 else 1
            elif r.random() < 0.7:
                k = r.randrange(n)
            out.append(x if x.startswith('U ') else f'@{k} {x}')
        return out

    def tight(self):
        """The same few calls, with different arguments, by many threads at once and very often."""
        r = self.r
        und = self.direction()
        n = r.choice([3, 5, 8, 9, 12])
        cells = [(a, b) for a in range(n) for b in range(n)]
        on = r.sample(cells, r.randrange(1, min(40, len(cells))))
        L = [self.reset('tight'), f'U 0 {n - 1}', f'newg g {und}'] + [f'adde g {a} {b} q' for a, b in on] + [f'addv g {n} - q']
        q = {'g': {'compress': [f'compress g z {x}' for x in (1, 2, 3, 5, 20, 64)],
                   'pool': [f'pool g y {x}' for x in (1, 2, 3, 4, 8)],
                   'approx': [f'approx g x {b} {t}' for b in (1, 2, 3) for t in ('1/9', '1/4', '1/2', '1/1')],
                   'one': ['enc g', 'obs g', 'clone g k', 'str g', 'compress g z 1', 'pool g y 2', 'approx g x 2 1/4'],
                   'dec': [x for f in (self.gdecraw, self.cdecraw) for _ in range(3) for x in f() if x.startswith('dec ') and len(x) < 2000]},
             'c': {'c': ['enc c', 'decompress c d', 'clone c k', 'obs c', 'str c']},
             'p': {'p': ['str p', 'str p 0', 'str p 1', 'str p 3', 'str p 9', 'obs p', 'clone p k']}}
        L += [f'compress g c {r.choice([1, 2, 5])}', f'pool g p {r.choice([1, 2, 3])}']
        if self.api == 'rust':
            L += ['newa a', f'newm m {r.choice(self.TYPES)}'] + [f'seta a 1 {a} {b} q' for a, b in on] + [f'incm m {a} {b} q' for a, b in on]
            q['a'] = {'a': ['obs a', 'str a', 'a2g a h dir', 'a2g a h und', 'clone a k']}
            q['m'] = {'m': ['obs m', 'str m', 'str m 0', 'str m 2', 'str m 7']}
        m = 150 if self.api == 'rust' else 60 if self.api == 'c' else 6
        for h in r.sample(sorted(q), 2) + ['g', 'g']:
            calls = q[h][r.choice(sorted(q[h]))]
            L.append(f'share {h} {r.choice([4, 8])} {m} ; ' + ' ; '.join(r.sample(calls, min(len(calls), r.randrange(2, 6)))))
        return L

    def apart(self):
        """Short histories of objects that are each one thread's own, gone through very often."""
        r = self.r
        und = self.direction()
        n = r.choice([2, 3, 5, 8])
        L = [self.reset('apart'), f'U 0 {n - 1}']
        kinds = ['g'] + (['a', 'm', 'b'] if self.api == 'rust' else [])
        k = r.choice(kinds + ['g', 'g'])
        e = lambda: f'{r.randrange(n)} {r.randrange(n)}'
        if k == 'g':
            L.append(f'newg g {und}')
            for _ in range(r.randrange(4, 24)):
                x = r.random()
                L.append(f'adde g {e()} q' if x < 0.5 else f'dele g {e()} q' if x < 0.8 else
                         f'addv g {r.randrange(n + 2)} 2 {e()} q')
            L += ['obs g'] + r.sample([f'compress g c {r.choice([1, 2, 9])}', f'pool g p {r.choice([1, 2, 3])}',
                                       f'approx g x {r.choice([1, 2, 3])} {r.choice(["1/4", "1/2"])}', 'enc g', 'decm g h same', 'clone g k', 'str g'], 2)
            if any(x.startswith('compress') for x in L):
                L += r.choice([['decompress c d'], ['enc c', 'decm c h2 same'], ['str c']])
            if any(x.startswith('pool') for x in L):
                L.append(r.choice(['str p', 'str p 2', 'str p 6']))
        elif k == 'a':
            L += ['newa a'] + [f'seta a {int(r.random() < 0.7)} {e()} q' for _ in range(r.randrange(4, 24))] + ['obs a', r.choice(['str a', 'a2g a h dir', 'a2g a h und'])]
        elif k == 'm':
            L += [f'newm m {r.choice(self.TYPES)}'] + [r.choice([f'incm m {e()} q', f'incm m {e()} q', f'zerom m {e()} q']) for _ in range(r.randrange(4, 24))] + \
                ['obs m', r.choice(['str m', 'str m 3', 'clone m k'])]
        else:
            L = [x for x in self.builder() if not x.startswith('U')]
            L = [self.reset('apart'), f'U 0 {n - 1}'] + L[1:]
        return L

    def share(self):
        """Objects that many threads read at once."""
        r = self.r
        L, S, vc, und = self.graph('g', kind=r.choice(['sparse', 'dense', 'blocks', 'counted', 'star', 'full', 'big']))
        small = vc <= 24
        out = [self.reset('share'), self.probe(S, vc)] + L
        b = r.choice([1, 2, 3, 8, max(vc, 1)])
        lvl = self.level(S)
        out += [f'compress g c {lvl}', f'pool g p {b}']
        n, m = r.choice([2, 4, 6, 8]), 12 if self.api == 'rust' else 5 if self.api == 'c' else 2
        q = {'g': ['obs g', 'enc g', f'pool g x {b}', f'approx g y {b} {self.thr(S, b)}', f'compress g z {lvl}', 'clone g k'] + ['str g'] * small + ['iter2 g'] * (self.api == 'rust'),
             'c': ['obs c', 'enc c', 'decompress c d', 'clone c k'] + ['str c'] * small,
             'p': ['obs p', 'clone p k'] + ['str p', 'str p 4'] * (vc <= 60 * b) + ['iter2 p'] * (self.api == 'rust')}
        if self.api == 'rust':
            ids = sorted({x for e in S for x in e})[:4] or [0, 1]
            out += ['newa a', f'newm m {r.choice(self.TYPES)}'] + [f'seta a 1 {r.choice(ids)} {r.choice(ids)} q' for _ in range(6)] + \
                [f'incm m {r.choice(ids)} {r.choice(ids)} q' for _ in range(6)]
            q['a'] = ['obs a', 'iter2 a', 'clone a k', 'a2g a h dir', 'a2g a h und'] + ['str a'] * small
            q['m'] = ['obs m', 'iter2 m', 'clone m k'] + ['str m', 'str m 2'] * small
        for h in sorted(q):
            calls = r.sample(q[h], len(q[h])) if r.random() < 0.5 else r.choices(q[h], k=2) * 2
            out.append(f'share {h} {n} {m} ; ' + ' ; '.join(calls))
        a, c = r.choice(list(S)) if S else (0, 0)
        out += [f'dele g {a} {c}', f'share g {n} {m} ; obs g ; enc g ; pool g x {b} ; compress g z {lvl}', 'obs p', 'obs c']
        return out

    def own(self):
        """Objects and buffers created, changed, held and freed in any order."""
        r = self.r
        L, S, vc, und = self.graph('g0', small=r.random() < 0.5)
        if r.random() < 0.2:
            L, S, vc = [f'newg g0 {und}'], set(), 0
        pool = sorted({x for e in S for x in e})[:4] or [0, 1]
        out = [self.reset('own'), self.probe(S, vc)] + L
        objs, bufs, k = {'g0': 'g'}, [], 0
        printable = vc <= 24
        for _ in range(r.randrange(10, 26)):
            x = r.random()
            k += 1
            h = r.choice(list(objs)) if objs else None
            t = objs.get(h)
            if h is None or x < 0.04:
                h = f'n{k}'
                out += [f'newg {h} {r.randrange(2)}'] + [f'adde {h} {r.choice(pool)} {r.choice(pool)}'] * r.randrange(2)
                objs[h] = 'g'
            elif x < 0.30:
                kinds = {'g': ['bytes', 'edges', 'in', 'out', 'edges'], 'c': ['bytes'], 'm': ['entries', 'entries']}[t]
                kinds = kinds + (['str'] if printable else [])
                kind = r.choice(kinds)
                arg = f' {r.choice(pool + [0, vc + 1])}' if kind in ('in', 'out') else (
                    f' {r.choice([0, 1, 3, 10])}' if kind == 'str' and t == 'm' and r.random() < 0.6 else '')
                if kind == 'str' and t == 'm':
                    out.append(f'obs {h}')
                out.append(f'hold {h} b{k} {kind}{arg}')
                bufs.append(f'b{k}')
            elif x < 0.45 and bufs:
                out.append('rel ' + bufs.pop(r.randrange(len(bufs))))
            elif x < 0.60:
                out.append(f'drop {h}')
                del objs[h]
            elif x < 0.70 and t == 'g':
                a, b = r.choice(pool), r.choice(pool)
                out.append(r.choice([f'adde {h} {a} {b}', f'dele {h} {a} {b}', f'addv {h} {r.choice(pool)} 3 {a} {b} {a}',
                                     f'addv {h} {min(vc + 3, MAX - 1)} -']))
            elif x < 0.85:
                if t == 'g':
                    b = r.choice([0, 1, 2, 3, 8])
                    o, n = r.choice([(f'clone {h} o{k}', 'g'), (f'compress {h} o{k} {self.level(S)}', 'c'),
                                     (f'approx {h} o{k} {b} {self.thr(S, b)}', 'g'), (f'pool {h} o{k} {b}', 'm'),
                                     (f'decm {h} o{k} same', 'g')])
                elif t == 'c':
                    o, n = r.choice([(f'clone {h} o{k}', 'c'), (f'decompress {h} o{k}', 'g'), (f'decm {h} o{k} same', 'c')])
                else:
                    o, n = f'clone {h} o{k}', 'm'
                out.append(o)
                objs[f'o{k}'] = n
            elif x < 0.90:
                out.append(r.choice(['null', f'noout {h}', f'dec g bad {"7ae7" * r.randrange(1, 9)}', 'dec c bad -',
                                     f'decm {h} bad same trunc 1' if t != 'm' else 'null']))
            else:
                out.append(r.choice(['obsall', f'obs {h}', f'enc {h}', f'str {h}' if printable else f'enc {h}']))
        while objs or bufs:
            if objs and (r.random() < 0.5 or not bufs):
                h = r.choice(list(objs))
                out.append(f'drop {h}')
                del objs[h]
            else:
                out.append('rel ' + bufs.pop(r.randrange(len(bufs))))
        return out + ['null']

    def cnull(self):
        """Null handles and out-parameters between other calls; error codes."""
        r = self.r
        L, S, vc, und = self.graph('g', small=True)
        out = [self.reset('cnull'), self.probe(S, vc), 'null'] + L
        out += ['noout g', 'obs g', 'null', 'obsall', f'compress g c {self.level(S)}', 'noout c', 'pool g p 2', 'noout p', 'obsall']
        for i in range(6):
            h, hdr = r.choice([('g', 26), ('c', 42)])
            out.append(f'decm {h} d{i % 2} {r.choice(["same", "same", "same", "g", "c"])}' + r.choice(['', ' trunc 1', ' ext 00', f' xor {r.randrange(hdr)} 1', ' duprec 0', ' keep 0']))
        out += ['obsall', 'null', 'drop g', 'obsall']
        if vc <= 24:
            out += ['str c', 'str p', 'str p 1']
        return out + ['newg z 1', f'addv z {r.choice([2**32, 2**40, MAX - 1])} -', 'str z', 'pool z zp 1', 'str zp', 'str zp 3', 'compress z zc 1', 'decompress zc zd', 'null', 'obsall']

    def plist(self):
        """Python lists and iterators."""
        r = self.r
        L, S, vc, und = self.graph('g', small=r.random() < 0.7)
        pool = sorted({x for e in S for x in e})[:4] or [0, 1]
        out = [self.reset('plist'), self.probe(S, vc)] + L + [f'pool g m {r.choice([1, 2, 3])}']
        n = len(S)
        for i in range(4):
            kind = r.choice(['edges', 'in', 'out', 'entries'])
            h = 'm' if kind == 'entries' else 'g'
            v = r.choice(pool + [0, vc, MAX])
            out.append(f'hold {h} l{i} {kind} ' + (str(v) if kind in ('in', 'out') else ''))
            m = {'edges': n, 'entries': n}.get(kind) or sum(1 for a, b in S if (a if kind == 'out' or und else b) == v)
            out.append(f'iter l{i} it{i}')
            out += [f'idx l{i} {x}' for x in sorted({0, 1, m - 1, m, m + 1, -1, -2, 1 - m, -m, -m - 1, -2 * m, -2 * m - 1, -7 * m - 2, 2**31, 2**63, 2**64, -2**31 + 1, r.randrange(-m - 2, m + 3), r.randrange(-5 * m - 9, 0)})]
            for _ in range(r.randrange(0, 4)):
                out.append(f'next it{i}')
            out.append(f'walk l{i}')
            if r.random() < 0.5:
                out.append(r.choice([f'adde g {r.choice(pool)} {r.choice(pool)}', f'dele g {r.choice(pool)} {r.choice(pool)}']))
            x = r.random()
            if x < 0.3:
                out += ['clone g g2', 'drop g', 'clone g2 g', 'drop g2']
            if x < 0.5 or r.random() < 0.5:
                out += [f'walk l{i}', f'rel l{i}']
            out += [f'next it{i}'] * r.choice([1, 2, min(m, 12) + 2])
        for i in range(4):
            out.append(f'rel l{i}')
        out += ['drop g', 'drop m'] + [f'next it{i}' for i in range(4)] * 2
        return out

    def pyerr(self):
        r = self.r
        out = [self.reset('pyerr'), 'U 0 1', 'newg g 1', 'adde g 1 0', 'adde g 1 9', 'compress g c 1']
        for i in range(8):
            h, hdr = r.choice([('g', 26), ('c', 42)])
            out.append(f'decm {h} d{i} {r.choice(["same", "same", "same", "g", "c"])} {self.mutations(hdr)}')
        return out + ['dec g x -', 'dec c x -', 'dec g x 00', 'dec c x 71ff7aed', 'decm c d g', 'decm g d c', 'decm g d same trunc 1', 'decm c d same ext 00']


def transpose(e):
    return sum(1 << (8 * (k % 8) + k // 8) for k in range(64) if e >> k & 1)


def vary(script, r):
    """Iterations side by side, and objects made by default."""
    out = []
    for x in script:
        t = x.split(' ')
        if t[0] in ('newa', 'newm') and r.random() < 0.5:
            x += ' d'
        out.append(x)
        if r.random() < 0.06:
            if t[0] in ('adde', 'dele', 'addv', 'seta', 'setm', 'incm', 'zeroa', 'zerom'):
                out.append(f'iter{r.choice("23")} {t[1]}')
            elif t[0] in ('pool', 'approx', 'decompress', 'clone'):
                out.append(f'iter{r.choice("23")} {t[2]}')
    return out


def make(families, counts, seed, api='rust', **opt):
    """Scripts of the families."""
    threads = api in ('rustt', 'ct', 'pyt')
    api = {'rustr': 'rust', 'rustt': 'rust', 'ct': 'c', 'pyt': 'py'}.get(api, api)
    out = []
    for f, n in zip(families, counts):
        g = Gen(f'{seed}/{api}/{f}', api, **{k: v for k, v in opt.items() if k == 'und'})
        args = {k: v for k, v in opt.items() if k != 'und'}
        out += [getattr(g, f)(**args) for _ in range(n)]
    if api == 'rust' and not threads:
        r = random.Random(f'{seed}/vary/{families}')
        out = [vary(x, r) for x in out]
    return out


if __name__ == '__main__':
    import sys
    fams = sys.argv[1].split(',')
    for s in make(fams, [int(sys.argv[2])] * len(fams), sys.argv[3] if len(sys.argv) > 3 else '1'):
        print('\n'.join(s))
