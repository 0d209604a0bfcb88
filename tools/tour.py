"""Turns what TLC explored of an MC model into scripts for the implementation.

The models print every transition (state, call, next state) or every case they examine. A tour
is a set of walks from initial states that together take every transition; each walk becomes a
script of the calls along it. The model's small ids are embedded into 64-bit ones (keeping their
order, and 255, the largest word of the models, as 2^64 - 1), so that one model transition is
tried near block boundaries, near 2^32 and so on as well.
"""
import functools
import json
import random
import re
from collections import deque

MAX = 2**64 - 1
EMBED = [
    {0: 0, 1: 1, 2: 2}, {0: 0, 1: 7, 2: 8}, {0: 7, 1: 8, 2: 9}, {0: 0, 1: 2**32, 2: MAX - 1},
    {0: 1, 1: 255, 2: 256}, {0: 63, 1: 64, 2: 65}, {0: 2**31, 1: 2**32 - 1, 2: 2**32}, {0: 3, 1: 2**63, 2: 2**63 + 1},
    {0: 5, 1: MAX - 2, 2: MAX - 1},
]


def records(out):
    for line in out.split('\n'):
        if line.startswith('"{'):
            try:
                yield json.loads(json.loads(line))
            except ValueError:
                # TLA+ escapes nothing but quotes and backslashes
                yield json.loads(line[1:-1].replace('\\"', '"').replace('\\\\', '\\'))


TOKEN = re.compile(r'\s*(<<|>>|\|->|:>|@@|[\[\]{}(),]|"(?:[^"\\]|\\.)*"|-?\w+)')


@functools.lru_cache(maxsize=None)
def canonical(text):
    """A TLA+ value as TLC prints it, whatever the order of its sets and fields."""
    toks, i = TOKEN.findall(text), 0

    def value():
        nonlocal i
        t = toks[i]
        i += 1
        if t == '<<':
            r = items('>>', value)
            return ('seq',) + tuple(r)
        if t == '{':
            return ('set',) + tuple(sorted(items('}', value), key=repr))
        if t == '[':
            return ('map',) + tuple(sorted(items(']', pair), key=repr))
        if t == '(':
            r = []
            while True:
                r.append(pair())
                i += 1
                if toks[i - 1] == ')':
                    return ('map',) + tuple(sorted(r, key=repr))
        return t.strip('"')

    def pair():
        nonlocal i
        k = value()
        i += 1
        return (k, value())

    def items(end, f):
        nonlocal i
        r = []
        while toks[i] != end:
            r.append(f())
            if toks[i] == ',':
                i += 1
        i += 1
        return r
    v = value()
    return ('map',) if v == ('seq',) else v


_numbers = {}


def node(text):
    return _numbers.setdefault(canonical(text), len(_numbers))


def freeze(c):
    return tuple(freeze(x) for x in c) if isinstance(c, list) else c


def walks(out, limit, rng, length=45):
    """Walks covering every transition (or `limit` of them): (init record, [calls])."""
    init, succ = {}, {}
    for r in records(out):
        if 'init' in r:
            init[node(r['init'])] = r
        else:
            succ.setdefault(node(r['s']), {})[freeze(r['c'])] = node(r['t'])
    total = sum(len(d) for d in succ.values())
    todo = {s: set(d) for s, d in succ.items()}
    if limit and limit < total:
        pairs = sorted(((s, c) for s, d in succ.items() for c in d), key=repr)
        todo = {}
        for s, c in rng.sample(pairs, limit):
            todo.setdefault(s, set()).add(c)
    want = sum(len(x) for x in todo.values())
    todo = {s: rng.sample(sorted(cs, key=repr), len(cs)) for s, cs in todo.items()}
    result, covered = [], 0

    def nearest(start, depth):
        """Calls from start to the nearest state with something to do."""
        seen = {start: None}
        q = deque([(start, 0)])
        while q:
            s, d = q.popleft()
            if todo.get(s):
                path = []
                while seen[s] is not None:
                    p, c = seen[s]
                    path.append(c)
                    s = p
                return path[::-1]
            if d < depth:
                nxt = list(succ.get(s, {}).items())
                for c, t in nxt:
                    if t not in seen:
                        seen[t] = (s, c)
                        q.append((t, d + 1))
        return None

    live = sorted(init)
    while live:
        i = rng.choice(live)
        path = nearest(i, 10**6)
        if path is None:
            live.remove(i)
            continue
        s, calls = i, []
        while True:
            for c in path:
                if todo.get(s) and c in todo[s]:
                    todo[s].remove(c)
                    covered += 1
                calls.append(c)
                s = succ[s][c]
            if len(calls) >= length:
                break
            if todo.get(s):
                c = todo[s].pop()
                covered += 1
                calls.append(c)
                s = succ[s][c]
                path = []
            else:
                path = nearest(s, 3)
                if path is None:
                    break
        result.append((init[i], calls))
    return result, {'transitions_of_model': total, 'transitions_toured': covered, 'wanted': want, 'walks': len(result)}


def ids(rng, n=3):
    e = dict(rng.choice(EMBED))
    e[255] = MAX
    return e


def graph(out, limit, rng):
    ws, info = walks(out, limit, rng)
    ss = []
    for k, (i, calls) in enumerate(ws):
        e = ids(rng)
        L = [f'reset tour-{k}', 'U ' + ' '.join(str(e[x]) for x in (0, 1, 2, 255)), f'newg g {int(i["und"])}']
        for c in calls:
            if c[0] == 'addv':
                vs = [e[x] for x in c[2]]
                L.append(f'addv g {e[c[1]]} ' + (f'{len(vs)} ' + ' '.join(map(str, vs)) if vs else rng.choice(['-', '0'])))
            else:
                L.append(f'{c[0]} g {e[c[1]]} {e[c[2]]}')
        ss.append(L)
    return ss, info


def matrix(out, limit, rng):
    ws, info = walks(out, limit, rng)
    ss = []
    for k, (i, calls) in enumerate(ws):
        e = ids(rng)
        L = [f'reset tour-{k}', 'U ' + ' '.join(str(e[x]) for x in (0, 1, 2, 255))]
        if i['kind'] == 'adj':
            L.append('newa m')
        else:
            L.append('newm m ' + rng.choice(['i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64']))
        for c in calls:
            p = f'{e[c[-2]]} {e[c[-1]]}'
            if c[0] == 'seta':
                L.append(f'seta m {c[1]} {p}')
            elif c[0] == 'setm':
                L.append(f'setm m {int(c[1] < 0)} {abs(c[1])} 0 {p}')
            else:
                L.append(f'{c[0]} m {p}')
        if i['kind'] == 'adj':
            L += ['a2g m g und', 'a2g m h dir']
        ss.append(L)
    return ss, info


def copies(out, limit, rng):
    ws, info = walks(out, limit, rng)
    ss = []
    for k, (i, calls) in enumerate(ws):
        e = ids(rng)
        L = [f'reset tour-{k}', 'U ' + ' '.join(str(e[x]) for x in (0, 1, 2)), f'newg g {int(i["und"])}']
        for c in calls:
            if c[0] in ('adde', 'dele'):
                L.append(f'{c[0]} {c[1]} {e[c[2]]} {e[c[3]]} q')
            elif c[0] == 'addv':
                L.append(f'addv {c[1]} {e[c[2]]} -')
            elif c[0] == 'decm':
                L.append(f'decm {c[1]} {c[2]} same')
            elif c[0] == 'compress':
                L.append(f'compress {c[1]} c 1')
            elif c[0] == 'obs':
                L += [f'enc {c[1]}', 'pool g p 1', 'approx g a 2 0/1', 'drop p', 'drop a']
            else:
                L.append(' '.join(c))
            L.append('obsall')
        ss.append(L)
    return ss, info


def threads(out, limit, rng):
    """Each call is made by the thread that makes it in the model."""
    ws, info = walks(out, limit, rng)
    ss = []
    for k, (i, calls) in enumerate(ws):
        e = ids(rng)
        L = [f'reset tour-{k}', 'U ' + ' '.join(str(e[x]) for x in (0, 1, 2)), 'newg s 0', f'adde s {e[1]} {e[0]}', 'newg g 0', 'newg h 0']
        for t, op, *a in calls:
            h = a[1] if op in ('clone', 'compress', 'decompress') else a[0]
            if op in ('adde', 'dele'):
                L.append(f'@{t} {op} {h} {e[a[1]]} {e[a[2]]}')
            elif op == 'compress':
                L.append(f'@{t} compress {a[0]} {h} 1')
            elif op == 'give':
                L.append(f'@{a[1]} obs {h}')
            else:
                L.append(f'@{t} {op} ' + ' '.join(a))
        ss.append(L + ['obsall'])
    return ss, info


def own(out, limit, rng):
    ws, info = walks(out, limit, rng, 35)
    ss = []
    for k, (i, calls) in enumerate(ws):
        e = [0, 1, 2, 3, 8, 9, 17]
        L = [f'reset tour-{k}', 'U 0 1 8']
        kinds, bufs = {}, set()
        for c in calls:
            if c[0] == 'newg':
                L += [f'newg {c[1]} {rng.randrange(2)}']
                L += [f'adde {c[1]} {rng.choice(e)} {rng.choice(e)} q' for _ in range(rng.choice([0, 1, 3, 12]))]
                kinds[c[1]] = 'g'
            elif c[0] == 'adde':
                L.append(rng.choice([f'adde {c[1]} {rng.choice(e)} {rng.choice(e)}', f'dele {c[1]} {rng.choice(e)} {rng.choice(e)}',
                                     f'addv {c[1]} {rng.choice(e)} 2 {rng.choice(e)} {rng.choice(e)}', f'addv {c[1]} 19 -']))
            elif c[0] == 'hold':
                if c[3] == 'str' and kinds[c[1]] == 'm':
                    L.append(f'obs {c[1]}')
                L.append(f'hold {c[1]} {c[2]} {c[3]}' + (f' {rng.choice(e)}' if c[3] in ('in', 'out') else ''))
                bufs.add(c[2])
            elif c[0] == 'rel':
                L.append(f'rel {c[1]}')
                bufs.discard(c[1])
            elif c[0] == 'drop':
                L.append(f'drop {c[1]}')
                del kinds[c[1]]
            elif c[0] == 'obs':
                L.append(rng.choice([f'obs {c[1]}', f'enc {c[1]}', f'noout {c[1]}', f'decm {c[1]} zz same trunc 1' if kinds[c[1]] != 'm' else 'obsall']))
            else:
                arg = {'compress': rng.choice([0, 1, 2]), 'pool': rng.choice([1, 2, 8]),
                       'approx': f'{rng.choice([1, 2, 3])} {rng.choice(["0/1", "1/4", "1/1"])}'}.get(c[0], '')
                L.append(f'{c[0]} {c[1]} {c[2]} {arg}'.strip())
                kinds[c[2]] = {'compress': 'c', 'pool': 'm', 'approx': 'g', 'decompress': 'g'}.get(c[0], kinds.get(c[1]))
        L += [f'rel {b}' for b in sorted(bufs)] + [f'drop {h}' for h in sorted(kinds)] + ['null']
        ss.append(L)
    return ss, info


THR = ['0/1', '1/1', '2/1', '1/9', '2/9', '4/9', '5/9', '1/4', '2/4', '3/4', '1/3', '-1/2', 'inf', '-inf', f'1/{10**18}', f'1/{10**19}']


def cases(out):
    return [r for r in records(out)]


def sample(xs, limit, rng):
    return xs if not limit or limit >= len(xs) else rng.sample(xs, limit)


def small_graph(r, k, rng, scale=None):
    n, E = r['n'], sorted(map(tuple, r['e']))
    f = scale or (lambda x: x)
    if r['und']:
        E = [(a, b) if rng.random() < 0.5 else (b, a) for a, b in E if a <= b]
    rng.shuffle(E)
    L = [f'newg g {int(r["und"])}'] + [f'adde g {f(a)} {f(b)} q' for a, b in E]
    if n:
        L.append(f'addv g {f(n - 1)} -')
    return L + ['obs g']


def derive(out, limit, rng):
    """Every small graph, with every pooling, approximation, compression and so on."""
    rs = cases(out)
    ss = []
    for k, r in enumerate(sample(rs, limit, rng)):
        n = r['n']
        L = [f'reset derive-{k}', f'U 0 1 2 {n}'] + small_graph(r, k, rng)
        for b in (0, 1, 2, 3, 4, MAX):
            L.append(f'pool g p {b}')
        for b in (0, 1, 2, 3, 4, MAX):
            for t in rng.sample(THR, 5):
                L.append(f'approx g a {b} {t}')
        for lv in (0, 1, 2, 3, 4, 5, 64, 65, 255):
            L += [f'compress g c {lv}', 'decompress c d']
        L += ['enc c', 'decm c c2 same', 'decompress c2 d', 'enc g', 'decm g h same', 'obsall']
        ss.append(L)
    return ss, {'cases_of_model': len(rs), 'cases_run': len(ss)}


def _spread(rng):
    lo = rng.randrange(0, 7)
    hi = rng.randrange(lo + 1, 8)
    return lambda x: 8 * (x // 2) + (hi if x % 2 else lo)


def compress(out, limit, rng):
    """The same graphs with their 2 x 2 blocks spread over 8 x 8 ones."""
    rs = cases(out)
    ss = []
    for k, r in enumerate(sample(rs, limit, rng)):
        f = _spread(rng)
        L = [f'reset spread-{k}', 'U ' + ' '.join(str(f(x)) for x in range(4))] + small_graph(r, k, rng, f)
        for lv in (0, 1, 2, 3, 4, 5, 64):
            L += [f'compress g c{lv} {lv}', f'enc c{lv}', f'decompress c{lv} d{lv}']
        L += ['decm c1 k same', 'decompress k d', 'obsall', 'pool g p 8', 'approx g a 8 2/64', 'str g', 'str c1', 'str c2']
        ss.append(L)
    return ss, {'cases_of_model': len(rs), 'cases_run': len(ss)}


def w8(x):
    return x.to_bytes(8, 'big')


def wireg(out, limit, rng):
    rs = cases(out)
    ss, cur = [], None
    for k, r in enumerate(sample(rs, limit, rng)):
        h = r['h']
        b = bytes(h[:8]) + w8(h[8]) + w8(h[9]) + bytes(h[10:12])
        e = {0: 0, 1: 1, 2: 2}
        for rec in r['r']:
            b += w8(e[rec[0]]) + w8(e[rec[1]])
        b += bytes(r['x']) if rng.random() < 0.5 else bytes(len(r['x']) * rng.choice([1, 8, 15]))
        if k % 40 == 0:
            cur = [f'reset msg-{k}', 'U 0 1 2']
            ss.append(cur)
        cur.append(f'dec g x {b.hex()}')
    return ss, {'cases_of_model': len(rs), 'cases_run': min(len(rs), limit or len(rs))}


def wirec(out, limit, rng):
    rs = cases(out)
    ss, cur = [], None
    for k, r in enumerate(sample(rs, limit, rng)):
        h = r['h']
        f = _spread(rng)
        lo, hi = f(0), f(1)
        v = h[11]
        vc = 8 * (v // 2) + (rng.randrange(lo + 1, hi + 1) if v % 2 else 0)
        lvl = {0: 0, 1: 1, 4: 64, 5: 65}.get(h[13], h[13])
        b = bytes(h[:8]) + w8(h[8]) + w8(h[9]) + w8(h[10]) + w8(vc) + bytes([h[12], lvl])
        for blk, c, w in r['r']:
            bits = 0
            for n in range(4):
                if blk >> n & 1:
                    bits |= 1 << (8 * (hi if n // 2 else lo) + (hi if n % 2 else lo))
            b += w8(bits) + w8(c) + w8(w)
        b += bytes(r['x'])
        if k % 40 == 0:
            cur = [f'reset msg-{k}', 'U 0 7 8 15 16']
            ss.append(cur)
        cur.append(f'dec c x {b.hex()}')
        if rng.random() < 0.1:
            cur.append('decompress x y')
    return ss, {'cases_of_model': len(rs), 'cases_run': min(len(rs), limit or len(rs))}


CONV = {'graph': graph, 'matrix': matrix, 'copies': copies, 'own': own, 'derive': derive, 'compress': compress,
        'wireg': wireg, 'wirec': wirec, 'threads': threads}


def scripts(out, conv, limit, seed):
    return CONV[conv](out, limit, random.Random(f'{seed}/{conv}'))
