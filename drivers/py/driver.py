"""Executes scripts of calls of the Python bindings and writes one JSON event per call.

The script language and the events are those of drivers/rust; what only Python has (list
objects, iterators, exceptions, garbage collection) is added here. The events are judged by
spec/Trace.tla.

driver.py PACKAGE_PARENT_DIR SCRIPT OUT
driver.py PACKAGE_PARENT_DIR SCRIPT OUT PASSES      on several threads, as drivers/rust/src/tdriver.rs describes;
                                                    memory is not accounted for then
"""
import ctypes
import gc
import json
import math
import queue
import sys
import threading

sys.path.insert(0, sys.argv[1])
import graphrox  # noqa: E402


def w(x):
    # A value that is not a 64-bit number cannot be any expected one.
    return list(x.to_bytes(8, 'big')) if isinstance(x, int) and 0 <= x < 2**64 else [999, repr(x)]


def dyadic(x):
    if not isinstance(x, float) or not math.isfinite(x):
        return []
    if x == 0:
        return [0, [], 0]
    m, q = abs(x).as_integer_ratio()
    e = -(q.bit_length() - 1)
    while m % 2 == 0:
        m //= 2
        e += 1
    return [int(x < 0), list(m.to_bytes((m.bit_length() + 7) // 8, 'big')), e]


def edge(e):
    return [w(e[0]), w(e[1])] if isinstance(e, tuple) and len(e) == 2 else [repr(e)]


def entry(e):
    return [dyadic(e[0]), w(e[1]), w(e[2])] if isinstance(e, tuple) and len(e) == 3 else [repr(e)]


def small(x):
    return int(x) if x == int(x) else repr(x)


def native():
    """The memory ledger (see ledger.c), set to count what the library allocates from now on."""
    at = []
    for line in open('/proc/self/maps'):
        if 'libgraphrox' in line or 'graphrox-x86_64' in line:
            at += [int(x, 16) for x in line.split()[0].split('-')]
    x = ctypes.CDLL(None)
    if not hasattr(x, 'ledger_range') or not at:
        return None
    x.ledger_range.argtypes = (ctypes.c_size_t, ctypes.c_size_t)
    x.ledger_live.restype = x.ledger_bad.restype = ctypes.c_long
    # what the library and its runtime allocate once is not counted
    g = graphrox.Graph(True)
    g.add_edge(1, 2)
    bytes(g), g.matrix_string(), g.compress(1).decompress(), g.find_avg_pool_matrix(2).to_string(), list(g.edge_list())
    for bad in (b'abc', bytes(g)[:-1]):
        try:
            graphrox.Graph.from_bytes(bad)
        except Exception:
            pass
    del g
    gc.collect()
    gc.freeze()
    x.ledger_range(min(at), max(at))
    return x


def text(s):
    """A long text is given as its distinct lines and how many times which of them follow each other; one too
    long even so is cut."""
    if len(s) <= 20000:
        return {'ok': True, 'c': list(s.encode())}
    known, ix = {}, []
    for x in s.split('\r\n'):
        k = known.setdefault(x, len(known) + 1)
        if ix and ix[-1][0] == k:
            ix[-1][1] += 1
        else:
            ix.append([k, 1])
    if sum(map(len, known)) > 2000000:
        return {'ok': True, 'n': len(s), 'c': list(s[:2000000].encode())}
    return {'ok': True, 'n': len(s), 'lines': [list(x.encode()) for x in known], 'ix': ix}


SHOW = {'edges': edge, 'in': w, 'out': w, 'entries': entry}

class Held:
    """What a script holds."""
    def __init__(self, objs=(), u=()):
        self.objs, self.lists, self.iters, self.U = dict(objs), {}, {}, list(u)


T = threading.local()       # T.c: what the script of this thread holds
T.c = Held()
THREADED = len(sys.argv) > 4


def ordered(l):
    """With threads, lists whose order is nobody's business are given sorted, so that two runs can be seen to be
    the same."""
    return sorted(l) if THREADED else l


def collect():
    if not THREADED:
        gc.collect()


def runs(pairs):
    """Long T.c.lists are given as runs [first, second, how many seconds in a row]."""
    out = []
    for a, b in sorted(pairs):
        if out and out[-1][0] == a and out[-1][1] + out[-1][2] == b < 2**24:
            out[-1][2] += 1
        else:
            out.append([a, b, 1])
    return [[w(a), w(b), n] for a, b, n in out]


def ids(l):
    return ordered([w(x) for x in l]) if len(l) <= 3000 else runs([(0, x) for x in l])


def edges(l):
    return ordered([edge(e) for e in l]) if len(l) <= 3000 else runs(list(l))


def obs(h):
    o = T.c.objs[h]
    if isinstance(o, graphrox.Graph):
        return {'h': h, 'k': 'graph', 'und': o.is_undirected(), 'vc': w(o.vertex_count()), 'ec': w(o.edge_count()),
                'it': edges(o.edge_list()),
                'ex': [[int(o.does_edge_exist(a, b)) for b in T.c.U] for a in T.c.U],
                'ind': [w(o.vertex_in_degree(v)) for v in T.c.U], 'outd': [w(o.vertex_out_degree(v)) for v in T.c.U],
                'inl': [ids(o.vertex_in_edges(v)) for v in T.c.U],
                'outl': [ids(o.vertex_out_edges(v)) for v in T.c.U]}
    if isinstance(o, graphrox.CompressedGraph):
        bu = sorted({x // 8 for x in T.c.U})
        return {'h': h, 'k': 'cgraph', 'und': o.is_undirected(), 'vc': w(o.vertex_count()), 'ec': w(o.edge_count()),
                'lvl': small(o.compression_level()),
                'ex': [[int(o.does_edge_exist(a, b)) for b in T.c.U] for a in T.c.U],
                'bu': [w(x) for x in bu],
                'cme': [[w(o.get_compressed_matrix_entry(a, b)) for b in bu] for a in bu]}
    return {'h': h, 'k': 'mat', 'dim': w(o.dimension()), 'ec': w(o.entry_count()),
            'it': ordered([entry(e) for e in o.entry_list()]),
            'get': [[dyadic(o.get_entry(a, b)) for b in T.c.U] for a in T.c.U]}


def mutate(b, t, hdr, rec):
    i = 0
    rd = lambda p: int.from_bytes(b[p:p + 8], 'big')

    def wr(p, v):
        b[p:p + 8] = (v % 2**64).to_bytes(8, 'big')
    while i < len(t):
        op, n = t[i], lambda k: int(t[i + k])
        k = max(len(b) - hdr, 0) // rec
        at = lambda j: hdr + (n(j) % k) * rec
        if op in ('xor', 'set'):
            if n(1) < len(b):
                b[n(1)] = (b[n(1)] ^ n(2)) & 255 if op == 'xor' else n(2)
            i += 3
        elif op in ('word', 'addword'):
            if n(1) + 8 <= len(b):
                wr(n(1), n(2) + (rd(n(1)) if op == 'addword' else 0))
            i += 3
        elif op == 'trunc':
            del b[max(len(b) - n(1), 0):]
            i += 2
        elif op == 'keep':
            del b[n(1):]
            i += 2
        elif op == 'ext':
            b += bytes.fromhex(t[i + 1])
            i += 2
        elif op == 'cprec':
            if k:
                b[at(2):at(2) + rec] = b[at(1):at(1) + rec]
            i += 3
        elif op == 'duprec':
            if k:
                b += b[at(1):at(1) + rec]
                wr(16, rd(16) + 1)
            i += 2
        elif op == 'rmrec':
            if k:
                ones = bin(rd(at(1))).count('1') if rec == 24 else 0
                x = at(1)
                del b[x:x + rec]
                wr(16, rd(16) - 1)
                if rec == 24 and n(2) == 1:
                    wr(24, rd(24) - ones)
            i += 3
        elif op == 'recxor':
            if k:
                b[at(1) + n(2) % rec] ^= n(3)
            i += 4
        elif op == 'recword':
            if k:
                wr(at(1) + 8 * (n(2) % (rec // 8)), n(3))
            i += 4
        elif op == 'clrbit':
            if k:
                v = rd(at(1))
                on = [q for q in range(64) if v >> q & 1]
                if on:
                    wr(at(1), v & ~(1 << on[n(2) % len(on)]))
                    wr(24, rd(24) - 1)
            i += 3
        else:
            raise SystemExit(f'driver: mutation {op}')


def decode(graph, h2, b):
    T.c.objs.pop(h2, None)
    ev = {'op': 'dec', 'k': 'graph' if graph else 'cgraph', 'h2': h2, 'b': list(b), 'ok': True}
    try:
        T.c.objs[h2] = (graphrox.Graph if graph else graphrox.CompressedGraph).from_bytes(bytes(b))
        ev['obs'] = [obs(h2)]
    except Exception as e:
        T.c.objs.pop(h2, None)
        ev.update(ok=False, exc=type(e).__name__)
    return ev


def message(b, header, rec):
    return b[:header] + sum(sorted(b[i:i + rec] for i in range(header, len(b), rec)), []) if THREADED else b


def threshold(x):
    if x in ('inf', '-inf'):
        return float(x), {'kind': x}
    neg = x[0] == '-'
    p, q = map(int, x.lstrip('-').split('/'))
    v = float(p) / float(q)
    return (-v if neg else v), {'kind': 'num', 'neg': neg, 'p': w(p), 'q': w(q)}


def execute(t):
    op, n = t[0], lambda i: int(t[i])
    skip = {'op': 'skip'}
    if op == 'U':
        T.c.U = [int(x) for x in t[1:]]
        return {'op': 'U', 'ids': [w(x) for x in T.c.U]}
    if op == 'reset':
        T.c.objs.clear(), T.c.lists.clear(), T.c.iters.clear()
        collect()
        return {'op': 'reset', 'id': t[1] if len(t) > 1 else ''}
    if op == 'newg':
        T.c.objs[t[1]] = graphrox.Graph(is_undirected=True) if n(2) == 1 else graphrox.Graph() if len(T.c.objs) % 2 else graphrox.Graph(False)
        return {'op': 'newg', 'h': t[1], 'und': n(2) == 1, 'obs': [obs(t[1])]}
    if op == 'dec':
        return decode(t[1] == 'g', t[2], b'' if t[3] == '-' else bytes.fromhex(t[3]))
    if op == 'obsall':
        return {'op': 'obsall', 'obs': [obs(h) for h in sorted(T.c.objs)]}
    if op == 'rel':
        if t[1] not in T.c.lists:
            return skip
        l, k = T.c.lists.pop(t[1])
        c = [SHOW[k](x) for x in l]
        del l
        collect()
        return {'op': 'rel', 'n': t[1], 'c': c}
    if op == 'idx':         # idx NAME i
        if t[1] not in T.c.lists:
            return skip
        l, k = T.c.lists[t[1]]
        try:
            return {'op': 'idx', 'n': t[1], 'i': min(n(2), 2**31 - 1), 'ok': True, 'r': SHOW[k](l[n(2)]), 'len': len(l)}
        except Exception as e:
            return {'op': 'idx', 'n': t[1], 'i': min(n(2), 2**31 - 1), 'ok': False, 'exc': type(e).__name__, 'len': len(l)}
    if op == 'walk':
        if t[1] not in T.c.lists:
            return skip
        l, k = T.c.lists[t[1]]
        # two interleaved iterations and one by unpacking
        a, b, ca, cb = iter(l), iter(l), [], []
        for x in l:
            ca.append(SHOW[k](x))
        for _ in range(len(l)):
            cb.append(SHOW[k](next(a)))
            if SHOW[k](next(b)) != cb[-1]:
                cb.append('iterators differ')
        return {'op': 'walk', 'n': t[1], 'c': ca, 'c2': cb, 'c3': [SHOW[k](x) for x in (*l,)], 'len': len(l)}
    if op == 'iter':        # iter NAME IT
        if t[1] not in T.c.lists:
            return skip
        l, k = T.c.lists[t[1]]
        T.c.iters[t[2]] = (iter(l), k)
        return {'op': 'iter', 'n': t[1], 'it': t[2]}
    if op == 'next':        # next IT
        if t[1] not in T.c.iters:
            return skip
        i, k = T.c.iters[t[1]]
        try:
            return {'op': 'next', 'it': t[1], 'ok': True, 'r': SHOW[k](next(i))}
        except Exception as e:
            return {'op': 'next', 'it': t[1], 'ok': False, 'exc': type(e).__name__}
    o = T.c.objs.get(t[1]) if len(t) > 1 else None
    if o is None:
        return skip
    g, c = isinstance(o, graphrox.Graph), isinstance(o, graphrox.CompressedGraph)
    ev = {'op': op, 'h': t[1]}
    if op == 'hold':        # hold h NAME KIND [ARG]
        k = t[3]
        if k not in SHOW or (k == 'entries') != (not g and not c) or c or t[2] in T.c.lists:
            return skip
        l = o.edge_list() if k == 'edges' else o.vertex_in_edges(n(4)) if k == 'in' else o.vertex_out_edges(n(4)) if k == 'out' else o.entry_list()
        T.c.lists[t[2]] = (l, k)
        return {**ev, 'n': t[2], 'kind': k, 'a': w(n(4)) if len(t) > 4 else [], 'c': [SHOW[k](x) for x in l], 'len': len(l)}
    if op in ('addr', 'addm', 'delr', 'redec', 'addv', 'adde', 'dele', 'pool', 'approx', 'compress') and not g or op == 'decompress' and not c:
        return skip
    if op == 'addv':
        quiet = t[-1] == 'q'
        vs = [int(x) for x in t[4:len(t) - quiet]]
        if t[3] == '-':
            o.add_vertex(n(2))
        else:
            o.add_vertex(n(2), vs if len(vs) % 2 else tuple(vs))
        ev.update(u=w(n(2)), vs=[w(x) for x in vs])
        return ev if quiet else {**ev, 'obs': [obs(t[1])]}
    if op in ('addr', 'delr'):
        lo, k, step = n(3), n(4), n(5)
        vs = range(lo, lo + k * step, step)
        if op == 'addr':
            o.add_vertex(n(2), list(vs))
        else:
            for v in vs:
                o.delete_edge(n(2), v)
        ev.update(op='addv' if op == 'addr' else 'dele', u=w(n(2)), run=[lo, k, step])
        return ev if len(t) > 6 else {**ev, 'obs': [obs(t[1])]}
    if op == 'addm':
        lo, k, step = n(3), n(4), n(5)
        for u in range(lo, lo + k * step, step):
            o.add_edge(u, n(2))
        ev.update(op='adde', v=w(n(2)), run=[lo, k, step])
        return ev if len(t) > 6 else {**ev, 'obs': [obs(t[1])]}
    if op == 'redec':
        b = bytes(o)
        T.c.objs.pop(t[2], None)
        at = [int.from_bytes(b[p:p + 8], 'big') for p in range(26, len(b) - 7, 8)]
        ev = {'op': 'dec', 'k': 'graph', 'same': t[1], 'h2': t[2], 'head': list(b[:26]), 'it': edges(list(zip(at[::2], at[1::2]))),
              'rest': (len(b) - 26) % 16, 'ok': True}
        try:
            T.c.objs[t[2]] = graphrox.Graph.from_bytes(b)
            ev['obs'] = [obs(t[2])]
        except Exception as e:
            T.c.objs.pop(t[2], None)
            ev.update(ok=False, exc=type(e).__name__)
        return ev
    if op in ('adde', 'dele'):
        (o.add_edge if op == 'adde' else o.delete_edge)(n(2), n(3))
        ev.update(u=w(n(2)), v=w(n(3)))
        if len(t) == 4:
            ev['obs'] = [obs(t[1])]
        return ev
    if op == 'drop':
        del T.c.objs[t[1]], o
        collect()
        return ev
    if op == 'obs':
        return {**ev, 'obs': [obs(t[1])]}
    if op == 'clone':
        T.c.objs[t[2]] = o.duplicate()
    elif op == 'pool':
        T.c.objs[t[2]] = o.find_avg_pool_matrix(n(3))
        ev['b'] = w(n(3))
    elif op == 'approx':
        thr, js = threshold(t[4])
        T.c.objs[t[2]] = o.approximate(n(3), thr)
        ev.update(b=w(n(3)), thr=js)
    elif op == 'compress':
        T.c.objs[t[2]] = o.compress(n(3))
        ev['lvl'] = n(3)
    elif op == 'decompress':
        T.c.objs[t[2]] = o.decompress()
    elif op == 'enc':
        if not (g or c):
            return skip
        return {**ev, 'ok': True, 'b': message(list(bytes(o)), *((26, 16) if g else (42, 24)))}
    elif op == 'decm':
        if not (g or c) or THREADED:
            return skip
        b = bytearray(bytes(o))
        mutate(b, t[4:], 26 if g else 42, 16 if g else 24)
        return decode(g if t[3] == 'same' else t[3] == 'g', t[2], b)
    elif op == 'str':
        d = n(2) if len(t) > 2 else -1
        try:
            if g or c:
                s = o.matrix_string()
            elif d < 0:
                s = o.to_string()
                assert s == str(o)
            else:
                s = o.to_string(d)
            r = text(s)
        except Exception:
            r = {'ok': False}
        return {**ev, 'd': d, 's': r}
    else:
        raise SystemExit(f'driver: op {op}')
    ev['h2'] = t[2]
    ev['obs'] = [obs(t[2])]
    return ev


SKIP = {'newa', 'newm', 'newb', 'seta', 'zeroa', 'a2g', 'setm', 'incm', 'zerom', 'addb', 'finish', 'null', 'noout'}



def call(line):
    t = line.split()
    if t[0] in SKIP:
        return {'op': 'skip'}
    try:
        return execute(t)
    except Exception as e:
        return {'op': 'panic', 'during': line.strip(), 'msg': f'{type(e).__name__}: {e}'}


def alone():
    ledger = native()
    if ledger is None:
        raise SystemExit('driver: the ledger is not there')
    with open(sys.argv[2]) as f, open(sys.argv[3], 'w') as out:
        for line in f:
            if not line.strip() or line[0] == '#':
                continue
            before = ledger.ledger_live()
            ev = call(line)
            if ev['op'] != 'skip':
                gc.collect()
            ev['mem'] = [before, ledger.ledger_live(), ledger.ledger_bad()]
            out.write(json.dumps(ev, separators=(',', ':')) + '\n')
            out.flush()


def event(line):
    return json.dumps(call(line), separators=(',', ':')) + '\n'


def together(n, f):
    """Runs f(0), f(1), ... on n threads at once."""
    start, died = threading.Barrier(n), []

    def g(k):
        start.wait()
        try:
            f(k)
        except BaseException as e:
            died.append(e)
    ts = [threading.Thread(target=g, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if died:
        raise SystemExit(f'driver: {died[0]!r}')


def share(line):
    head, *calls = line.split(';')
    _, h, n, m = head.split()
    o, u, seen, mx = T.c.objs.get(h), T.c.U, {}, threading.Lock()
    if o is None:
        return '{"op":"skip"}\n'

    def go(k):
        for i in range(int(m)):
            evs = [None] * len(calls)
            for j in range(len(calls)):
                j = (j + k + i) % len(calls)
                T.c = Held({h: o}, u)
                evs[j] = event(calls[j])
            with mx:
                if len(seen) < OUTCOMES:
                    seen.setdefault(''.join(evs))
    together(int(n), go)
    return ''.join(seen)


THREADS, WORKERS, OUTCOMES, OFTEN = 6, 4, 12, 3


def threads():
    sys.setswitchinterval(1e-5)
    scripts = []
    for line in open(sys.argv[2]):
        if line.strip() and line[0] != '#':
            if line.startswith('reset'):
                scripts.append([])
            scripts[-1].append(line.strip())
    one = [s for s in scripts if any(x[0] == '@' or x.startswith('share ') for x in s)]
    many = [s for s in scripts if s not in one]
    to, back = [queue.Queue() for _ in range(WORKERS)], queue.Queue()

    def work(k):
        while True:
            c, line = to[k].get()
            T.c = c
            back.put(event(line))
            T.c = c = None
    for k in range(WORKERS):
        threading.Thread(target=work, args=(k,), daemon=True).start()
    with open(sys.argv[3], 'w') as out:
        for s in one:
            T.c = Held()
            for line in s:
                if line[0] == '@':
                    k, c = line[1:].split(' ', 1)
                    to[int(k) % WORKERS].put((T.c, c))
                    ev = back.get()
                else:
                    ev = share(line) if line.startswith('share ') else event(line)
                out.write(ev)
                out.flush()
        seen, mx, n = [set() for _ in many], threading.Lock(), len(many)
        for p in range(int(sys.argv[4])):
            def go(k):
                for j in range(n):
                    i = (j + (k + p) * n // THREADS + (k if p % 2 else 0)) % n
                    for _ in range(OFTEN if many[i][0].startswith('reset apart') else 1):
                        T.c = Held()
                        evs = ''.join(event(x) for x in many[i])
                        with mx:
                            if len(seen[i]) < OUTCOMES and evs not in seen[i]:
                                seen[i].add(evs)
                                out.write(evs)
                                out.flush()
            together(THREADS, go)


threads() if THREADED else alone()
