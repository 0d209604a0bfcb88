#!/usr/bin/env python3
"""Shows that traces bind: corrupt.py [SEED] [PER_KIND]

Records traces of a few histories, alters one recorded field at a time (PER_KIND alterations of
every field of every kind of event) and checks that TLC rejects each altered trace. Prints the
fields whose alteration went unnoticed.
"""
import concurrent.futures as cf
import copy
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check    # noqa: E402
import gen      # noqa: E402

FAMILIES = {'rust': ['hist', 'iso', 'a2g', 'pool', 'approx', 'compress', 'builder', 'genc', 'cenc', 'gdec', 'cdec', 'adj',
                     'mat', 'text', 'numtext', 'pooltext'],
            'c': ['hist', 'own', 'cnull', 'gdec'], 'py': ['hist', 'own', 'plist', 'pyerr', 'gdec']}
# fields that name things, or are inputs that need not be observable
IGNORED = {'op', 'id', 'h', 'h2', 'n', 'it#', 'msg', 'ids', 'k', 'kind', 'i'}


def paths(x, pre=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from paths(v, pre + (k,))
    elif isinstance(x, list) and x and (not isinstance(x[0], int) or isinstance(x[0], bool)):
        for i, v in enumerate(x):
            yield from paths(v, pre + (i,))
    else:
        yield pre


def get(x, p):
    for k in p:
        x = x[k]
    return x


def alter(v, r):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, -1]) if v else 1
    if isinstance(v, str):
        return v + 'x'
    if isinstance(v, list):         # a word, bytes or text
        w = list(v)
        if not w:
            return [1]
        i = r.randrange(len(w))
        w[i] = (w[i] + r.choice([1, 255])) % 256 if isinstance(w[i], int) else w[i]
        return w
    return v


def name(ev, p):
    return (ev['op'] + ('/' + ev['k'] if 'k' in ev else ''),
            '.'.join(k for k in p if isinstance(k, str)))


def main():
    seed = sys.argv[1] if len(sys.argv) > 1 else '1'
    per = int(sys.argv[2]) if len(sys.argv) > 2 else 2
    r = random.Random(seed)
    work = f'{check.BUILD}/corrupt'
    os.makedirs(work, exist_ok=True)
    built = check.build_all(list(FAMILIES))
    jobs, seen = [], {}
    for api, fams in FAMILIES.items():
        for fam in fams:
            scripts = gen.make([fam], [4], seed, api)
            s, t = f'{work}/{api}-{fam}.script', f'{work}/{api}-{fam}.ndjson'
            with open(s, 'w') as f:
                f.write('\n'.join('\n'.join(x) for x in scripts) + '\n')
            check.run_driver(api, built[api], s, t)
            evs = [json.loads(x) for x in open(t)]
            at = [(i, p) for i, e in enumerate(evs) for p in paths(e) if p and p[-1] not in IGNORED]
            r.shuffle(at)
            for i, p in at:
                key = (api,) + name(evs[i], p)
                if seen.get(key, 0) < per:
                    seen[key] = seen.get(key, 0) + 1
                    v = get(evs[i], p)
                    w = alter(v, r)
                    if w != v:
                        jobs.append((key, t, i, p, v, w))

    def one(j):
        n, (key, t, i, p, v, w) = j
        evs = [json.loads(x) for x in open(t)]
        starts = [k for k, e in enumerate(evs) if e['op'] == 'reset']
        lo = max([k for k in starts if k <= i] or [0])
        hi = min([k for k in starts if k > i] + [len(evs)])
        evs = copy.deepcopy(evs[lo:hi])
        get(evs[i - lo], p[:-1])[p[-1]] = w
        out = f'{work}/x{n}.ndjson'
        with open(out, 'w') as f:
            f.write('\n'.join(map(json.dumps, evs)) + '\n')
        try:
            bad, _, _ = check.check_trace(out, {'all'}, f'corrupt{n}')
        except check.ToolError:
            bad = {'event': 0}
        os.remove(out)
        return key, p, v, w, bad is not None, os.path.basename(t), i + 1

    missed = {}
    with cf.ThreadPoolExecutor(check.JOBS) as ex:
        done = list(ex.map(one, enumerate(jobs)))
    for key, p, v, w, ok, t, i in done:
        if not ok:
            missed.setdefault(key, []).append((t, i, str(v)[:60], str(w)[:60]))
    print(f'{len(done)} altered traces of {len(seen)} kinds of field: {sum(d[4] for d in done)} rejected')
    for k, v in sorted(missed.items()):
        print('accepted:', k, v)


if __name__ == '__main__':
    main()
