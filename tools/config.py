"""What each check runs: aspects judged (scope), models, tours and script families."""

# model -> (module, configuration by tier)
MODELS = {
    'graph': ('MC_Graph', {'quick': 'MC_Graph_q', 'thorough': 'MC_Graph_t'}),
    'copies': ('MC_Copies', {'quick': 'MC_Copies_q', 'thorough': 'MC_Copies_t'}),
    'derive': ('MC_Derive', {'quick': 'MC_Derive_q', 'thorough': 'MC_Derive_t'}),
    'wireg': ('MC_Wire', {'quick': 'MC_WireG_q', 'thorough': 'MC_WireG_t'}),
    'wirec': ('MC_Wire', {'quick': 'MC_WireC_q', 'thorough': 'MC_WireC_t'}),
    'adj': ('MC_Matrix', {'quick': 'MC_Adj_q', 'thorough': 'MC_Adj_t'}),
    'mat': ('MC_Matrix', {'quick': 'MC_Mat_q', 'thorough': 'MC_Mat_t'}),
    'own': ('MC_Own', {'quick': 'MC_Own_q', 'thorough': 'MC_Own_t'}),
    'threads': ('MC_Threads', {'quick': 'MC_Threads_q', 'thorough': 'MC_Threads_t'}),
    'words': ('MC_Words', {'quick': 'MC_Words_q', 'thorough': 'MC_Words_t'}),
}

MEMBER = ['exists', 'iter', 'count', 'nbr', 'vc', 'und', 'handle']
MUTATE = ['newg', 'addv', 'adde', 'dele']


def check(scope, quick, models=(), tours=(), thorough_factor=25, more=(), assumptions=()):
    """quick: 'api:family': count. Tours: (api, model, converter, quick limit, thorough limit)."""
    def plan(f):
        out = []
        for k, v in quick.items():
            api, fam = k.split(':')
            opt = {}
            if isinstance(v, tuple):
                v, opt = v
            out.append((api, fam, max(1, int(v * f)), opt))
        return out
    big = plan(thorough_factor)
    # every Rust script again without overflow checks, and everything the other families reach
    big += [('rustr', fam, max(1, n // 4), opt) for api, fam, n, opt in big if api == 'rust']
    big += [(api, fam, n, {}) for api, fam, n in more]
    return {
        'scope': list(scope), 'models': list(models), 'quick': plan(1), 'thorough': big,
        'tours': {'quick': [t[:4] for t in tours if t[3] != 0], 'thorough': [t[:3] + (t[4],) for t in tours]},
        'assumptions': list(assumptions),
    }


# The same histories through the other two interfaces: a property does not stop at the Rust boundary.
BOUND = {
    'C01': {'c:large': 1, 'py:large': 1, 'c:hist': 20, 'c:teardown': 5, 'c:fan': 6, 'c:wide': 2, 'py:hist': 12, 'py:fan': 5, 'py:wide': 1},
    'C02': {'c:hist': (10, 'und'), 'c:iso': (6, 'und'), 'c:approx': (5, 'und'), 'c:gdec': (5, 'und'), 'c:cdec': (5, 'und'),
            'py:hist': (8, 'und'), 'py:approx': (5, 'und'), 'py:gdec': (4, 'und'), 'py:cdec': (4, 'und')},
    'C03': {'c:large': 1, 'c:huge': (1, 'plot'), 'py:huge': (1, 'plot'), 'c:hist': 12, 'c:fan': 8, 'c:iso': 6, 'c:teardown': 4, 'py:hist': 10, 'py:fan': 5, 'py:plist': 6},
    'C04': {'c:hist': 10, 'c:maxid': 12, 'c:iso': 5, 'py:hist': 8, 'py:maxid': 10},
    'C05': {'c:large': 1, 'py:large': 1, 'c:hist': 15, 'c:wide': 3, 'c:fan': 8, 'py:hist': 10, 'py:wide': 2, 'py:fan': 6},
    'C08': {'c:pool': 15, 'c:bigpool': 10, 'py:pool': 12, 'py:bigpool': 8},
    'C09': {'c:approx': 18, 'c:bigpool': 10, 'py:approx': 14, 'py:bigpool': 8},
    'C10': {'c:dense': 1, 'py:dense': 1, 'c:compress': 15, 'c:bigpool': 5, 'py:compress': 15, 'py:tiny': 5},
    'C11': {'c:dense': 1, 'py:dense': 1, 'c:cq': 15, 'c:tiny': 5, 'c:bigpool': 5, 'py:cq': 12, 'py:bigpool': 5},
    'C13': {'c:huge': (1, 'plot'), 'py:huge': (2, 'plot'), 'c:large': 1, 'c:genc': 15, 'c:iso': 4, 'py:genc': 12},
    'C14': {'c:huge': (1, 'plot'), 'py:huge': (1, 'plot'), 'c:cenc': 15, 'py:cenc': 12},
    'C15': {'c:gdec': 15, 'c:gdecraw': 10, 'c:longmsg': 2, 'py:gdec': 12, 'py:gdecraw': 6, 'py:longmsg': 2},
    'C16': {'c:cdec': 15, 'c:cdecraw': 10, 'c:longmsg': 2, 'py:cdec': 12, 'py:cdecraw': 6, 'py:longmsg': 2},
    'C19': {'c:text': 15, 'c:bigtext': 2, 'py:text': 10, 'py:bigtext': 1},
    'C27': {'c:gdec': 8, 'c:cdec': 8, 'py:gdec': 6, 'py:cdec': 6},
    'C20': {'c:pooltext': 20, 'c:bigtext': 2, 'py:pooltext': 15, 'py:bigtext': 1},
}

UND = {'und': 1}
CHECKS = {
    'C01': check(['exists', 'iter', 'count', 'nbr', 'vc', 'und'] + MUTATE,
                 {'rust:hist': 160, 'rust:teardown': 40, 'rust:wide': 3, 'rust:fan': 40, 'rust:large': 3, 'rust:mix': 20,
                  'rust:long': 10, 'rust:huge': 1, 'rust:bare': 8},
                 ['graph'], [('rust', 'graph', 'graph', 1400, None)],
                 more=[('rust', 'iso', 300), ('c', 'hist', 500), ('py', 'hist', 300)]),
    'C02': check(['und', 'mirror', 'exists', 'iter', 'count', 'nbr', 'gverdict', 'cverdict', 'handle', 'cexists', 'block'],
                 {'rust:hist': (50, UND), 'rust:teardown': (20, UND), 'rust:iso': (20, UND), 'rust:cq': (15, UND),
                  'rust:approx': (15, UND), 'rust:gdec': (15, UND), 'rust:cdec': (15, UND), 'rust:a2g': 20,
                  'rust:builder': (10, UND), 'rust:cdecraw': 8, 'rust:gdecraw': 8, 'rust:fan': (20, UND), 'rust:mix': (20, UND),
                  'rust:large': (1, UND),
                  'rust:long': (6, UND), 'rust:huge': (1, UND), 'rust:dense': (3, UND)},
                 ['graph', 'adj'], [('rust', 'graph', 'graph', 500, None), ('rust', 'adj', 'matrix', 500, None)]),
    'C03': check(['count', 'iter', 'exists', 'handle'],
                 {'rust:hist': 50, 'rust:teardown': 25, 'rust:approx': 15, 'rust:cq': 15, 'rust:genc': 15,
                  'rust:a2g': 20, 'rust:iso': 15, 'rust:gdec': 8, 'rust:wide': 2, 'rust:fan': 25, 'rust:large': 3, 'rust:mix': 20,
                  'rust:long': 6, 'rust:huge': 1, 'rust:dense': 2},
                 ['graph'], [('rust', 'graph', 'graph', 600, None)]),
    'C04': check(['vc', 'handle', 'maxid'] + MUTATE,
                 {'rust:hist': 45, 'rust:maxid': 40, 'rust:iso': 15, 'rust:a2g': 15, 'rust:cq': 10, 'rust:genc': 10,
                  'rust:teardown': 10, 'rust:mix': 15, 'rust:large': 1,
                  'rust:long': 4, 'rust:bare': 8},
                 ['graph'], [('rust', 'graph', 'graph', 800, None)]),
    'C05': check(['nbr'],
                 {'rust:hist': 100, 'rust:teardown': 40, 'rust:wide': 10, 'rust:fan': 30, 'rust:iso': 20, 'rust:cq': 20, 'rust:a2g': 20,
                  'rust:approx': 15, 'rust:large': 4, 'rust:gdec': 8,
                  'rust:long': 4, 'rust:huge': 1},
                 ['graph'], [('rust', 'graph', 'graph', 700, None)]),
    'C06': check(['all'], {'rust:iso': 100, 'rust:mix': 60, 'rust:numtext': 15, 'rust:text': 15, 'c:iso': 20, 'c:mix': 10, 'py:iso': 15, 'py:mix': 8,
                  'rust:long': 4},
                 ['copies'], [('rust', 'copies', 'copies', 500, 20000)]),
    'C07': check(MEMBER + ['a2g', 'mirror'] + MUTATE, {'rust:a2g': 140, 'rust:matwide': (3, {'kind': 'adj'}),
                  'rust:long': 6},
                 ['adj'], [('rust', 'adj', 'matrix', 500, None)]),
    'C08': check(['pooled', 'pool', 'handle'],
                 {'rust:pool': 70, 'rust:bare': 8, 'rust:bigpool': 40, 'rust:tiny': 15, 'rust:pooltext': 8,
                  'rust:mix': (40, {'focus': 'pool'}), 'rust:large': 2,
                  'rust:huge': (1, {'shape': 'grid'}), 'rust:dense': 6},
                 ['derive', 'words'], [('rust', 'derive', 'derive', 22, None)]),
    'C09': check(MEMBER + ['approx', 'mirror'],
                 {'rust:approx': 120, 'rust:bare': 8, 'rust:bigpool': 40, 'rust:tiny': 15, 'rust:mix': (40, {'focus': 'approx'}), 'rust:large': 2,
                  'rust:huge': (1, {'shape': 'grid'}), 'rust:dense': 8},
                 ['derive', 'words'], [('rust', 'derive', 'derive', 22, None)]),
    'C10': check(['compress', 'level', 'block', 'count', 'vc', 'und', 'cexists', 'cencode', 'handle'],
                 {'rust:compress': 90, 'rust:bare': 8, 'rust:tiny': 25, 'rust:cenc': 25, 'rust:bigpool': 15,
                  'rust:mix': (40, {'focus': 'compress+decompress'}), 'rust:large': 2,
                  'rust:huge': (1, {'shape': 'grid'}), 'rust:dense': 8},
                 ['derive'], [('rust', 'derive', 'compress', 30, None)]),
    'C11': check(MEMBER + ['cexists', 'block', 'level', 'decompress', 'mirror', 'dec-cgraph', 'cencode'],
                 {'rust:cq': 70, 'rust:bare': 8, 'rust:tiny': 25, 'rust:cenc': 20, 'rust:bigpool': 15, 'rust:compress': 15,
                  'rust:mix': (30, {'focus': 'compress+decompress'}), 'rust:large': 2,
                  'rust:huge': (1, {'shape': 'grid'}), 'rust:dense': 6},
                 ['derive'], [('rust', 'derive', 'compress', 30, None)]),
    'C12': check(['all'], {'rust:builder': 220}, ['derive']),
    'C13': check(MEMBER + ['gencode', 'gverdict', 'dec-graph', 'enc', 'mirror'] + MUTATE,
                 {'rust:genc': 90, 'rust:bare': 8, 'rust:iso': 20, 'rust:gdec': 15, 'rust:bigpool': 10,
                  'rust:mix': (30, {'focus': 'enc+dec'}), 'rust:large': 2,
                  'rust:huge': 1, 'rust:dense': 3},
                 ['wireg', 'derive'], [('rust', 'derive', 'derive', 12, 300)]),
    'C14': check(['cencode', 'cverdict', 'dec-cgraph', 'enc', 'handle', 'cexists', 'exists', 'block', 'level', 'vc', 'count',
                  'und', 'decompress', 'mirror', 'iter'],
                 {'rust:cenc': 80, 'rust:bare': 8, 'rust:builder': 30, 'rust:bigpool': 15, 'rust:cdec': 15,
                  'rust:mix': (20, {'focus': 'compress+decompress'}), 'rust:large': 1, 'rust:dense': 4},
                 ['wirec', 'derive'], [('rust', 'derive', 'compress', 15, 300)]),
    'C15': check(MEMBER + ['gverdict', 'dec-graph', 'gencode', 'mirror'],
                 {'rust:gdec': 100, 'rust:gdecraw': 60, 'rust:claims': 20, 'rust:longmsg': 8},
                 ['wireg'], [('rust', 'wireg', 'wireg', 1500, None)]),
    'C16': check(MEMBER + ['cverdict', 'dec-cgraph', 'cencode', 'cexists', 'block', 'level', 'mirror', 'decompress'],
                 {'rust:cdec': 90, 'rust:cdecraw': 60, 'rust:claims': 20, 'rust:longmsg': 8},
                 ['wirec'], [('rust', 'wirec', 'wirec', 1500, 40000)]),
    'C17': check(['adj'], {'rust:adj': 110, 'rust:a2g': 15, 'rust:matwide': (6, {'kind': 'adj'}),
                  'rust:long': 10},
                 ['adj'], [('rust', 'adj', 'matrix', None, None)]),
    'C18': check(['mat'], {'rust:mat': 150, 'rust:matwide': (8, {'kind': 'mat'}),
                  'rust:long': 12},
                 ['mat', 'words'], [('rust', 'mat', 'matrix', None, None)]),
    'C19': check(['text', 'handle'], {'rust:text': 120, 'rust:bare': 8, 'rust:builder': 20, 'rust:mix': (40, {'focus': 'str+compress'}),
                  'rust:bigtext': 12},
                 ['derive'], [('rust', 'derive', 'compress', 15, 300)]),
    'C20': check(['numtext'], {'rust:numtext': 120, 'rust:bare': 4, 'rust:pooltext': 40, 'rust:mix': (25, {'focus': 'pooltext'}),
                  'rust:bigtext': 10}, ['words']),
    'C21': check(['all'],
                 {'c:hist': 30, 'c:teardown': 8, 'c:iso': 15, 'c:approx': 15, 'c:pool': 15, 'c:compress': 15, 'c:cq': 12,
                  'c:genc': 15, 'c:cenc': 10, 'c:gdec': 10, 'c:cdec': 10, 'c:text': 8, 'c:pooltext': 10, 'c:tiny': 8,
                  'c:bigpool': 10, 'c:own': 10, 'c:maxid': 8, 'c:wide': 4, 'c:fan': 10, 'c:mix': 20, 'c:large': 1,
                  'c:long': 4, 'c:bigtext': 2, 'c:huge': 2, 'c:bare': 10, 'c:dense': 2, 'c:longmsg': 2},
                 ['graph'], [('c', 'graph', 'graph', 300, None)]),
    'C22': check(['cnull', 'cerr', 'handle', 'gverdict', 'cverdict', 'dec-graph', 'dec-cgraph', 'null', 'noout', 'text', 'numtext',
                  'mem'],
                 {'c:cnull': 60, 'c:bare': 8, 'c:gdec': 25, 'c:cdec': 25, 'c:gdecraw': 12, 'c:cdecraw': 12, 'c:longmsg': 3},
                 ['wireg'], [('c', 'wireg', 'wireg', 400, None)]),
    'C23': check(['mem', 'hold', 'held', 'rel'], {'c:own': 90, 'c:bare': 15, 'c:cnull': 15, 'c:iso': 12},
                 ['own'], [('c', 'own', 'own', 600, None)]),
    'C24': check(['all'],
                 {'py:hist': 25, 'py:teardown': 6, 'py:iso': 12, 'py:approx': 12, 'py:pool': 12, 'py:compress': 12, 'py:cq': 10,
                  'py:genc': 12, 'py:cenc': 8, 'py:gdec': 8, 'py:cdec': 8, 'py:text': 6, 'py:pooltext': 8, 'py:tiny': 6,
                  'py:bigpool': 10, 'py:maxid': 8, 'py:wide': 3, 'py:plist': 8, 'py:fan': 8, 'py:mix': 15, 'py:large': 1,
                  'py:long': 3, 'py:bigtext': 2, 'py:huge': 1, 'py:bare': 8, 'py:dense': 2, 'py:longmsg': 2},
                 ['graph'], [('py', 'graph', 'graph', 250, None)]),
    'C25': check(['pylist', 'pyerr', 'hold', 'held', 'iter', 'nbr', 'idx', 'walk', 'next', 'gverdict', 'cverdict', 'mat', 'pooled'],
                 {'py:plist': 60, 'py:bare': 8, 'py:pyerr': 30, 'py:own': 20, 'py:gdec': 10, 'py:cdec': 10, 'py:longmsg': 2},
                 ['own'], [('py', 'own', 'own', 200, None)]),
    'C26': check(['cost'],
                 {'rust:sparse': 60, 'rust:claims': 60, 'rust:bigpool': 30, 'rust:gdec': 20, 'rust:cdec': 20, 'rust:builder': 20,
                  'rust:adj': 15, 'rust:mat': 15, 'rust:cq': 15, 'rust:maxid': 10, 'rust:text': 10, 'rust:large': 1, 'rust:gdecraw': 10,
                  'rust:cdecraw': 10, 'c:sparse': 20, 'c:claims': 20, 'c:own': 10, 'c:bare': 8, 'rust:bare': 8},
                 ['derive'], [('rust', 'derive', 'derive', 12, 300)]),
    'C27': check(['fail', 'gverdict', 'cverdict', 'a2g'],
                 {'rust:gdec': 40, 'rust:cdec': 40, 'rust:gdecraw': 20, 'rust:cdecraw': 20, 'rust:a2g': 40, 'rust:text': 25,
                  'rust:numtext': 25, 'rust:claims': 20, 'rust:sparse': 20, 'rust:longmsg': 3},
                 ['wireg'], [('rust', 'wireg', 'wireg', 500, None)]),
    'C28': check(['mem'],
                 {'py:own': 70, 'py:bare': 15, 'py:plist': 40, 'py:pyerr': 25, 'py:iso': 12, 'py:gdec': 10, 'py:cdec': 10, 'py:text': 6, 'py:pooltext': 10,
                  'py:wide': 3, 'py:mix': 6},
                 ['own'], [('py', 'own', 'own', 300, None)]),
    'C29': check(['all'],
                 {'rustt:hist': 40, 'rustt:relay': 90, 'rustt:share': 20, 'rustt:tight': 75, 'rustt:apart': 40, 'rustt:mix': 15, 'rustt:iso': 10, 'rustt:teardown': 10, 'rustt:approx': 10,
                  'rustt:cq': 15, 'rustt:genc': 10, 'rustt:gdecraw': 6, 'rustt:cdecraw': 6, 'rustt:builder': 15, 'rustt:a2g': 15,
                  'rustt:adj': 15, 'rustt:mat': 15, 'rustt:numtext': 10, 'rustt:pooltext': 8, 'rustt:text': 6, 'rustt:bare': 6, 'rustt:fan': 4,
                  'ct:relay': 15, 'ct:share': 10, 'ct:tight': 20, 'ct:apart': 15, 'ct:hist': 10, 'ct:own': 8, 'ct:mix': 4, 'ct:pooltext': 4, 'ct:gdecraw': 4, 'ct:cdecraw': 3,
                  'pyt:relay': 10, 'pyt:share': 5, 'pyt:tight': 5, 'pyt:apart': 6, 'pyt:hist': 6, 'pyt:own': 6, 'pyt:plist': 4, 'pyt:pooltext': 3, 'pyt:gdecraw': 3},
                 ['threads'], [('rustt', 'threads', 'threads', 400, None), ('ct', 'threads', 'threads', 100, 2000)]),
}

for _id, _fams in BOUND.items():
    for _k, _v in _fams.items():
        _api, _fam = _k.split(':')
        _n, _opt = (_v[0], UND if _v[1] == 'und' else {'shape': _v[1]}) if isinstance(_v, tuple) else (_v, {})
        CHECKS[_id]['quick'].append((_api, _fam, _n, _opt))
        CHECKS[_id]['thorough'].append((_api, _fam, _n * 25, _opt))
