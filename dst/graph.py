"""Random graphs of user blocks, their YAML form and a reference interpreter of the documented trigger semantics."""
import copy
import yaml
from dst_objs.arith import combine, vector

MODES = ['inplace', 'rebind', 'scalar', 'inplace']


def gen_graph(rng, nmin=2, nmax=9, delays=True, lists=True, modes=MODES, phases=('trigger', 'trigger', 'prepare', 'post'),
              none_init=True, statics=True, list_out=True):
    n = rng.randint(nmin, nmax)
    nodes = []
    style = rng.choice(['dense', 'sparse', 'slow', 'chain'])
    for i in range(n):
        L = rng.randint(1, 5)
        if style == 'slow' or rng.chance(0.3):
            sched = rng.bits(L, 0.4)
        else:
            sched = [1] * L
        nodes.append(dict(name=f'n{i}', sched=sched, size=rng.randint(1, 4), coef=rng.randint(1, 9),
                          mode=rng.choice(list(modes)), phase=rng.choice(list(phases)),
                          none_init=bool(none_init and rng.chance(0.15)),
                          list_out=(rng.randint(1, 3) if list_out and rng.chance(0.15) else 0), inputs=[]))
    stat = []
    if statics and rng.chance(0.4):
        stat = [dict(name=f's{i}', numbers=[rng.randint(0, 50) for _ in range(rng.randint(1, 3))])
                for i in range(rng.randint(1, 2))]

    def src_of(j):
        nd = nodes[j]
        if nd['list_out'] and rng.chance(0.5):
            return [nd['name'], 'outs']
        return [nd['name'], 'out']
    for i in range(n):
        earlier = list(range(i))
        later = list(range(i + 1, n))
        nin = 0 if i == 0 else rng.randint(0, 3)
        if style == 'chain' and i:
            nin = max(nin, 1)
        k = 0
        for _ in range(nin):
            kind = rng.weighted([('single', 3), ('list', 2 if lists else 0), ('opt', 1)])
            srcs = []
            cnt = rng.randint(1, 3) if kind == 'list' else 1
            for _ in range(cnt):
                if delays and later and rng.chance(0.3):
                    o = src_of(rng.choice(later))
                    d = -1
                elif earlier:
                    o = src_of(earlier[-1] if style == 'chain' and rng.chance(0.6) else rng.choice(earlier))
                    d = 0
                else:
                    continue
                if stat and rng.chance(0.1):
                    o, d = [rng.choice(stat)['name'], None], 0
                if kind != 'list' and o[1] == 'outs':
                    o[1] = 'out'
                srcs.append(o + [d])
            if kind == 'single' and not srcs:
                continue
            if kind in ('opt', 'list') and rng.chance(0.2):
                srcs = []
            nodes[i]['inputs'].append(dict(name=f'i{k}', kind=kind, srcs=srcs))
            k += 1
        # a block fed only by delayed or static inputs is never refreshed: outside the property's scope
        conn = [s for inp in nodes[i]['inputs'] for s in inp['srcs']]
        if conn and all(s[2] < 0 or s[1] is None for s in conn):
            if earlier:
                nodes[i]['inputs'].append(dict(name=f'i{k}', kind='single', srcs=[[nodes[rng.choice(earlier)]['name'], 'out', 0]]))
            else:
                nodes[i]['inputs'] = []
    names = [x['name'] for x in nodes] + [s['name'] for s in stat]
    return dict(nodes=nodes, statics=stat, order=names)


def fix_graph(g):
    """After a reduction: drop references to missing nodes; keep the graph in scope. Returns graph or None."""
    g = copy.deepcopy(g)
    have = {x['name']: x for x in g['nodes']}
    stat = {s['name'] for s in g['statics']}
    for nd in g['nodes']:
        keep = []
        for inp in nd['inputs']:
            inp['srcs'] = [s for s in inp['srcs'] if (s[0] in have and (s[1] != 'outs' or have[s[0]]['list_out'])) or
                           (s[0] in stat and s[1] is None)]
            if inp['srcs'] or inp['kind'] != 'single':
                keep.append(inp)
        nd['inputs'] = keep
        conn = [s for inp in keep for s in inp['srcs']]
        if conn and all(s[2] < 0 or s[1] is None for s in conn):
            return None
    g['order'] = [x for x in g['order'] if x in have or x in stat]
    if not g['nodes']:
        return None
    return g


def node_yaml(nd, rank=None):
    d = {'class': 'DstNode'}
    if rank is not None:
        d['target_rank'] = rank
    io = [i['name'] for i in nd['inputs']]
    d.update(singles=[i['name'] for i in nd['inputs'] if i['kind'] == 'single'],
             optionals=[i['name'] for i in nd['inputs'] if i['kind'] == 'opt'],
             lists=[i['name'] for i in nd['inputs'] if i['kind'] == 'list'], in_order=io,
             schedule=nd['sched'], size=nd['size'], coef=nd['coef'], mode=nd['mode'], phase=nd['phase'],
             none_init=nd['none_init'], n_list_out=nd['list_out'])
    ins = {}
    for i in nd['inputs']:
        if not i['srcs']:
            continue
        strs = [s[0] + (('.' + s[1]) if s[1] else '') + (f':{s[2]}' if s[2] else '') for s in i['srcs']]
        ins[i['name']] = strs if i['kind'] == 'list' else strs[0]
    if ins:
        d['inputs'] = ins
    d['outputs'] = ['out'] + (['outs'] if nd['list_out'] else [])
    return d


def to_params(g, total_time, dt, ranks=None, order=None, extra_main=None):
    main = {'class': 'SimulParams', 'root_dir': '.', 'total_time': total_time, 'time_step': dt, 'add_modules': ['dst_objs']}
    main.update(extra_main or {})
    p = {'main': main}
    nodes = {x['name']: x for x in g['nodes']}
    stats = {s['name']: s for s in g['statics']}
    for name in (order or g['order']):
        if name in nodes:
            p[name] = node_yaml(nodes[name], None if ranks is None else ranks.get(name))
        elif name in stats:
            p[name] = {'class': 'DstValue', 'numbers': stats[name]['numbers']}
    return p


def write_params(p, path):
    with open(path, 'w') as f:
        yaml.safe_dump(p, f, sort_keys=False)
    return path


def reference(g, nsteps, dt_ns, t0_ns=0):
    """Independent interpreter. Returns {name: [(t, seen)]}, {name: final vector}."""
    nodes = g['nodes']          # generation order is a topological order of the non-delayed edges
    st = {s['name']: list(s['numbers']) for s in g['statics']}
    val, fresh, state, count, log = {}, {}, {}, {}, {}
    for nd in nodes:
        z = None if nd['none_init'] else [0] * (1 if nd['mode'] == 'scalar' else nd['size'])
        val[nd['name']] = {'out': z, 'outs': [[0] * (1 if nd['mode'] == 'scalar' else nd['size']) for _ in range(nd['list_out'])]}
        fresh[nd['name']] = -1
        state[nd['name']], count[nd['name']], log[nd['name']] = 1, 0, []
    done = [nd for nd in nodes]
    remaining = {nd['name']: nd for nd in done}
    order = []
    placed = set()
    while remaining:
        for nm, nd in list(remaining.items()):
            if all(s[1] is None or s[2] < 0 or s[0] in placed for i in nd['inputs'] for s in i['srcs']):
                order.append(nd)
                placed.add(nm)
                del remaining[nm]
                break
        else:
            raise ValueError('cyclic graph')
    for k in range(nsteps):
        t = t0_ns + k * dt_ns
        prev = {n: (copy.deepcopy(v)) for n, v in val.items()}
        for nd in order:
            conn = [s for i in nd['inputs'] for s in i['srcs']]
            run = (not conn) or any(s[1] is not None and s[2] == 0 and fresh[s[0]] == t for s in conn)
            if not run:
                continue
            seen = []
            for i in nd['inputs']:
                grp = []
                for s in i['srcs']:
                    if s[1] is None:
                        grp.append(st[s[0]])
                        continue
                    v = (prev if s[2] < 0 else val)[s[0]][s[1]]
                    if s[1] == 'outs':
                        grp.extend(copy.deepcopy(v))
                    else:
                        grp.append(copy.deepcopy(v))
                if i['kind'] != 'list' and not grp:
                    grp = [None]
                seen.append(grp)
            nm = nd['name']
            state[nm] = combine(state[nm], nd['coef'], seen)
            fire = nd['sched'][count[nm] % len(nd['sched'])]
            count[nm] += 1
            log[nm].append((t, seen))
            if fire:
                size = 1 if nd['mode'] == 'scalar' else nd['size']
                val[nm]['out'] = vector(state[nm], size)
                val[nm]['outs'] = [vector(state[nm], size, salt=j + 1) for j in range(nd['list_out'])]
                fresh[nm] = t
    return log, {n: v['out'] for n, v in val.items()}


def graph_reductions(g):
    """Smaller graphs."""
    for i in range(len(g['nodes'])):
        h = copy.deepcopy(g)
        nm = h['nodes'][i]['name']
        del h['nodes'][i]
        h['order'] = [x for x in h['order'] if x != nm]
        h = fix_graph(h)
        if h:
            yield h
    for i, nd in enumerate(g['nodes']):
        for k in range(len(nd['inputs'])):
            h = copy.deepcopy(g)
            del h['nodes'][i]['inputs'][k]
            h = fix_graph(h)
            if h:
                yield h
            for s in range(len(nd['inputs'][k]['srcs'])):
                if len(nd['inputs'][k]['srcs']) > 1:
                    h = copy.deepcopy(g)
                    del h['nodes'][i]['inputs'][k]['srcs'][s]
                    h = fix_graph(h)
                    if h:
                        yield h
        for key, simple in (('sched', [1]), ('mode', 'inplace'), ('phase', 'trigger'), ('none_init', False), ('size', 1),
                            ('coef', 1), ('list_out', 0)):
            if nd[key] != simple:
                h = copy.deepcopy(g)
                h['nodes'][i][key] = simple
                h = fix_graph(h)
                if h:
                    yield h
    for s in range(len(g['statics'])):
        h = copy.deepcopy(g)
        nm = h['statics'][s]['name']
        del h['statics'][s]
        h['order'] = [x for x in h['order'] if x != nm]
        h = fix_graph(h)
        if h:
            yield h
