"""From the state graphs of spec/JournalMC.tla and MapMC.tla to scripts for
   harness/jdrv.c and mapdrv.c.

   scripts.py NAME [STEPS [SECONDS]] explores configuration NAME with TLC (for
   that long) and writes spec/scripts/NAME.gz, whose scripts take every
   transition at least once, or as many as fit into STEPS steps.
"""
import collections
import gzip
import json
import os
import random
import sys

import vf

# name: constants of the model, and the chip for the driver
CONFIGS = {
    # nothing but power loss
    'p3': (dict(NB=3, LB=1, PPC=1, MaxCut=3), dict(lp=8, lb=1, nb=3)),
    'p4': (dict(NB=4, LB=1, PPC=1, MaxCut=3), dict(lp=8, lb=1, nb=4)),
    'p3g': (dict(NB=3, LB=2, PPC=1, MaxCut=3), dict(lp=8, lb=2, nb=3)),
    'p3b': (dict(NB=3, LB=2, PPC=2, MaxCut=3), dict(lp=9, lb=2, nb=3)),
    # failing blocks, too
    'f5': (dict(NB=5, LB=1, PPC=1, MaxCut=12, MaxBad=1, Reserve=3),
           dict(lp=8, lb=1, nb=5)),
    'f6': (dict(NB=6, LB=1, PPC=1, MaxCut=12, MaxBad=1, Reserve=3),
           dict(lp=8, lb=1, nb=6)),
    'f6f': (dict(NB=6, LB=1, PPC=1, MaxCut=12, MaxBad=1, Reserve=3,
                 FullFail='TRUE'), dict(lp=8, lb=1, nb=6, fullfail=1)),
    'f5g': (dict(NB=5, LB=2, PPC=1, MaxCut=12, MaxBad=1, Reserve=4),
            dict(lp=8, lb=2, nb=5)),
    'f5b': (dict(NB=5, LB=2, PPC=2, MaxCut=12, MaxBad=1, Reserve=6),
            dict(lp=9, lb=2, nb=5)),
    # wear
    'pw5': (dict(NB=5, LB=1, PPC=1, MaxCut=0, Wear='TRUE'),
            dict(lp=8, lb=1, nb=5)),
    'fw6': (dict(NB=6, LB=1, PPC=1, MaxCut=0, MaxBad=1, Reserve=3, Wear='TRUE'),
            dict(lp=8, lb=1, nb=6)),
    'f7': (dict(NB=7, LB=1, PPC=1, MaxCut=0, MaxBad=2, Reserve=3),
           dict(lp=8, lb=1, nb=7)),
}

# The same for the map
MAPS = {
    # one sector of two
    'm6': (dict(NB=6, LB=1, PPC=1, GcRatio=5, Depth=1, MaxCut=20),
           dict(lp=8, lb=1, nb=6, gc=5)),
    # two sectors of two, of four
    'm7': (dict(NB=7, LB=1, PPC=1, GcRatio=10, Depth=1, MaxCut=3),
           dict(lp=8, lb=1, nb=7, gc=10)),
    'm7d': (dict(NB=7, LB=1, PPC=1, GcRatio=10, Depth=2, MaxCut=3),
           dict(lp=8, lb=1, nb=7, gc=10)),
    'm8': (dict(NB=8, LB=1, PPC=1, GcRatio=4, Depth=1, MaxCut=3),
           dict(lp=8, lb=1, nb=8, gc=4)),
    'm8d': (dict(NB=8, LB=1, PPC=1, GcRatio=4, Depth=2, MaxCut=3),
           dict(lp=8, lb=1, nb=8, gc=4)),
    # several groups, or larger groups in a block
    'm6g': (dict(NB=6, LB=2, PPC=1, GcRatio=10, Depth=1, MaxCut=3),
            dict(lp=8, lb=2, nb=6, gc=10)),
    'm6b': (dict(NB=5, LB=2, PPC=2, GcRatio=5, Depth=1, MaxCut=3),
            dict(lp=9, lb=2, nb=5, gc=5)),
    # pages which can't be read now and then
    'r6': (dict(NB=6, LB=1, PPC=1, GcRatio=5, Depth=1, MaxCut=0,
                Unreadable='TRUE'), dict(lp=8, lb=1, nb=6, gc=5)),
    'r8': (dict(NB=8, LB=1, PPC=1, GcRatio=4, Depth=1, MaxCut=2,
                Unreadable='TRUE'), dict(lp=8, lb=1, nb=8, gc=4)),
    'r7d': (dict(NB=7, LB=1, PPC=1, GcRatio=10, Depth=2, MaxCut=0,
                 Unreadable='TRUE'), dict(lp=8, lb=1, nb=7, gc=10)),
    'r6g': (dict(NB=6, LB=2, PPC=1, GcRatio=10, Depth=1, MaxCut=2,
                 Unreadable='TRUE'), dict(lp=8, lb=2, nb=6, gc=10)),
    # wear, with orderly restarts only
    'w6': (dict(NB=6, LB=1, PPC=1, GcRatio=5, Depth=1, MaxCut=0, MaxBad=1,
                MaxFail=20, Wear='TRUE'), dict(lp=8, lb=1, nb=6, gc=5)),
    'w8': (dict(NB=8, LB=1, PPC=1, GcRatio=4, Depth=1, MaxCut=0, MaxBad=1,
                MaxFail=20, Wear='TRUE'), dict(lp=8, lb=1, nb=8, gc=4)),
    'w6g': (dict(NB=6, LB=2, PPC=1, GcRatio=10, Depth=1, MaxCut=0, Wear='TRUE'),
            dict(lp=8, lb=2, nb=6, gc=10)),
    # failing blocks
    'b8': (dict(NB=8, LB=1, PPC=1, GcRatio=4, Depth=1, MaxCut=0, MaxBad=1,
                MaxFail=20), dict(lp=8, lb=1, nb=8, gc=4)),
}


def is_map(name):
    return name in MAPS


def config(name, emit):
    if is_map(name):
        c = dict(Retries=2, Epochs=3, FullFail='FALSE', Whole='TRUE', MaxBad=0,
                 MaxFail=0, Unreadable='FALSE', Wear='FALSE',
                 Emit='TRUE' if emit else 'FALSE')
        c.update(MAPS[name][0])
        return header(c, ' Filler <- Erased\n Unread <- Lost\n')
    c = dict(Retries=8, Epochs=3, FullFail='FALSE', Whole='TRUE', MaxBad=0,
             Reserve=0, Filler=0, Wear='FALSE', Emit='TRUE' if emit else 'FALSE')
    c.update(CONFIGS[name][0])
    return header(c, ' Unread <- Minus2\n')


def header(c, more):
    return ('SPECIFICATION Spec\nINVARIANT Good\nVIEW View\n'
            'CHECK_DEADLOCK FALSE\nCONSTANTS\n' + more +
            ''.join(' %s = %s\n' % x for x in sorted(c.items())))


def options(name):
    """options for the driver"""
    if is_map(name):
        m, chip = MAPS[name]
        return dict(chip, script=1, whole=1, sect=6, k=1 << m['Depth'],
                    eccop=int(m.get('Unreadable') == 'TRUE'),
                    fullfail=int(m.get('FullFail') == 'TRUE'))
    m, chip = CONFIGS[name]
    o = dict(chip, script=1 + m.get('MaxBad', 0), whole=1)
    if m.get('Reserve'):
        o['reserve'] = m['Reserve']
    return o


def edges(lines):
    for x in lines:
        if x.startswith('"{'):
            yield json.loads(json.loads(x))


def key(e):
    return tuple(e.get(x) for x in ('op', 's', 's2', 'cut', 'tear', 'fail'))


def lines(walk):
    """As text.  Sector numbers in edges are relative: see View in MapMC."""
    out = []
    x = 0
    for e in walk:
        log = ','.join('%s%d' % (o, a) for o, a in e['log']) or '-'
        more = ''
        if 'x' in e:
            more = '%d %d ' % (e['s'] ^ x, e['s2'] ^ x)
            x ^= e['x']
        out.append('%s %s%d %d %d %s\n' % (e['op'], more, e['cut'], e['tear'],
                                           e['fail'], log))
    return ''.join(out)


def walks(es, rng, steps=None, longest=1000):
    """Paths from the start which take every edge."""
    out = collections.defaultdict(dict)
    for e in es:
        out[e['a']].setdefault(key(e), e)
    start = es[0]['a']
    # how to get anywhere
    parent = {start: None}
    dq = collections.deque([start])
    while dq:
        n = dq.popleft()
        for e in out[n].values():
            if e['b'] not in parent:
                parent[e['b']] = e
                dq.append(e['b'])
    todo = {n: list(o.values()) for n, o in out.items()}
    for n in todo:
        rng.shuffle(todo[n])
    nodes = [n for n in parent if n in todo]
    rng.shuffle(nodes)
    total = 0
    left = sum(len(v) for v in todo.values())
    while nodes and (steps is None or total < steps):
        n = nodes[-1]
        if not todo[n]:
            nodes.pop()
            continue
        path = []
        while n != start:
            path.append(parent[n])
            n = parent[n]['a']
        path.reverse()
        n = path[-1]['b'] if path else start
        while len(path) < longest:
            if not todo.get(n):
                # somewhere near with something left to do?
                seen = {n: None}
                dq = collections.deque([n])
                found = None
                while dq and len(seen) < 300:
                    x = dq.popleft()
                    if todo.get(x):
                        found = x
                        break
                    for e in out[x].values():
                        if e['b'] not in seen:
                            seen[e['b']] = e
                            dq.append(e['b'])
                if found is None:
                    break
                way = []
                while found != n:
                    way.append(seen[found])
                    found = seen[found]['a']
                path += reversed(way)
                n = path[-1]['b']
                continue
            e = todo[n].pop()
            left -= 1
            path.append(e)
            n = e['b']
        total += len(path)
        yield path
    if left and steps is None:
        raise ValueError('%d edges are not reachable' % left)


def save(name, es, path, steps=None):
    rng = random.Random(name)
    n = 0
    with gzip.GzipFile(path + '.new', 'wb', mtime=0) as f:
        for w in walks(es, rng, steps):
            f.write((lines(w) + '\n').encode())
            n += len(w)
    os.rename(path + '.new', path)
    return n


def load(path):
    with gzip.open(path, 'rt') as f:
        return [x.encode() + b'\n' for x in f.read().split('\n\n') if x]


def batch(name, walks, rng=None, judge=None, **more):
    """Runs which follow the scripts, with more options, and the specification
    that judges them."""
    rng = rng or random.Random(name)
    if judge in ('NandTrace', 'FmtTrace'):
        more['nandlog'] = 1
    if is_map(name):
        return vf.Batch(judge or 'MapTrace', [
            vf.Job('mapdrv_r2', dict(options(name), **more,
                                     seed=rng.randrange(1, 1 << 30)),
                   stdin=w) for w in walks])
    return vf.Batch(judge or 'JournalTrace', [
        vf.Job('jdrv', dict(options(name), **more), stdin=w) for w in walks])


def committed(name, rng=None, steps=None, **more):
    """Runs which follow the scripts in spec/scripts, or about as many of them
    as make that many steps."""
    ws = load(os.path.join(vf.SPEC, 'scripts', name + '.gz'))
    if steps:
        rng.shuffle(ws)
        n = 0
        for i, w in enumerate(ws):
            n += w.count(b'\n')
            if n >= steps:
                ws = ws[:i + 1]
                break
    return batch(name, ws, rng, **more)


def model(name, **kw):
    return vf.Model(module(name), config(name, False),
                    '%s as a state machine (%s): %s' % (
                        'map.c on journal.c' if is_map(name) else 'journal.c',
                        name, ' '.join('%s=%s' % x for x in (
                            MAPS if is_map(name) else CONFIGS)[name][0].items()
                        )), **kw)


def module(name):
    return 'MapMC' if is_map(name) else 'JournalMC'


def explored(name, stop=1200, **more):
    """Explore the model afresh, as far as that many seconds go, and have the
    code follow."""
    def f(env):
        m = model(name, emit=True, timeout=7200, stop=stop)
        m.cfg = config(name, True)
        r = m.run(env)
        es = list(edges(m.out.split('\n')))
        m.out = None
        ws = [lines(w).encode() for w in walks(es, random.Random(name), 500000)]
        return r, batch(name, ws, random.Random(name), **more)
    return f


def main():
    name = sys.argv[1]
    steps = int(sys.argv[2]) if len(sys.argv) > 2 else None
    stop = int(sys.argv[3]) if len(sys.argv) > 3 else None
    env = vf.Env()
    cfg = env.path('.cfg')
    with open(cfg, 'w') as f:
        f.write(config(name, True))
    t = vf.tlc(module(name), cfg, env, workers=vf.NCPU, mem='8g',
               timeout=36000, stop=stop)
    es = list(edges(t.out.split('\n')))
    n = save(name, es, os.path.join(vf.SPEC, 'scripts', name + '.gz'), steps)
    print('%s: %s, %d transitions, %d distinct states, %d not explored, '
          '%d steps' % (name, 'fine' if t.ok else 'DOES NOT HOLD', len(es),
                        t.distinct, t.left, n))
    env.close()


if __name__ == '__main__':
    main()
