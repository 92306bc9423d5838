"""Workloads for the map layer: what each property's runs look like."""
from vf import Batch, Job



def ppc(lp, lb):
    """log2 of the size of a checkpoint group, in pages"""
    c = 1
    while c < lb and ((2 << c) - 1) * 132 + 20 <= 1 << lp:
        c += 1
    return c


def capacity(lp, lb, nb, gc, bad=0):
    """what MapTrace's MinCapacity says"""
    p = ppc(lp, lb)
    j = (nb - max(bad, nb >> 6) - 1) * (((1 << p) - 1) << (lb - p))
    return max(0, j - j // (max(gc, 1) + 1) - (8 << lb))


def room(cap, lp, lb, gc, bad=0):
    """the smallest chip on which a map can hold cap sectors"""
    nb = 10
    while capacity(lp, lb, nb, gc, bad) < cap:
        nb += 1
    return dict(lp=lp, lb=lb, nb=nb, gc=gc)


# Page size and pages per block (log2).  They cover every checkpoint group
# size (2, 4, 8, 16 pages), groups as large as a block and much smaller.
SHAPES = [(9, 2), (9, 3), (8, 2), (9, 1), (10, 3), (9, 4), (11, 4), (8, 4),
          (10, 4)]


def geoms(cap, gcs=(4,), shapes=SHAPES, bad=0):
    """one geometry per shape, with gc ratios in turn"""
    return [room(cap, lp, lb, gcs[i % len(gcs)], bad)
            for i, (lp, lb) in enumerate(shapes)]


# As small as a useful map gets: it goes round the chip in no time.
TINY = geoms(6)
# With some air
GEOM = [
    dict(lp=9, lb=2, nb=24, gc=4),      # group = block = 4 pages
    dict(lp=9, lb=3, nb=24, gc=4),      # 2 groups of 4
    dict(lp=8, lb=2, nb=40, gc=4),      # 2 groups of 2
    dict(lp=9, lb=1, nb=60, gc=4),      # group = block = 2 pages
    dict(lp=10, lb=3, nb=25, gc=2),     # group = block = 8 pages
    dict(lp=9, lb=4, nb=20, gc=8),      # 4 groups of 4
    dict(lp=11, lb=4, nb=20, gc=8),     # group = block = 16 pages
    dict(lp=8, lb=4, nb=32, gc=2),      # 8 groups of 2
    dict(lp=10, lb=4, nb=27, gc=1),     # 2 groups of 8
]

# With more garbage collection per write than there's free space
BIGGC = [dict(lp=8, lb=1, nb=20, gc=20), dict(lp=8, lb=1, nb=22, gc=100),
         dict(lp=8, lb=2, nb=14, gc=60), dict(lp=9, lb=2, nb=15, gc=40),
         dict(lp=9, lb=3, nb=14, gc=255), dict(lp=10, lb=4, nb=13, gc=255)]

# More than 2^16 sectors, pages, blocks; large blocks
LARGE = [dict(lp=8, lb=2, nb=50000, gc=4, big=66000, mid=8000),
         dict(lp=8, lb=1, nb=90000, gc=9, big=66000, mid=5000),
         dict(lp=9, lb=6, nb=1800, gc=4, big=66000, mid=1000),
         dict(lp=8, lb=8, nb=700, gc=4, big=66000, mid=1000),
         dict(lp=10, lb=10, nb=100, gc=4, big=56000, mid=1000),
         dict(lp=8, lb=14, nb=32, gc=4, big=14000, mid=1000)]


def bulk(rng, n, **kw):
    """Large maps, which are dealt with by the thousands of sectors"""
    js = jobs(rng, n, LARGE, **kw)
    for j in js:
        j.driver = 'bulkdrv'
    return Batch('BulkTrace', js)


def jobs(rng, n, geoms, **kw):
    """n runs, over the given geometries in turn; values may be callables."""
    out = []
    for i in range(n):
        a = dict(geoms[i % len(geoms)])
        for k, v in kw.items():
            a[k] = v(rng) if callable(v) else v
        a['seed'] = rng.randrange(1, 1 << 30)
        out.append(Job('mapdrv', a))
    return out


def pick(*xs):
    return lambda rng: rng.choice(xs)


def rr(a, b):
    return lambda rng: rng.randrange(a, b + 1)


def batch(js, **kw):
    return Batch('MapTrace', js, **kw)
