"""What the check of each property runs.  Each function returns the batches
(recordings of the real code, with the specification that judges them)."""
from vf import Batch, Job
from maps import GEOM, TINY, BIGGC, SHAPES, geoms, room, jobs, batch, bulk, pick, rr
from tools import ToolJob, roots
import scripts

CHECKS = {}


def check(pid, **meta):
    def deco(f):
        CHECKS[pid] = dict(meta, fn=f)
        return f
    return deco


def small_maps(rng, deep, *names, steps=5000, **kw):
    """Everything that can happen to a map of a few sectors, or to a journal:
    the code does what the model does"""
    if deep:
        return [scripts.explored(n, **kw) for n in names]
    return [scripts.committed(n, rng, steps, **kw) for n in names]


@check('C01')
def semantics(rng, deep):
    m = 12 if deep else 3
    return small_maps(rng, deep, 'm8', 'm7d') + [bulk(
        rng, 3 * m, nops=14), batch(
        # arbitrary sector numbers, all operations
        jobs(rng, 54 * m, GEOM + TINY, nops=900, k=rr(8, 16), sect=rr(0, 5),
             ff=pick(0, 3, 20), hot=pick(0, 0, 1, 3)) +
        # many sectors: deep and lopsided trees
        jobs(rng, 18 * m, GEOM[:3] + GEOM[4:], nops=500, k=40, sect=rr(0, 5),
             w_trim=pick(8, 30), w_clear=0) +
        # pages which aren't current any more are copied
        jobs(rng, 18 * m, GEOM + TINY, nops=500, k=rr(4, 12), w_cp=40,
             stale=80, w_clear=pick(0, 2), cleanboot=pick(0, 20)) +
        # garbage collection goes round the chip in no time
        jobs(rng, 7 * m, BIGGC, nops=400, k=rr(4, 12), fill=50, w_cs=20,
             w_cp=20) +
        # few sectors, wildly different or differing in one bit
        jobs(rng, 18 * m, GEOM, nops=900, k=4, sect=pick(1, 2, 5),
             w_trim=30, w_cs=15, w_cp=10, w_clear=pick(0, 3)))]


# A run which meets the recorded known finding, whatever VERIF_SEED.
KNOWN_RUN = dict(lp=8, lb=2, nb=40, gc=4, nops=150, k=9, crash=60, tears=15,
                 kf=1, seed=749493829)


@check('C02', known=True)
def atomicity(rng, deep):
    m = 16 if deep else 4
    small = small_maps(rng, deep, 'm6', 'm8')
    if not deep:
        small.insert(0, scripts.model('m6', stop=20))
    return small + [batch(
        [Job('mapdrv', KNOWN_RUN)] +
        # at every flash operation, look at what a resume would find
        jobs(rng, 36 * m, GEOM, nops=110, k=rr(5, 8), sect=rr(0, 5), probe=1,
             tears=pick(1, 9, 3, 15), kf=1, w_sync=pick(2, 8)) +
        jobs(rng, 16 * m, TINY, nops=160, k=rr(4, 7), sect=rr(0, 5), probe=1,
             tears=15, kf=1, w_sync=pick(2, 8)) +
        # ... and carry on from there
        jobs(rng, 36 * m, GEOM, nops=110, k=rr(5, 8), sect=rr(0, 5), probe=3,
             deep=250, tears=15, kf=1) +
        # power really fails, again and again
        jobs(rng, 36 * m, GEOM, nops=250, k=rr(5, 10), sect=rr(0, 5),
             crash=pick(60, 200), tears=pick(1, 9, 9), reboot=20) +
        jobs(rng, 16 * m, TINY, nops=250, k=rr(3, 6), sect=rr(0, 5),
             crash=pick(60, 200), tears=pick(1, 9), reboot=20) +
        jobs(rng, 18 * m, GEOM, nops=150, k=rr(5, 10), crash=60, tears=15,
             kf=1) +
        # anything may be left half done, except for checkpoints
        jobs(rng, 27 * m, GEOM + TINY, nops=300, k=rr(4, 10), sect=rr(0, 5),
             crash=pick(60, 200), tears=15, reboot=20, whole=1, bad=rr(0, 2)) +
        jobs(rng, 18 * m, GEOM + TINY, nops=90, k=rr(4, 8), probe=1, tears=15,
             whole=1, w_sync=pick(2, 8)))]


@check('C03')
def durability(rng, deep):
    m = 16 if deep else 4
    return small_maps(rng, deep, 'm7d', 'm6g') + [batch(
        # syncs are rare or absent: how much is lost is up to the library
        jobs(rng, 36 * m, GEOM, nops=130, k=rr(5, 8), sect=rr(0, 5), probe=1,
             tears=1, w_sync=pick(0, 1), w_gc=pick(0, 6), w_cs=0, w_cp=0) +
        # syncs are frequent: nothing may be lost after one
        jobs(rng, 36 * m, GEOM, nops=120, k=rr(5, 8), sect=rr(0, 5), probe=1,
             tears=pick(1, 9), w_sync=40, w_clear=2) +
        jobs(rng, 36 * m, GEOM, nops=300, k=rr(5, 8), reboot=150,
             w_sync=pick(1, 40), tears=1) +
        jobs(rng, 16 * m, TINY, nops=400, k=rr(3, 6), reboot=100,
             cleanboot=100, tears=1, w_sync=pick(1, 10)))]


# With room for blocks failing in a row
BARE = [dict(lp=8, lb=1, nb=40, gc=60), dict(lp=9, lb=2, nb=28, gc=100),
        dict(lp=9, lb=3, nb=26, gc=200), dict(lp=8, lb=2, nb=34, gc=100)]
ROWS = [dict(g, nb=g['nb'] + 20) for g in GEOM]


@check('C04')
def badblocks(rng, deep):
    m = 16 if deep else 4
    return small_maps(rng, deep, 'b8', steps=8000) + [batch(
        # blocks fail while in use, some are bad from the start
        jobs(rng, 72 * m, GEOM, nops=350, k=rr(5, 12), sect=rr(0, 5),
             nfault=rr(1, 4), bad=rr(0, 2), fullfail=rr(0, 1),
             faillate=pick(0, 0, 50, 200), w_gc=pick(2, 15)) +
        # ... several in a row
        jobs(rng, 36 * m, [dict(g, nb=g['nb'] + 20) for g in GEOM], nops=250,
             k=rr(5, 12), storm=pick(30, 100), nfault=rr(4, 10),
             fullfail=rr(0, 1)) +
        jobs(rng, 36 * m, ROWS, nops=200, k=rr(5, 12), row=rr(2, 6),
             nfault=6, fullfail=rr(0, 1), cleanboot=pick(0, 30)) +
        # ... with hardly more space than the map takes
        jobs(rng, 36 * m, BARE, nops=200, k=40, start=40, hot=pick(0, 1, 2),
             w_clear=0, w_trim=1, w_gc=0, row=rr(1, 6), nfault=6, faillate=20,
             fullfail=rr(0, 1)) +
        # ... with the map nearly full
        jobs(rng, 36 * m, GEOM, nops=400, k=30,
             fill=60, nfault=rr(1, 4), bad=rr(0, 2), fullfail=rr(0, 1)) +
        # ... and with orderly restarts in between
        jobs(rng, 36 * m, GEOM, nops=350, k=rr(5, 12), nfault=rr(1, 4),
             bad=rr(0, 2), cleanboot=60, fullfail=rr(0, 1)))]


@check('C05', known=True)
def badblock_powerloss(rng, deep):
    m = 16 if deep else 4
    return small_maps(rng, deep, 'b8') + [batch(
        [Job('mapdrv', KNOWN_RUN)] +
        jobs(rng, 54 * m, GEOM, nops=90, k=rr(5, 8), probe=1,
             tears=pick(1, 1, 9), nfault=rr(1, 3), bad=rr(0, 2),
             fullfail=rr(0, 1), kf=1, w_sync=pick(2, 8, 30)) +
        jobs(rng, 36 * m, GEOM, nops=100, k=rr(5, 8), probe=3, deep=200,
             tears=pick(1, 15), nfault=rr(1, 3), kf=1, fullfail=rr(0, 1)) +
        jobs(rng, 72 * m, GEOM, nops=250, k=rr(5, 10), sect=rr(0, 5),
             crash=pick(40, 150), reboot=20, tears=pick(1, 9),
             nfault=rr(1, 4), bad=rr(0, 2), fullfail=rr(0, 1), kf=1) +
        jobs(rng, 18 * m, GEOM, nops=150, k=rr(5, 10), crash=50, reboot=10,
             tears=15, nfault=rr(1, 3), kf=1) +
        # blocks failing one after the other
        jobs(rng, 36 * m, [dict(g, nb=g['nb'] + 12) for g in GEOM], nops=120,
             k=rr(5, 8), storm=60, probe=2, tears=1, nfault=rr(3, 6),
             maxprobe=400, fullfail=rr(0, 1), kf=1, w_sync=pick(2, 8)) +
        jobs(rng, 54 * m, [dict(g, nb=g['nb'] + 12) for g in GEOM], nops=300,
             k=rr(5, 10), storm=60, crash=pick(1, 60), tears=pick(1, 15),
             whole=1, nfault=rr(3, 6), fullfail=rr(0, 1)) +
        jobs(rng, 27 * m, [dict(g, nb=g['nb'] + 20) for g in
                           (GEOM[1], GEOM[5], GEOM[8])], nops=90, k=rr(6, 12),
             storm=120, probe=2, tears=1, nfault=rr(8, 12), w_sync=2,
             w_trim=2, kf=1))]


@check('C08')
def capacity(rng, deep):
    m = 12 if deep else 3
    small = geoms(12, (4, 1, 2, 10, 8, 3, 6, 1, 4))
    return [batch(
        jobs(rng, 72 * m, small, nops=600, k=60, fill=90, w_trim=pick(3, 12),
             sect=rr(0, 5), w_clear=pick(0, 1), w_cs=10, w_cp=10) +
        # chips too small to hold anything, or nearly
        jobs(rng, 9 * m, geoms(0), nops=40, nb=rr(2, 10), gc=rr(0, 6), k=4,
             reboot=100, tears=1) +
        jobs(rng, 9 * m, geoms(1, (4, 1, 2)), nops=300, k=6, reboot=20,
             tears=1) +
        jobs(rng, 24 * m, geoms(12, (4, 1, 2, 10), bad=4), nops=500, k=60,
             fill=95, bad=rr(0, 4),
             reboot=20, cleanboot=10, tears=1, w_trim=5) +
        jobs(rng, 24 * m, geoms(16, (4, 2, 8), bad=6), nops=500, k=60, fill=90,
             nfault=rr(1, 4), bad=rr(0, 2), faillate=100) +
        # many bad blocks, all of them met before the map gets full
        jobs(rng, 8 * m, [dict(lp=8, lb=1, nb=60), dict(lp=9, lb=2, nb=54),
                          dict(lp=10, lb=3, nb=50), dict(lp=9, lb=2, nb=64)],
             nops=150, k=250, start=1000, badlow=rr(16, 45), gc=pick(20, 60),
             w_trim=pick(1, 5), w_clear=0, reboot=pick(0, 10), tears=1))]


@check('C09')
def sustained(rng, deep):
    m = 12 if deep else 2
    small = geoms(10, (4, 1, 3, 2, 10, 6, 1, 5, 4))
    # where the share of garbage collection matters more than what's kept in
    # reserve
    lean = [dict(lp=8, lb=1, nb=100, gc=2, k=49),
            dict(lp=8, lb=1, nb=90, gc=1, k=28),
            dict(lp=8, lb=2, nb=40, gc=1, k=7),
            dict(lp=9, lb=2, nb=27, gc=2, k=20)]
    # ... and what the map may hold is most of what there is
    long = [dict(lp=8, lb=1, nb=160, gc=1, k=96),
            dict(lp=9, lb=2, nb=91, gc=1, k=160),
            dict(lp=8, lb=2, nb=136, gc=1, k=150),
            dict(lp=8, lb=1, nb=270, gc=2, k=190)]
    return [batch(
        jobs(rng, 4 * m, long, nops=1200, hot=pick(1, 2), start=1000,
             w_gc=0, w_sync=pick(0, 2), w_trim=0, w_clear=0, w_cs=0, w_cp=0) +
        # full to the brim with sectors which hardly ever change
        jobs(rng, 8 * m, lean, nops=3000, hot=pick(1, 2), fill=100,
             w_gc=0, w_sync=pick(0, 2), w_trim=0, w_clear=0, w_cs=0, w_cp=0) +
        jobs(rng, 9 * m, small, nops=3000, k=10, hot=pick(1, 2, 3), fill=100,
             w_gc=0, w_sync=pick(0, 2), w_trim=pick(0, 1), w_clear=0) +
        # garbage collection goes round the chip in no time
        jobs(rng, 6 * m, BIGGC, nops=600, k=rr(4, 12), fill=50, w_cs=20,
             w_cp=20) +
        # fill up, then go round the chip many times: syncs, sync-only
        # stretches, rewrites, no gc calls
        jobs(rng, 32 * m, small, nops=2500, k=48, fill=rr(0, 100), w_gc=0,
             w_sync=pick(0, 2, 60), w_trim=pick(0, 4), w_clear=0) +
        jobs(rng, 16 * m, small, nops=2500, k=48, fill=rr(0, 100), w_write=20,
             w_gc=pick(0, 60), w_sync=pick(10, 100), w_trim=2, w_clear=0) +
        jobs(rng, 16 * m, small, nops=2000, k=48, fill=rr(0, 100), w_gc=0,
             w_sync=pick(2, 30), w_trim=2, w_clear=0, reboot=20,
             cleanboot=10, tears=1))]


@check('C14')
def longrun(rng, deep):
    m = 6 if deep else 1
    shapes = [(9, 2), (8, 2), (9, 3), (9, 1)]
    small = geoms(4, (4, 6, 3, 4), shapes)
    # each goes round the chip more than 256 times
    return [batch(
        jobs(rng, 8 * m, small, nops=rr(11000, 15000), k=5, w_sync=5,
             reboot=pick(1, 5), cleanboot=3, tears=1, w_gc=2) +
        jobs(rng, 8 * m, small, nops=rr(9000, 11000), k=4, w_sync=20,
             crash=pick(4, 15), tears=pick(1, 9), w_gc=0) +
        # the last block, where passes end, is bad, or others are
        jobs(rng, 32 * m, geoms(4, (4, 6, 3, 4), shapes, bad=3), nops=800,
             k=rr(3, 5), bad=rr(1, 3), reboot=pick(0, 60), w_sync=20,
             cleanboot=pick(30, 100), tears=1), chunk=100)]


@check('C16')
def failures(rng, deep):
    m = 12 if deep else 3
    return small_maps(rng, deep, 'r6', 'r8', 'r6g', 'r7d') + [batch(
        # reads fail now and then: the call fails, nothing has changed
        jobs(rng, 36 * m, GEOM, nops=350, k=rr(5, 12), eccop=pick(60, 300),
             sect=rr(0, 5), cleanboot=5) +
        # ... in every way there is: each read of a call fails in turn
        jobs(rng, 36 * m, GEOM + TINY, nops=90, k=rr(5, 14), eccall=1000,
             sect=rr(0, 5), w_cs=pick(4, 15), w_cp=pick(2, 10),
             w_gc=pick(2, 10), hot=pick(0, 0, 2), cleanboot=2) +
        # ... and round the chip, with some sectors that rarely change
        jobs(rng, 36 * m, TINY + geoms(14, (4, 2, 6)), nops=700, k=rr(5, 14),
             eccop=pick(60, 300), hot=pick(1, 2, 4), w_gc=pick(6, 30),
             sect=rr(0, 5), cleanboot=2, w_clear=0) +
        jobs(rng, 18 * m, GEOM, nops=150, k=rr(5, 8), eccop=pick(60, 300),
             probe=2, tears=1) +
        # the caller doesn't want to know why
        jobs(rng, 36 * m, geoms(16, (4, 1, 6)), nops=400, k=40,
             fill=70, nullerr=1, nfault=rr(0, 3)))]


@check('C18')
def geometries(rng, deep):
    m = 16 if deep else 4
    out = []
    for lp in (8, 9, 10, 11, 12):
        for lb in (1, 2, 3, 4, 5):
            out.append((lp, lb))
    return small_maps(rng, deep, 'm6b', 'm6g') + [bulk(
        rng, 3 * m, nops=14, bad=pick(0, 5)), batch(
        jobs(rng, 50 * m, geoms(11, (4, 1, 2, 6, 3, 0, 9), out), nops=500,
             k=rr(4, 10), sect=rr(0, 5), reboot=pick(0, 30), tears=1) +
        jobs(rng, 25 * m, geoms(11, (4, 2, 6, 3, 8, 0), out, bad=5),
             nops=300, k=rr(4, 10), nfault=rr(0, 3), bad=rr(0, 2),
             crash=30, tears=1, kf=1) +
        jobs(rng, 25 * m, geoms(9, (4, 2, 1, 3, 8), out), nops=50,
             k=rr(4, 8), probe=1, tears=1))]


@check('C19')
def imprecise(rng, deep):
    m = 12 if deep else 3
    small = small_maps(rng, deep, 'm8', 'm6b', 'm6g', imprecise=1, ff=60)
    # Free pages are told by their contents, and much of what's written is
    # blank
    return small + [batch(
        jobs(rng, 54 * m, GEOM, nops=300, k=rr(5, 10), sect=rr(0, 5),
             imprecise=1, ff=pick(10, 50, 90), reboot=pick(0, 40, 100),
             cleanboot=pick(0, 20), tears=1, crash=pick(0, 40)) +
        jobs(rng, 36 * m, GEOM, nops=110, k=rr(5, 8), imprecise=1,
             ff=pick(20, 60, 90), probe=1, tears=1) +
        jobs(rng, 18 * m, GEOM, nops=90, k=rr(5, 8), imprecise=1,
             ff=pick(20, 60, 90), probe=3, deep=300, tears=1) +
        jobs(rng, 16 * m, TINY, nops=500, k=rr(3, 5), imprecise=1,
             ff=pick(20, 60, 90), reboot=50, tears=1))]


def jjobs(rng, n, geoms, **kw):
    js = jobs(rng, n, [{k: v for k, v in g.items() if k != 'gc'}
                       for g in geoms], **kw)
    for j in js:
        j.driver = 'jdrv'
    return js


JGEOM = [dict(lp=9, lb=2, nb=12), dict(lp=9, lb=3, nb=10),
         dict(lp=8, lb=2, nb=14), dict(lp=9, lb=1, nb=20),
         dict(lp=10, lb=3, nb=10), dict(lp=9, lb=4, nb=8),
         dict(lp=11, lb=4, nb=8), dict(lp=8, lb=4, nb=8)]


def nand(js, **kw):
    for j in js:
        j.args['nandlog'] = 1
    return Batch('NandTrace', js, **kw)


@check('C06')
def contract(rng, deep):
    m = 12 if deep else 2
    return small_maps(rng, deep, 'm6', 'm8d', 'p4', 'f6',
                      judge='NandTrace') + [nand(
        jobs(rng, 36 * m, GEOM, nops=500, k=rr(5, 12), garbage=rr(0, 3),
             reboot=pick(0, 30), cleanboot=20, tears=1) +
        jobs(rng, 36 * m, GEOM, nops=400, k=rr(5, 12), garbage=rr(0, 1),
             crash=pick(30, 150), tears=pick(1, 9)) +
        jobs(rng, 18 * m, TINY, nops=800, k=rr(3, 6), crash=pick(30, 100),
             reboot=20, tears=pick(1, 9)) +
        jobs(rng, 36 * m, GEOM, nops=400, k=rr(5, 12), nfault=rr(1, 4),
             bad=rr(0, 2), crash=pick(0, 50), reboot=pick(0, 20), tears=1,
             fullfail=rr(0, 1), kf=1) +
        jobs(rng, 36 * m, GEOM, nops=300, k=rr(5, 10), imprecise=1,
             ff=pick(10, 50, 90), crash=pick(0, 50), reboot=40, tears=1) +
        # the journal alone
        jjobs(rng, 16 * m, [dict(lp=8, lb=1, nb=10), dict(lp=9, lb=2, nb=9),
                            dict(lp=8, lb=2, nb=8)],
              nops=700, fill=40, bad=rr(1, 3), w_clear=0) +
        jjobs(rng, 24 * m, JGEOM, nops=400, fill=pick(0, 30, 100),
              bad=rr(0, 2), crash=pick(0, 60, 150), reboot=pick(0, 30),
              tears=pick(1, 9), imprecise=rr(0, 1)) +
        jjobs(rng, 16 * m, [dict(g, nb=g['nb'] + 16) for g in JGEOM],
              nops=400, nfault=rr(1, 4), bad=rr(0, 2), fullfail=rr(0, 1),
              crash=pick(0, 60), whole=1, tears=1))]


@check('C07')
def wear(rng, deep):
    m = 8 if deep else 1
    return small_maps(rng, deep, 'w8', 'w6g', 'pw5', judge='NandTrace') + [nand(
        jobs(rng, 24 * m, GEOM + TINY, nops=1200, k=rr(3, 16),
             w_sync=pick(1, 10, 60), w_gc=pick(1, 20), w_trim=pick(2, 30),
             w_clear=pick(0, 3)) +
        jobs(rng, 24 * m, GEOM + TINY, nops=1200, k=rr(3, 16),
             w_sync=pick(1, 10), cleanboot=pick(20, 100), tears=1) +
        jobs(rng, 12 * m, TINY, nops=2000, k=rr(3, 6), cleanboot=20,
             bad=rr(0, 1), w_sync=pick(1, 60)) +
        jobs(rng, 24 * m, GEOM + TINY, nops=700, k=rr(3, 16), reboot=4,
             w_sync=pick(1, 10), crash=pick(0, 4), tears=1) +
        jobs(rng, 24 * m, GEOM, nops=700, k=rr(3, 16), nfault=rr(1, 4),
             bad=rr(0, 2), w_sync=pick(1, 10), cleanboot=pick(0, 20)))]


@check('C17')
def badmarks(rng, deep):
    m = 12 if deep else 2
    return small_maps(rng, deep, 'b8', 'f6', 'f7', judge='NandTrace') + [nand(
        jobs(rng, 72 * m, GEOM, nops=400, k=rr(5, 12), nfault=rr(1, 4),
             bad=rr(0, 3), fullfail=rr(0, 1), cleanboot=pick(0, 20)) +
        jobs(rng, 36 * m, GEOM, nops=400, k=30,
             fill=60, nfault=rr(1, 4), bad=rr(0, 2)) +
        # one after the other
        jobs(rng, 36 * m, ROWS, nops=150, k=rr(5, 12), row=rr(2, 6),
             nfault=6, fullfail=rr(0, 1), cleanboot=pick(0, 30)) +
        # pages which can't be read are no reason
        jobs(rng, 36 * m, GEOM + TINY, nops=250, k=rr(5, 12),
             eccop=pick(60, 300), bad=rr(0, 2), hot=pick(0, 2),
             w_cs=pick(5, 20), cleanboot=pick(0, 10)) +
        jobs(rng, 36 * m, GEOM, nops=400, k=rr(5, 12), nfault=rr(1, 4),
             bad=rr(0, 2), crash=pick(20, 80), reboot=20, tears=1, kf=1,
             fullfail=rr(0, 1)))]


@check('C10')
def queue(rng, deep):
    m = 12 if deep else 3
    # Everything that can happen to a small journal
    if deep:
        small = [scripts.explored(n) for n in ('p3', 'p4', 'p3g')]
    else:
        small = [scripts.model('p3'), scripts.committed('p3'),
                 scripts.committed('p4', rng, 10000),
                 scripts.committed('p3g', rng, 6000)]
    return small + [Batch('JournalTrace',
        # ordinary use: now full, now empty
        jjobs(rng, 32 * m, JGEOM, nops=500, fill=pick(0, 30, 100),
              garbage=rr(0, 3), bad=rr(0, 2)) +
        # restarts and power loss
        jjobs(rng, 48 * m, JGEOM, nops=400, crash=pick(0, 60, 200),
              reboot=pick(10, 60), tears=pick(1, 9, 15), whole=1,
              fill=pick(0, 30, 100),
              imprecise=rr(0, 1), bad=rr(0, 1)) +
        jjobs(rng, 16 * m, JGEOM, nops=800, crash=pick(0, 60), reboot=40,
              tears=1, w_enq=60, w_deq=60, w_rot=0, w_dup=0, w_pad=2,
              cleanboot=40))]


# Runs in which power fails after a checkpoint in the middle of recovery, with
# an entry's old place dequeued and its new one not covered yet.
RECOVERY_CUT = [dict(lp=9, lb=4, nb=32, nops=400, nfault=7, storm=100,
                     reserve=0, crash=60, tears=15, whole=1, fullfail=1,
                     w_rot=30, fill=60, seed=s) for s in (1430, 1806, 1913)]


@check('C11')
def recovery(rng, deep):
    m = 12 if deep else 3
    # Everything that can happen to a small journal
    if deep:
        small = [scripts.explored(n) for n in ('f5', 'f6', 'f7', 'f6f')]
    else:
        small = [scripts.committed(n, rng, 6000)
                 for n in ('f5', 'f6', 'f7', 'f6f')]
    return small + [Batch('JournalTrace',
        [Job('jdrv', d) for d in RECOVERY_CUT] +
        jjobs(rng, 64 * m, [dict(g, nb=g['nb'] + 16) for g in JGEOM],
              nops=1000, nfault=rr(1, 4), bad=rr(0, 2), fullfail=rr(0, 1),
              fill=pick(0, 40, 150), cleanboot=pick(0, 40)) +
        jjobs(rng, 32 * m, [dict(g, nb=g['nb'] + 16) for g in JGEOM],
              nops=500, nfault=rr(1, 4), w_enq=60, w_deq=10, w_rot=30,
              w_pad=pick(0, 20), fill=pick(0, 150)) +
        # in a row
        jjobs(rng, 32 * m, [dict(g, nb=g['nb'] + 24) for g in JGEOM],
              nops=200, nfault=6, row=rr(2, 6), fullfail=rr(0, 1),
              w_rot=pick(5, 30), fill=pick(0, 40)) +
        # power loss as well
        jjobs(rng, 32 * m, [dict(g, nb=g['nb'] + 16) for g in JGEOM],
              nops=600, nfault=rr(1, 5), bad=rr(0, 2), fullfail=rr(0, 1),
              crash=pick(60, 200), reboot=pick(0, 30), tears=pick(1, 15),
              whole=1, w_rot=pick(5, 30), fill=pick(0, 60)) +
        # blocks failing one after the other
        jjobs(rng, 32 * m, [dict(g, nb=g['nb'] + 24) for g in JGEOM],
              nops=400, nfault=rr(4, 7), storm=pick(30, 100), reserve=0,
              crash=pick(0, 0, 60), tears=pick(1, 15), whole=1,
              fullfail=rr(0, 1), w_rot=pick(5, 30), fill=pick(0, 60)))]


@check('C12')
def cost(rng, deep):
    m = 12 if deep else 3
    big = [dict(lp=9, lb=2, nb=256, gc=4), dict(lp=8, lb=2, nb=1000, gc=4),
             dict(lp=9, lb=6, nb=400, gc=8), dict(lp=9, lb=3, nb=64, gc=0),
             dict(lp=10, lb=3, nb=24, gc=4), dict(lp=9, lb=1, nb=700, gc=2),
             dict(lp=9, lb=2, nb=24, gc=10), dict(lp=11, lb=4, nb=64, gc=4)]
    return small_maps(rng, deep, 'm8', 'm7d', judge='CostTrace', cost=1) + [
        Batch('CostTrace',
        jobs(rng, 32 * m, big, nops=1500, k=rr(4, 40), cost=1,
             reboot=pick(5, 30), tears=1, sect=rr(0, 5),
             w_sync=pick(1, 8), w_trim=pick(3, 25)) +
        jobs(rng, 18 * m, geoms(14, (4, 1, 2, 10)), nops=1200, k=56, fill=pick(0, 90), cost=1, sect=rr(0, 5),
             reboot=pick(0, 20), tears=1, w_gc=pick(0, 20)))]


@check('C13')
def resuming(rng, deep):
    m = 16 if deep else 4
    return small_maps(rng, deep, 'm8d', 'm6g', dblboot=1) + [batch(
        # chips with nothing, or rubbish, on them
        jobs(rng, 45 * m, GEOM, nops=60, k=rr(3, 8), garbage=rr(0, 5),
             bad=rr(0, 3), dblboot=2, reboot=300, tears=1, imprecise=0) +
        # restarting again and again changes nothing
        jobs(rng, 36 * m, GEOM, nops=250, k=rr(4, 12), dblboot=rr(1, 4),
             reboot=120, cleanboot=60, tears=pick(1, 9), crash=pick(0, 60),
             sect=rr(0, 5), bad=rr(0, 2), imprecise=rr(0, 1)) +
        jobs(rng, 24 * m, GEOM[:3], nops=250, k=rr(4, 12), dblboot=2,
             reboot=60, tears=1, nfault=rr(1, 4), bad=rr(0, 2), kf=1))]


@check('C15')
def flashformat(rng, deep):
    m = 8 if deep else 2
    js = (jobs(rng, 36 * m, GEOM, nops=250, k=rr(3, 12), sect=rr(0, 5),
               bad=rr(0, 2), w_trim=pick(5, 25)) +
          jobs(rng, 18 * m, GEOM, nops=200, k=rr(3, 12), sect=rr(0, 5),
               crash=pick(0, 40), reboot=20, tears=1) +
          jobs(rng, 18 * m, GEOM, nops=200, k=rr(3, 12), sect=rr(0, 5),
               crash=pick(40, 150), tears=15, whole=1, reboot=20) +
          jobs(rng, 8 * m, GEOM[:2] + GEOM[3:], nops=200, k=40, sect=rr(0, 5)))
    for j in js:
        j.args.update(nandlog=1, fmt=1)
    return small_maps(rng, deep, 'm7d', 'm6b', judge='FmtTrace', fmt=1) + [
        Batch('FmtTrace', js, chunk=6000)]


def ejobs(rng, driver, count, **kw):
    out = []
    for _ in range(count):
        a = {k: v(rng) if callable(v) else v for k, v in kw.items()}
        a['seed'] = rng.randrange(1, 1 << 30)
        out.append(Job(driver, a))
    return out


@check('C20')
def hamming(rng, deep):
    m = 10 if deep else 2
    js = ejobs(rng, 'hamdrv', 1, mode=3, len=512)
    js += ejobs(rng, 'hamdrv', 1, mode=1, len=512)
    for ln in (1, 2, 3, 5, 8) + ((13, 20) if deep else ()):
        js += ejobs(rng, 'hamdrv', 1, mode=2, len=ln)
    js += ejobs(rng, 'hamdrv', 2 * m, mode=1, len=rr(1, 511))
    js += ejobs(rng, 'hamdrv', 2 * m, mode=3, len=rr(1, 300))
    js += ejobs(rng, 'hamdrv', 6 * m, mode=0, n=250, len=1, lenmax=512)
    js += ejobs(rng, 'hamdrv', 3 * m, mode=0, n=250, len=512)
    js += ejobs(rng, 'hamdrv', 3 * m, mode=0, n=250, len=1, lenmax=16)
    js += ejobs(rng, 'hamdrv', 2 * m, mode=4, n=250)
    js += ejobs(rng, 'hamdrv', 2 * m, mode=5, n=150, len=1, lenmax=511)
    js += ejobs(rng, 'hamdrv', 1 * m, mode=5, n=50, len=1, lenmax=16)
    return [Batch('HammingTrace', js, chunk=6000)]


@check('C21')
def bch(rng, deep):
    m = 10 if deep else 2
    js = []
    for t in (1, 2, 3, 4):
        js += ejobs(rng, 'bchdrv', 1, t=t, mode=3, len=1016)
        js += ejobs(rng, 'bchdrv', 1, t=t, mode=1, len=128)
        js += ejobs(rng, 'bchdrv', 1, t=t, mode=1, len=rr(1, 40))
        js += ejobs(rng, 'bchdrv', m, t=t, mode=4, n=150, len=200)
        js += ejobs(rng, 'bchdrv', m, t=t, mode=0, n=60, len=1016)
        js += ejobs(rng, 'bchdrv', m, t=t, mode=0, n=100, len=512)
        js += ejobs(rng, 'bchdrv', m, t=t, mode=0, n=100, len=1, lenmax=1016)
        js += ejobs(rng, 'bchdrv', m, t=t, mode=0, n=200, len=1, lenmax=12)
        js += ejobs(rng, 'bchdrv_nt', 1, t=t, mode=0, n=25, len=1, lenmax=64)
        if t > 1:
            js += ejobs(rng, 'bchdrv', m, t=t, mode=2, len=rr(1, 3))
    if deep:
        for t in (1, 2, 3, 4):
            js += ejobs(rng, 'bchdrv', 1, t=t, mode=1, len=1016)
    return [Batch('BchTrace', js, chunk=4000)]


@check('C22')
def crc(rng, deep):
    m = 12 if deep else 3
    return [Batch('CrcTrace',
        ejobs(rng, 'crcdrv', 2 * m, mode=1) +
        ejobs(rng, 'crcdrv', 8 * m, mode=0, n=120, len=rr(4, 60)) +
        ejobs(rng, 'crcdrv', 4 * m, mode=2, n=3000, len=512) +
        ejobs(rng, 'crcdrv', 2 * m, mode=2, n=3000, len=rr(1, 20)) +
        ejobs(rng, 'crcdrv', 2 * m, mode=2, n=1000, len=4096) +
        ejobs(rng, 'crcdrv', 1, mode=3, len=2100) +
        ejobs(rng, 'crcdrv', 2 * m, mode=4, n=40), chunk=4000)]


@check('C23')
def galois(rng, deep):
    m = 10 if deep else 2
    return [Batch('GfTrace',
        ejobs(rng, 'gfdrv', 1, mode=1) + ejobs(rng, 'gfdrv', 1, mode=2) +
        ejobs(rng, 'gfdrv_nt', 1, mode=1) +
        ejobs(rng, 'gfdrv', 6 * m, mode=0, n=1500) +
        ejobs(rng, 'gfdrv_nt', 6 * m, mode=0, n=1500), chunk=4000)]


PRIMITIVE = {2: ['7'], 3: ['b', 'd'], 4: ['13', '19'], 5: ['25', '3d'],
             6: ['43', '5b'], 7: ['83', 'f1'], 8: ['11d', '14d'],
             9: ['211'], 10: ['409'], 11: ['805'], 12: ['1053'],
             13: ['201b', '201B', '0x201b'], 14: ['4443'], 15: ['8003'],
             16: ['1100b']}


@check('C24')
def tools(rng, deep):
    js = []
    for d in range(2, 10 if deep else 9):
        js.append(ToolJob('gftool', {'a': 'search %d' % d}))
    for d, ps in PRIMITIVE.items():
        for p in ps:
            if d <= (14 if deep else 11) or p == '201b':
                js.append(ToolJob('gftool', {'a': p + ' tables'}))
            # some, the largest possible, and just too large
            most = max(n for n in range(1, min(200, 2 ** d - 1))
                       if roots(n, d) <= 63)
            for n in sorted({1, 2, 4, 6, 8, most - 2, most - 1, most,
                             most + 1, most + 3}):
                if n > 0 and (deep or d < 13 or n < 3 or n == most):
                    js.append(ToolJob('gftool', {'a': '%s bch %d' % (p, n)}))
    # what makes no sense is refused
    for a in ['', 'search', '13', '1g exp', 'x1@ log', '13 bch', '13 what',
              '20009 exp', '40027 log', '80027 bch 3', '2%x bch 2' %
              (rng.randrange(1 << 15) * 2 + 1), '1.3 exp']:
        js.append(ToolJob('gftool', {'a': a, 'bad': 1}))
    out = [Batch('GfTrace', js, chunk=3000)]
    polys = ['edb88320', '0xEDB88320', '82f63b78', 'eb31d82e', '1',
             '80000000', '%08x' % rng.randrange(1, 1 << 32)]
    js = [ToolJob('gentab', {'a': p}) for p in polys]
    js += [ToolJob('gentab', {'a': a, 'bad': 1})
           for a in ['', 'edb8832g', '-1', '1@', 'EDB88:20']]
    out.append(Batch('CrcTrace', js, chunk=300))
    return out


@check('C25')
def errors(rng, deep):
    return [Batch('ErrTrace', ejobs(rng, 'errdrv', 4, n=1000))]
