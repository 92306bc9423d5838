"""Running drivers, collecting what they record, and having TLC judge it.

Nothing here decides whether a property holds: drivers record, TLC checks the
recording against a specification in /verif/spec, and this module counts what
was covered and reports which run (if any) the specification rejects.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TLADIR = '/opt/veriftools/tla'
CP = ':'.join([TLADIR + '/tla2tools.jar', TLADIR + '/CommunityModules-deps.jar'])
NCPU = min(8, os.cpu_count() or 4)

DHARA = ['dhara/map.c', 'dhara/journal.c', 'dhara/error.c']
DRIVERS = {
    'mapdrv': (['mapdrv.c', 'vnand.c'], DHARA),
    # less space in reserve, so that smaller chips can hold something
    'mapdrv_r2': (['mapdrv.c', 'vnand.c'], DHARA,
                  ['-include', os.path.join(HARNESS, 'retries2.h')]),
    'bulkdrv': (['bulkdrv.c', 'vnand.c'], DHARA),
    'jdrv': (['jdrv.c', 'vnand.c'], ['dhara/journal.c', 'dhara/error.c']),
    'hamdrv': (['hamdrv.c'], ['ecc/hamming.c']),
    'bchdrv': (['bchdrv.c'], ['ecc/bch.c', 'ecc/gf13.c']),
    'crcdrv': (['crcdrv.c'], ['ecc/crc32.c']),
    'bchdrv_nt': (['bchdrv.c'], ['ecc/bch.c', 'ecc/gf13.c'],
                  ['-DGF13_NO_TABLES']),
    'gfdrv': (['gfdrv.c'], ['ecc/gf13.c']),
    'gfdrv_nt': (['gfdrv.c'], ['ecc/gf13.c'], ['-DGF13_NO_TABLES']),
    'gftool': ([], ['tools/gftool.c']),
    'gentab': ([], ['tools/gentab.c']),
    'errdrv': (['errdrv.c'], ['dhara/error.c']),
}


class Failure(Exception):
    """The machinery itself failed: no verdict."""


class Env:
    """A scratch directory with freshly built drivers."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='dhara-verif.')
        self.built = {}
        self.lock = threading.Lock()
        self.seq = 0
        self.flags = ['-O1', '-g', '-w', '-fwrapv',
                      '-ftrivial-auto-var-init=pattern']
        os.environ['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99'
        self.try_flags(['-fsanitize=address'])

    def try_flags(self, flags):
        """Use these when building, if programs built with them run here."""
        src, exe = self.path('.c'), self.path('.exe')
        with open(src, 'w') as f:
            f.write('int main(void) { return 0; }\n')
        try:
            subprocess.run(['gcc'] + flags + ['-o', exe, src], check=True,
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=60)
            for _ in range(3):
                subprocess.run([exe], check=True, timeout=60,
                               stderr=subprocess.DEVNULL)
        except (OSError, subprocess.SubprocessError):
            return
        self.flags = self.flags + flags

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, ext):
        with self.lock:
            self.seq += 1
            return os.path.join(self.dir, 'f%d%s' % (self.seq, ext))

    def build(self, name):
        if name in self.built:
            return self.built[name]
        mine, theirs = DRIVERS[name][:2]
        flags = DRIVERS[name][2] if len(DRIVERS[name]) > 2 else []
        exe = os.path.join(self.dir, name)
        cmd = (['gcc'] + self.flags + ['-I' + HARNESS, '-I' + REPO,
                                       '-o', exe] + flags +
               [os.path.join(HARNESS, x) for x in mine] +
               [os.path.join(REPO, x) for x in theirs])
        p = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Failure('build failed: %s\n%s' % (' '.join(cmd), p.stdout))
        self.built[name] = exe
        return exe


def argv(args):
    return ['%s=%s' % (k, v) for k, v in args.items()]


class Job:
    """One run of a driver."""

    def __init__(self, driver, args, stdin=None):
        self.driver = driver
        self.args = args
        self.stdin = stdin

    def cmdline(self):
        return ' '.join([self.driver] + argv(self.args))

    def run(self, env, f, timeout):
        """Append this run's events to file object f (binary)."""
        exe = env.built[self.driver]
        try:
            p = subprocess.run([exe] + argv(self.args), input=self.stdin,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=timeout)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = e.stdout or b'', 'timeout'
        if rc == 2:
            raise Failure('driver rejected its arguments: ' + self.cmdline())
        lines = out.split(b'\n')
        tail = lines.pop()
        if rc != 0 or tail:
            # Died or never ended.  The last line may be incomplete.
            lines.append(json.dumps({'e': 'died', 'rc': str(rc)}).encode())
        f.write(b'\n'.join(lines) + b'\n')
        return lines


class Tlc:
    """What one run of TLC said."""

    def __init__(self, out):
        self.out = out
        self.reached = self.total = None
        self.states = self.distinct = 0
        self.error = None
        m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
        if m:
            self.reached, self.total = int(m.group(1)), int(m.group(2))
        m = re.search(r'^(\d+) states generated, (\d+) distinct states found, '
                      r'(\d+) states left', out, re.M)
        self.left = 0
        if m:
            self.states, self.distinct, self.left = map(int, m.groups())
        self.ok = 'Model checking completed. No error has been found.' in out


def tlc(module, cfg, env, trace=None, workers=1, mem='2g', timeout=3000,
        extra=(), extra_env=None, stop=None):
    """stop: explore for that many seconds only."""
    meta = env.path('.meta')
    e = dict(os.environ)
    if trace:
        e['TRACE'] = trace
    e.update(extra_env or {})
    gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
    os.makedirs(meta)
    cmd = ['java', gc, '-Xmx' + mem, '-Xss16m', '-Djava.io.tmpdir=' + meta] + (
        ['-Dtlc2.TLC.stopAfter=%d' % stop] if stop else []) + ['-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-nowarning', '-noGenerateSpecTE',
           '-metadir', meta, '-config', cfg] + list(extra) + [module + '.tla']
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    out = '\n'.join(x for x in p.stdout.split('\n') if not x.startswith(
        ('Parsing file', 'Semantic proc', 'Linting')))
    if ('OutOfMemoryError' in out or 'StackOverflowError' in out or
            'Computing initial states' not in out):
        raise Failure('TLC gave no answer on %s:\n%s' % (module, out[-1500:]))
    return Tlc(out)


class Batch:
    """Jobs whose recordings are judged by one trace specification."""

    def __init__(self, module, jobs, cfg=None, chunk=20000, timeout=120,
                 mem='2g'):
        self.module = module
        self.cfg = cfg or module + '.cfg'
        self.jobs = jobs
        self.chunk = chunk
        self.timeout = timeout
        self.mem = mem


class Result:
    def __init__(self):
        self.lines = 0
        self.states = 0
        self.runs = 0
        self.files = 0
        self.events = {}
        self.samples = []
        self.known = []
        self.violation = None
        self.skipped = 0
        self.stats = {}

    def stat(self, line):
        for k, v in json.loads(line).get('st', {}).items():
            if k in ('erases_of_one_block', 'most_sectors', 'bad_blocks'):
                s = self.stats.setdefault(k, {'least': v, 'most': v, 'sum': 0,
                                              'runs': 0})
                s['least'] = min(s['least'], v)
                s['most'] = max(s['most'], v)
                s['sum'] += v
                s['runs'] += 1
            else:
                self.stats[k] = self.stats.get(k, 0) + v


EV = re.compile(rb'^\{"e":"([a-z]+)"')


def judge(batch, env, path):
    """Returns None if the spec accepts the trace, else the 0-based index of
    the first line it does not accept."""
    t = tlc(batch.module, batch.cfg, env, trace=path, mem=batch.mem)
    if t.reached is not None:
        if t.ok and t.reached == t.total:
            return t, None
        return t, t.reached
    n = [int(x) for x in re.findall(r'^State (\d+):', t.out, re.M)]
    if n:
        return t, max(n) - 2 if len(n) > 1 else 0
    if 'Error:' in t.out:
        raise Failure('TLC failed on a trace:\n' + t.out[-1500:])
    raise Failure('TLC output not understood:\n' + t.out[-1500:])


def run_batch(batch, env, res, deadline, want_known=False):
    for d in {j.driver for j in batch.jobs}:
        env.build(d)
    lock = threading.Lock()
    queue = list(batch.jobs)
    queue.reverse()

    def worker():
        while True:
            path = env.path('.nd')
            mine = []
            n = 0
            with open(path, 'wb') as f:
                while n < batch.chunk:
                    with lock:
                        if res.violation or not queue:
                            break
                        if time.time() > deadline:
                            res.skipped += len(queue)
                            queue.clear()
                            break
                        job = queue.pop()
                    lines = job.run(env, f, batch.timeout)
                    mine.append((n, job, len(lines)))
                    n += len(lines)
                    with lock:
                        for x in lines:
                            m = EV.match(x)
                            k = m.group(1).decode() if m else '?'
                            res.events[k] = res.events.get(k, 0) + 1
                            if k == 'end':
                                res.stat(x)
                        if len(res.samples) < 4:
                            res.samples.append({
                                'run': job.cmdline(),
                                'spec': batch.module,
                                'events': [x.decode()[:300] for x in
                                           lines[:3] + lines[len(lines) // 2:
                                                             len(lines) // 2 + 3]]})
                        if want_known:
                            for x in lines:
                                if b'"et":2' in x and b'"x":2' in x:
                                    res.known.append((job.cmdline(),
                                                      x.decode()[:200]))
            if not mine:
                os.unlink(path)
                return
            t, bad = judge(batch, env, path)
            with lock:
                res.runs += len(mine)
                res.lines += n
                res.files += 1
                res.states += t.distinct
                if bad is not None and not res.violation:
                    for start, job, cnt in mine:
                        if start <= bad < start + cnt:
                            break
                    with open(path, 'rb') as f:
                        all_lines = f.read().split(b'\n')
                    # Once more: a verdict must not depend on TLC's mood
                    if judge(batch, env, path)[1] != bad:
                        raise Failure('TLC contradicts itself')
                    res.violation = {
                        'batch': batch, 'job': job, 'index': bad - start,
                        'trace': all_lines[start:start + cnt],
                        'tlc': t.out[-2000:]}
            os.unlink(path)

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(worker) for _ in range(NCPU)]
        for f in fs:
            f.result()


def save_violation(pid, v, env):
    """Write down the rejected recording, and what rejects it."""
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, pid)
    b, job = v['batch'], v['job']
    upto = v['trace'][:v['index'] + 1]
    with open(base + '.ndjson', 'wb') as f:
        f.write(b'\n'.join(upto) + b'\n')
    if job.stdin:
        with open(base + '.stdin', 'wb') as f:
            f.write(job.stdin)
    with open(base + '.txt', 'w') as f:
        f.write('property %s\n' % pid)
        f.write('specification spec/%s.tla (%s)\n' % (b.module, b.cfg))
        f.write('driver run: %s%s\n' % (job.cmdline(), ' < %s.stdin' % base
                                        if job.stdin else ''))
        f.write('to replay: VERIF_REPO=%s python3 check.py replay %s %s%s\n' %
                (REPO, b.module, job.cmdline(),
                 ' < %s.stdin' % base if job.stdin else ''))
        f.write('recording up to the rejected line: %s.ndjson\n' % base)
        f.write('rejected line %d:\n  %s\n' %
                (v['index'] + 1, upto[-1].decode(errors='replace')[:2000]))
        f.write('\nTLC:\n' + v['tlc'])
    return base + '.txt'


class Model:
    """A specification checked by TLC on its own.  cfg is the configuration,
    or the name of a file with it."""

    def __init__(self, module, cfg, what, workers=None, mem='8g', timeout=3000,
                 emit=False, stop=None):
        self.module, self.cfg, self.what = module, cfg, what
        self.stop = stop
        self.workers = workers or NCPU
        self.mem, self.timeout, self.emit = mem, timeout, emit
        self.out = None

    def run(self, env):
        t0 = time.time()
        cfg = self.cfg
        if '\n' in cfg:
            cfg = env.path('.cfg')
            with open(cfg, 'w') as f:
                f.write(self.cfg)
        t = tlc(self.module, cfg, env, workers=self.workers,
                mem=self.mem, timeout=self.timeout, stop=self.stop)
        if not t.ok:
            raise Failure('the model %s does not hold:\n%s' %
                          (self.module, t.out[-1500:]))
        if self.emit:
            self.out = t.out
        return {'module': self.module, 'what': self.what,
                'generated': t.states, 'distinct': t.distinct,
                'unexplored': t.left,
                'wall_s': round(time.time() - t0, 1)}
