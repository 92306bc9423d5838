"""Running the tools, and turning what they print into events."""
import json
import re
import subprocess

import vf


def bits(n):
    return [i for i in range(80) if n >> i & 1]


POLY = re.compile(r'0x([0-9a-f]+) \[0x([0-9a-f]+)\] -> (.*)')


def poly(text):
    """'0x13 [0x19] -> x^4 + x + 1': what it's said to be in three ways.  If
    they don't agree then it's nothing."""
    m = POLY.search(text)
    if not m:
        return None, None
    p, r = int(m.group(1), 16), int(m.group(2), 16)
    terms = []
    for t in re.sub(r'\[dup\]', '', m.group(3)).replace(' ', '').split('+'):
        terms.append(0 if t == '1' else 1 if t == 'x' else
                     int(t[2:]) if t[:2] == 'x^' else -1)
    if sorted(terms) != bits(p):
        return [-1], [-1]
    return bits(p), bits(r)


def roots(n, d):
    """How many roots a polynomial has with the first n powers of alpha among
    them, in a field of 2**d elements."""
    s = set()
    for i in range(1, n + 1):
        while i not in s:
            s.add(i)
            i = 2 * i % (2 ** d - 1)
    return len(s)


class ToolJob(vf.Job):
    """A run of gftool or gentab.  args: {'a': 'arguments', 'bad': 1 if they make
    no sense}"""

    def events(self, out):
        a = self.args['a'].split()
        ev = []
        if self.driver == 'gentab':
            words = re.findall(r'0x([0-9a-f]{8}),', out)
            if len(words) != 256:
                return [{'e': 'bad', 'what': 'table size'}]
            g = int(a[0], 16)
            for i, w in enumerate(words):
                w = int(w, 16)
                ev.append({'e': 'table', 'i': i,
                           'g': [g & 0xffff, g >> 16],
                           'c': [w & 0xffff, w >> 16]})
            return ev
        if a[0] == 'search':
            for line in out.splitlines():
                p, r = poly(line)
                if p:
                    ev.append({'e': 'found', 'd': int(a[1]), 'p': p, 'r': r})
            ev.append({'e': 'all', 'd': int(a[1])})
            return ev
        ev.append({'e': 'field', 'g': bits(int(a[0], 16))})
        if a[1] == 'bch':
            f, p = [], None
            for line in out.splitlines():
                q, r = poly(line)
                if not q:
                    continue
                if set(r) != {max(q) - x for x in q}:
                    return [{'e': 'bad', 'what': 'reciprocal'}]
                if 'generator:' in line:
                    p = r
                elif '[dup]' not in line:
                    f.append(r)
            ev.append({'e': 'genpoly', 'n': int(a[2]), 'f': f,
                       'p': p if p else []})
        return ev

    def tables(self, exp, log):
        a = self.args['a'].split()
        x = [int(w, 16) for w in re.findall(r'0x([0-9a-f]+),', exp)]
        lg = [int(w, 16) for w in re.findall(r'0x([0-9a-f]+),', log)]
        ev = [{'e': 'field', 'g': bits(int(a[0], 16))}]
        if len(x) != len(lg):
            return [{'e': 'bad', 'what': 'table size'}]
        for i, v in enumerate(x):
            ev.append({'e': 'exp', 'i': i, 'x': v, 'n': len(x),
                       'l': lg[v] if v < len(lg) else -1})
        return ev

    def once(self, env, args):
        p = subprocess.run([env.built[self.driver]] + args,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=100)
        if p.returncode:
            return None
        return p.stdout.decode('latin1')

    def refused(self, env, args):
        """What it makes of arguments that make no sense."""
        p = subprocess.run([env.built[self.driver]] + args,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=100)
        if p.returncode < 0 or b'Sanitizer' in p.stderr:
            return 'crash'
        if b'0x' in p.stdout:
            return 'answer'
        return 'refused' if p.returncode else 'accepted'

    def run(self, env, f, timeout):
        a = self.args['a'].split()
        if 'bad' in self.args:
            ev = [{'e': 'wrong', 'r': self.refused(env, a)}]
        elif a[-1] == 'tables':
            exp = self.once(env, [a[0], 'exp'])
            log = self.once(env, [a[0], 'log'])
            ev = (self.tables(exp, log) if exp and log else
                  [{'e': 'bad', 'what': 'exit status'}])
        else:
            out = self.once(env, a)
            if out is not None:
                ev = self.events(out)
            elif a[1] == 'bch':
                ev = [{'e': 'field', 'g': bits(int(a[0], 16))},
                      {'e': 'refused', 'n': int(a[2])}]
            else:
                ev = [{'e': 'bad', 'what': 'exit status'}]
        ev.append({'e': 'end'})
        lines = [json.dumps(x, separators=(',', ':')).encode() for x in ev]
        f.write(b'\n'.join(lines) + b'\n')
        return lines
