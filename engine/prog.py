"""The resolved program of one translation unit, as exported by astx."""
import json
import os
import subprocess
import hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class CompileFailed(Exception):
    pass


class Prog:
    def __init__(self, data):
        self.types = data['types']
        self.files = data['files']
        self.f = {int(k): v for k, v in data['functions'].items()}
        self.r = {int(k): v for k, v in data['records'].items()}
        self.vars = {int(k): v for k, v in data['vars'].items()}
        self.byname = {}
        for f in self.f.values():
            self.byname.setdefault(f['qn'], []).append(f)
        self.recname = {}
        for r in self.r.values():
            self.recname.setdefault(r['dn'], r)
            self.recname.setdefault(r['qn'], r)

    def fn(self, qn):
        fs = [f for f in self.byname.get(qn, []) if f.get('body')]
        if not fs:
            return None
        return fs[0]

    def type(self, i):
        return self.types[i] if i is not None and i >= 0 else {'k': 'other', 's': '?'}

    def rectype(self, i):
        """Record of a type index (through references), or None."""
        t = self.type(i)
        while t['k'] in ('lref', 'rref'):
            t = self.type(t['to'])
        if t['k'] == 'rec':
            return self.r.get(t.get('rec'))
        return None

    def where(self, l):
        if not l:
            return '?'
        f = self.files[l[0]]
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        elif f.startswith(VERIF + '/'):
            f = f[len(VERIF) + 1:]
        return '%s:%d' % (f, l[1])

    def derives(self, rid, base):
        """Path of record ids from rid to base (exclusive of rid), or None."""
        if rid == base:
            return []
        for b in self.r.get(rid, {}).get('bases', []):
            p = self.derives(b['rec'], base)
            if p is not None:
                return [b['rec']] + p
        return None

    def digest(self, i):
        """The code of function i, independent of positions and of numbering."""
        if not hasattr(self, 'digests'):
            self.digests = {}
        if i in self.digests:
            return self.digests[i]
        local = {}

        def norm(x):
            if isinstance(x, list):
                return [norm(y) for y in x]
            if not isinstance(x, dict):
                return x
            out = {}
            for k, v in x.items():
                if k == 'l':
                    continue
                if k in ('t', 'ret') and isinstance(v, int):
                    v = self.type(v).get('s', v)
                elif k in ('f', 'dt') and isinstance(v, int) and v in self.f:
                    v = self.f[v]['dn']
                elif k in ('rec', 'r') and isinstance(v, int) and v in self.r:
                    v = self.r[v]['dn']
                elif k == 'id' and isinstance(v, int):
                    if x.get('dk') == 'func' and v in self.f:
                        v = self.f[v]['dn']
                    else:
                        v = local.setdefault(v, len(local))
                else:
                    v = norm(v)
                out[k] = v
            return out
        f = self.f[i]
        d = hashlib.sha1(json.dumps(norm({k: v for k, v in f.items() if k not in ('id', '_id')}), sort_keys=True).encode()).hexdigest()
        self.digests[i] = d
        return d

    def same_code(self, ids, other):
        """Whether the given functions have the same code in another program."""
        for i in ids:
            f = self.f[i]
            if not any(other.digest(k['_id']) == self.digest(i) for k in other.named(f['dn'])):
                return False
        return True

    def named(self, dn):
        if not hasattr(self, 'bydn'):
            self.bydn = {}
            for i, f in self.f.items():
                f['_id'] = i
                self.bydn.setdefault(f['dn'], []).append(f)
        return self.bydn.get(dn, [])

    def lambdas(self):
        """Captures of every closure type."""
        m = getattr(self, '_lambdas', None)
        if m is None:
            m = {}

            def walk(x):
                if isinstance(x, dict):
                    if x.get('k') == 'LambdaExpr':
                        m[x['rec']] = x['caps']
                    for v in x.values():
                        if isinstance(v, (dict, list)):
                            walk(v)
                else:
                    for v in x:
                        if isinstance(v, (dict, list)):
                            walk(v)
            for f in self.f.values():
                walk([f.get('body'), f.get('inits')])
            for v in self.vars.values():
                walk([v.get('init')])
            self._lambdas = m
        return m

    def repo_functions(self):
        return [f for f in self.f.values() if f.get('body') and f.get('l') and self.files[f['l'][0]].startswith(REPO)]


FLAGS = ['-std=gnu++20', '-I' + REPO + '/include', '-I' + VERIF + '/drivers', '-w']


def build_tool():
    r = subprocess.run([os.path.join(VERIF, 'tools', 'build_astx.sh')], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('cannot build the exporter:\n' + r.stdout + r.stderr)


def load(driver, extra=()):
    """Exports and loads a driver (path relative to /verif/drivers, or absolute)."""
    build_tool()
    src = driver if os.path.isabs(driver) else os.path.join(VERIF, 'drivers', driver)
    tag = hashlib.sha1((src + '|' + '|'.join(extra)).encode()).hexdigest()[:12]
    out = os.path.join(BUILD, 'ast-%s-%d.json' % (tag, os.getpid()))
    try:
        r = subprocess.run([os.path.join(BUILD, 'astx'), out, src, '--'] + FLAGS + list(extra),
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            errs = [x for x in r.stderr.splitlines() if ' error:' in x]
            raise CompileFailed('\n'.join(errs[:10]) + '\n' + r.stderr[:6000])
        with open(out) as fh:
            p = Prog(json.load(fh))
        p.lambdas()
        return p
    finally:
        if os.path.exists(out):
            os.unlink(out)
