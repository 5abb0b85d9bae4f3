"""Type-level witnesses: files that compile exactly if the code has the property (static assertions, instantiations).
They are only compiled, never linked or run; a diagnostic is a violation and names the construct that caused it."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .prog import REPO, VERIF, BUILD

COMPILERS = {'g++': ['g++', '-fmax-errors=0', '-fconcepts-diagnostics-depth=2'], 'clang++': ['clang++-18', '-ferror-limit=0']}
CONFIGS = {'debug': [], 'release': ['-DNDEBUG']}
INC = ['-std=gnu++20', '-I' + REPO + '/include', '-I' + VERIF + '/drivers', '-w']


def shorten(p):
    for r in (REPO, VERIF):
        if p.startswith(r + '/'):
            return p[len(r) + 1:]
    return p


def diagnostics(text):
    """One dictionary per error: its message, the place it names in the repository if there is one, and the whole text."""
    blocks, cur, lead = [], None, []
    for line in text.splitlines():
        if re.search(r': (fatal )?error: ', line):
            cur = lead + [line]
            lead = []
            blocks.append(cur)
        elif line.startswith('In file included') or line.startswith('In instantiation') or re.match(r'\S+: In ', line) or re.search(r'required from|required by', line) and cur is None:
            lead.append(line)
        elif cur is not None:
            cur.append(line)
    out = []
    for b in blocks:
        e = next(x for x in b if re.search(r': (fatal )?error: ', x))
        m = re.match(r'(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)', e)
        at, msg = ('%s:%s' % (shorten(m.group(1)), m.group(2)), m.group(3)) if m else ('?', e)
        inrepo = [at] if at.startswith(('include/', 'src/')) else []
        for x in b:
            inrepo += ['%s:%s' % (shorten(p), l) for p, l in re.findall(r'(%s/\S+?):(\d+)' % re.escape(REPO), x)]
        out.append({'where': inrepo[0] if inrepo else at, 'at': at, 'msg': msg, 'text': b})
    return out


def compile_(src, compiler, config, extra=(), stdin=None, obj=None):
    cmd = COMPILERS[compiler] + INC + CONFIGS[config] + list(extra)
    cmd += ['-c', '-o', obj] if obj else ['-fsyntax-only']
    cmd += ['-x', 'c++', '-'] if stdin is not None else [src]
    r = subprocess.run(cmd, input=stdin, capture_output=True, text=True, timeout=600)
    return r.returncode, r.stderr


def count(path):
    s = open(path).read()
    return len(re.findall(r'\bstatic_assert\b|\bWITNESS\b', s))


def definitions():
    d = {}
    inc = os.path.join(REPO, 'include')
    for f in sorted(os.listdir(inc)):
        if f.endswith('.hpp'):
            for i, l in enumerate(open(os.path.join(inc, f)), 1):
                m = not l.lstrip().startswith('//') and re.search(r'\b(?:concept|using|struct|class|decltype\(auto\))\s+(\w+)\s*(?:=|:|\{|<|\()', l)
                if m and not l.rstrip().endswith('> struct %s;' % m.group(1)):
                    d.setdefault(m.group(1), 'include/%s:%d' % (f, i))
    return d


def named(at):
    """What the code defines, of what the line of a failed assertion names."""
    f, _, n = at.rpartition(':')
    try:
        line = open(os.path.join(VERIF, f)).read().splitlines()[int(n) - 1]
    except (OSError, ValueError, IndexError):
        return []
    d = definitions()
    return ['%s (%s)' % (w, d[w]) for w in dict.fromkeys(re.findall(r'\w+', line)) if w in d and w != 'std']


def check(rep, jobs):
    """jobs: (name, source path or None, text or None, number of obligations, extra flags) per compiler and configuration."""
    todo = [(j, c, k) for j in jobs for c in COMPILERS for k in CONFIGS]

    def one(t):
        (name, src, text, n, extra), c, k = t
        try:
            return t, compile_(src, c, k, extra, text)
        except subprocess.TimeoutExpired:
            return t, (None, '')
    rows = {}
    with ThreadPoolExecutor(8) as ex:
        for ((name, src, text, n, extra), c, k), (rc, err) in ex.map(one, todo):
            rep.obligations += n
            row = rows.setdefault(name, {'witness': name, 'obligations': n, 'accepted_by': [], 'rejected_by': []})
            if rc is None:
                rep.undecided.append('%s: compilation with %s (%s) takes too long' % (name, c, k))
                continue
            ds = diagnostics(err)
            if rc and re.search(r'frontend command failed|internal compiler error|PLEASE submit a bug report', err):
                rep.undecided.append('%s: %s crashes (%s)' % (name, c, k))
                continue
            if rc == 0:
                rep.discharged += n
                row['accepted_by'].append('%s %s' % (c, k))
                continue
            row['rejected_by'].append('%s %s' % (c, k))
            rep.discharged += max(0, n - len(ds))
            if not ds:
                ds = [{'where': name, 'at': name, 'msg': (err.strip().splitlines() or ['the compiler fails'])[0], 'text': err.splitlines()[:40]}]
            for d in ds[:20]:
                place = d['where'] if d['where'].startswith(('include/', 'src/')) else ', '.join(named(d['at'])[:4]) or d['where']
                failed = 'static assertion failed' in d['msg'] or 'static_assert' in d['msg']
                rep.violations.append({'scenario': name, 'rule': 'static assertion' if failed else 'does not compile', 'where': place,
                                       'msg': '%.300s (at %s, %s, %s build)' % (d['msg'], d['at'], c, k),
                                       'notes': [x[:300] for x in d['text'][:60]], 'witness': {}, 'stack': [], 'inside': []})
    rep.extra.setdefault('witnesses', []).extend(rows.values())
    rep.extra['compilers'] = [' '.join(v[:1]) for v in COMPILERS.values()]


def files(*names):
    def fn(rep, tier):
        check(rep, [(n, os.path.join(VERIF, 'drivers', n), None, count(os.path.join(VERIF, 'drivers', n)), ()) for n in names])
    return fn


def headers(rep, tier):
    """Every public header, as the only include, twice, and in two source files of one program."""
    inc = os.path.join(REPO, 'include')
    hs = sorted(f for f in os.listdir(inc) if f.endswith('.hpp'))
    check(rep, [('only ' + h, None, '#include "%s"\n#include "%s"\nint main() { return 0; }\n' % (h, h), 1, ()) for h in hs])
    rep.extra['headers'] = hs
    work = os.path.join(BUILD, 'w%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        def one(h):
            o = os.path.join(work, h + '.o')
            rc, err = compile_(None, 'g++', 'debug', (), '#include "%s"\n' % h, o)
            if rc:
                return h, None
            r = subprocess.run(['nm', '-C', o], capture_output=True, text=True)
            return h, [l.split(' ', 2)[2] for l in r.stdout.splitlines() if re.match(r'[0-9a-f]+ [TDBRG] ', l)]
        with ThreadPoolExecutor(8) as ex:
            for h, syms in ex.map(one, hs):
                rep.obligations += 1
                if syms is None:
                    rep.undecided.append('%s: definitions not listed, as it does not compile' % h)
                elif syms:
                    for s in syms:
                        rep.violations.append({'scenario': 'definitions of ' + h, 'rule': 'multiple definition', 'where': 'include/' + h,
                                               'msg': '%s is defined in every source file that includes the header, and not inline' % s,
                                               'notes': [], 'witness': {}, 'stack': [], 'inside': []})
                else:
                    rep.discharged += 1
    finally:
        subprocess.run(['rm', '-rf', work])


def uses(rep, tier):
    """Every template instantiated and every operation called, with only the headers it is documented in; and what those uses
    need from elsewhere is defined in the library's sources."""
    d = os.path.join(VERIF, 'drivers', 'use')
    fs = sorted(f for f in os.listdir(d) if f.endswith('.cpp'))
    count = {f: len(re.findall(r';(?!\s*;)', open(os.path.join(d, f)).read())) for f in fs}
    check(rep, [('uses of ' + f[:-4], os.path.join(d, f), None, count[f], ('-I' + d,)) for f in fs])
    work = os.path.join(BUILD, 'u%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    src = os.path.join(REPO, 'src')
    try:
        def one(job):
            name, path, flags = job
            o = os.path.join(work, re.sub(r'\W', '_', name + ''.join(flags)) + '.o')
            cmd = COMPILERS['g++'] + INC + ['-I' + d] + list(flags) + ['-c', '-o', o, path]
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
            if r.returncode:
                return job, None, None
            r = subprocess.run(['nm', o], capture_output=True, text=True)
            defined, needed = set(), set()
            for l in r.stdout.splitlines():
                m = re.match(r'(?:[0-9a-f]+)? *([A-Za-z]) (.*)', l.strip())
                if m:
                    (needed if m.group(1) == 'U' else defined).add(m.group(2))
            return job, defined, needed
        jobs = [('src/' + f, os.path.join(src, f), ()) for f in sorted(os.listdir(src)) if f.endswith('.cpp')]
        nsrc = len(jobs)
        jobs += [(f, os.path.join(d, f), k) for f in fs for k in ((), ('-DNDEBUG',))]
        with ThreadPoolExecutor(8) as ex:
            rows = list(ex.map(one, jobs))
        library = set()
        for (name, path, flags), defined, needed in rows[:nsrc]:
            library |= defined or set()
        for (name, path, flags), defined, needed in rows[nsrc:]:
            rep.obligations += 1
            if needed is None:
                rep.undecided.append('%s: what it needs is not listed, as it does not compile' % name)
                continue
            missing = sorted(s for s in needed - defined - library if re.match(r'_Z\w{0,3}?N?K?6Helper', s))
            for s in subprocess.run(['c++filt'], input='\n'.join(missing), capture_output=True, text=True).stdout.splitlines():
                rep.violations.append({'scenario': 'uses of ' + name[:-4], 'rule': 'never defined', 'where': s.split('(')[0],
                                       'msg': '%s is used and declared, but defined neither in a header nor in src/' % s,
                                       'notes': [], 'witness': {}, 'stack': [], 'inside': []})
            if not missing:
                rep.discharged += 1
    finally:
        subprocess.run(['rm', '-rf', work])
