"""Decides one property: analyses its entry points over the current source of the repository."""
import copy
import json
import os
import re
import sys
import time
import traceback
from . import prog as progmod
from . import explore, speclib, source

VERIF = progmod.VERIF
# kinds of finding
LIFE = {'bounds', 'lifetime', 'leak', 'double free', 'bad free', 'mismatched release', 'uninitialised read',
        'null dereference', 'destruction', 'overflow', 'dangling', 'invalid iterator', 'double ownership', 'bad downcast'}
FUNC = {'postcondition', 'bounds', 'lifetime', 'uninitialised read', 'null dereference', 'non-termination',
        'missing return', 'unexpected exception', 'abnormal termination', 'division by zero', 'overflow', 'dangling',
        'invalid iterator', 'null string', 'unreachable', 'aliasing', 'bad downcast', 'key modification'}
ALL = LIFE | FUNC


# a proof with guessed loop conditions, a proof without those that fail, and a search for a confirmed violation
MODES = ('abstract', 'weaken', 'exact')


class Unit:
    """Entry points of one driver that bear on a property."""
    def __init__(self, driver, pattern, rules=FUNC, flags=(), secs=None, config=None, thorough_only=False, modes=None, note=None):
        self.driver, self.pattern, self.rules, self.flags = driver, pattern, rules, tuple(flags)
        self.secs = secs
        self.config = config
        self.thorough_only = thorough_only
        self.modes = modes
        self.note = note
        self.release = None


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.violations = []        # dicts
        self.undecided = []
        self.errors = []
        self.rows = []              # one per analysed entry point
        self.extra = {}
        self.functions = set()
        self.obligations = 0
        self.discharged = 0


def known_findings():
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) scenario=(\S+) rule=(\S+) (.*)', line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).replace('_', ' '), m.group(4).strip()))
    return out


def analyse(rep, units, tier):
    progs = {}
    jobs = []
    covered = set()

    def job(u, f, p, mode):
        mk = u.config or speclib.config
        return ((u, f, p, mode), dict(prog=p, mkcfg=(mk if tier == 'quick' else deepen(mk)), scenario=speclib.scenario_of(f), name=f['n'], rules=u.rules,
                                      max_secs=u.secs or (90 if tier == 'quick' else 400), mode=mode))
    for u in units:
        if u.thorough_only and tier != 'thorough':
            continue
        key = (u.driver, u.flags)
        if key not in progs:
            try:
                progs[key] = progmod.load(u.driver, u.flags)
            except progmod.CompileFailed as e:
                progs[key] = None
                first = [x for x in str(e).splitlines() if ': error:' in x or 'fatal error:' in x]
                rep.violations.append({'scenario': u.driver, 'rule': 'does not compile', 'where': (first or ['?'])[0].split(': ')[0],
                                       'msg': 'the operations of this property can no longer be instantiated: ' + (first or [str(e)[:300]])[0],
                                       'notes': str(e).splitlines()[:40], 'witness': {}, 'stack': [], 'inside': []})
        p = progs[key]
        if p is None:
            continue
        fs = [f for f in p.f.values() if f['n'].startswith('spec_') and f.get('body') and re.search(u.pattern, f['n'])]
        if not fs:
            rep.errors.append('no entry point matches %s in %s' % (u.pattern, u.driver))
        for f in sorted(fs, key=lambda f: f['l'][1]):
            covered.add((u.driver, f['n'], u.flags))
            jobs.append(job(u, f, p, (u.modes or MODES)[0]))

    def release(u, f, p, res):
        """The same entry point in the other build configuration, where the code it reaches differs there."""
        flags = u.flags + ('-DNDEBUG',) if '-DNDEBUG' not in u.flags else tuple(x for x in u.flags if x != '-DNDEBUG')
        key = (u.driver, flags)
        if key not in progs:
            try:
                progs[key] = progmod.load(u.driver, flags)
            except progmod.CompileFailed as e:
                progs[key] = None
                first = [x for x in str(e).splitlines() if ': error:' in x or 'fatal error:' in x] or [str(e)[:300]]
                rep.violations.append({'scenario': u.driver, 'rule': 'does not compile', 'where': first[0].split(': ')[0],
                                       'msg': 'the operations of this property can no longer be instantiated with %s: %s' % (' '.join(flags), first[0]),
                                       'notes': str(e).splitlines()[:40], 'witness': {}, 'stack': [], 'inside': []})
        q = progs[key]
        if q is None or p.same_code(res.visited, q):
            return []
        g = [x for x in q.f.values() if x['n'] == f['n'] and x.get('body')]
        if not g or (u.driver, f['n'], flags) in covered:
            return []
        covered.add((u.driver, f['n'], flags))
        v = copy.copy(u)
        v.flags, v.release = flags, u
        return [job(v, g[0], q, (u.modes or MODES)[0])]

    def done(key, res):
        u, f, p, mode = key
        for i in res.visited:
            g = p.f[i]
            w = p.where(g.get('l'))
            if w.startswith('include/') or w.startswith('src/'):
                rep.functions.add('%s (%s)' % (g['dn'], w))
        row = {'entry': f['n'], 'flags': ' '.join(u.flags), 'mode': mode, 'verdict': res.verdict(), 'partitions': res.paths, 'closed_by_loop_invariant': res.covered,
               'cut_at_bound': res.cut, 'claims_evaluated': res.claims, 'secs': round(res.secs, 2)}
        if res.doubts:
            row['undischarged'] = sorted(set(res.doubts))[:5]
        rep.rows.append(row)
        for x in res.findings:
            rep.violations.append({'scenario': f['n'], 'rule': x.rule, 'where': x.where, 'msg': x.msg, 'notes': x.notes,
                                   'witness': {k: str(v) for k, v in x.wit.items()}, 'stack': x.stack, 'inside': x.inside,
                                   'entry_at': p.where(f['l']) + ''.join(' ' + x for x in u.flags)})
        if mode == 'pinned':
            return None
        modes = u.modes or MODES
        i = modes.index(mode)
        proof = mode != 'exact' or modes[0] == 'exact'
        more = []
        if i == 0 and u.release is None:
            more += release(u, f, p, res)
        if i == 0:
            rep.obligations += 1
            if not res.complete and not res.findings and not res.doubts:
                rep.undecided.append('%s: no partition reaches the end of the entry point' % f['n'])
        if proof and res.verdict() == 'proved':
            rep.discharged += 1
        elif proof and res.verdict() != 'violated' and (i + 1 == len(modes) or modes[i + 1] == 'exact'):
            rep.undecided.extend(sorted(set(res.doubts))[:3])
        if not res.findings and res.verdict() != 'proved':
            if res.pins and mode == ('weaken' if 'weaken' in modes else 'abstract'):
                for pin in res.pins[:3]:
                    k, kw = job(u, f, p, 'pinned')
                    more.append((k, dict(kw, pins=pin, max_secs=40)))
            if i + 1 < len(modes):
                more.append(job(u, f, p, modes[i + 1]))
        elif tier == 'thorough' and not res.findings and mode != 'exact' and 'exact' in modes:
            more.append(job(u, f, p, 'exact'))
        return more

    def stop():
        # a violation is a violation: no need to look long for others
        t = time.time() - rep.t0
        return t > (620 if tier == 'quick' else 3000) or (rep.violations and t > 150 and tier == 'quick')
    skipped = explore.run_all(jobs, min(8, os.cpu_count() or 4), done, stop)
    for u, f, p, mode in skipped:
        if mode == (u.modes or MODES)[0]:
            rep.obligations += 1
        rep.undecided.append('%s: not analysed (%s) within the time of this run' % (f['n'], mode))
    return rep


def deepen(mk):
    def go():
        c = mk()
        c.max_exact += 2
        c.max_unroll += 40
        return c
    return go


def main(argv):
    sys.path.insert(0, VERIF)
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from props.table import TABLE
    ent = TABLE[pid]
    rep = Report(pid, tier)
    try:
        if ent.get('units'):
            analyse(rep, ent['units'], tier)
        for fn in ent.get('checks', ()):
            fn(rep, tier)
    except Exception:
        traceback.print_exc()
        rep.errors.append(traceback.format_exc())
    known = [k for k in known_findings() if k[0] == pid]
    outdir = os.path.join(VERIF, 'evidence')
    os.makedirs(outdir, exist_ok=True)
    real = []
    seen = set()
    for v in rep.violations:
        hit = [k for k in known if k[1] == v['scenario'] and k[2] == v['rule']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][3]))
            continue
        key = (v['scenario'], v['rule'], v['where'], v['msg'])
        if key in seen:
            continue
        seen.add(key)
        real.append(v)
    cov = {'entry_points': rep.rows, 'repository_functions_analysed': sorted(rep.functions), 'undischarged': rep.undecided[:50]}
    cov.update(rep.extra)
    level = ent['level']
    if level == 'proof':
        cov.update(obligations=rep.obligations, discharged=rep.discharged, checker_cmd='./check %s %s' % (pid, tier),
                   trusted_base=['clang 18 front end (parsing, name lookup, template instantiation)', 'tools/astx (AST export)',
                                 'engine/*.py (abstract interpreter, domains, models of the standard library)', 'drivers/ (the statement of the property)'])
    else:
        cov['obligations'] = rep.obligations
        cov['discharged'] = rep.discharged
        cov['explanation'] = ent['note']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ent.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    with open(os.path.join(outdir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s: %d of %d obligations discharged, %d violations, %d undecided, %.1f s' % (
        pid, tier, rep.discharged, rep.obligations, len(real), len(rep.undecided), time.time() - t0))
    for d in rep.undecided[:10]:
        print('undecided: %s' % d)
    if real:
        for i, v in enumerate(real):
            path = os.path.join(outdir, '%s-violation-%d.txt' % (pid, i + 1))
            with open(path, 'w') as fh:
                fh.write(render(pid, v))
            print('  %s: %s: %s (entry point %s)' % (v['where'], v['rule'], v['msg'], v['scenario']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if rep.errors:
        for e in rep.errors:
            print('error: %s' % e)
        return 2
    return 0


def render(pid, v):
    out = ['property %s violated' % pid, 'rule: %s' % v['rule'], 'at: %s' % v['where'], v['msg'],
           'entry point: %s (%s)' % (v['scenario'], v.get('entry_at', '')),
           'a concrete instance of this path: %s' % v['witness'], '', 'call stack:']
    out += ['  ' + x for x in v['stack']]
    out += ['', 'conditions and events on the path:']
    out += ['  ' + x for x in v['notes']]
    out += ['', 'repository functions on the path:']
    out += ['  ' + x for x in v['inside']]
    return '\n'.join(out) + '\n'


if __name__ == '__main__':
    sys.exit(main(sys.argv))
