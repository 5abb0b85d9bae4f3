"""Effects: every variable of static or thread storage duration in the code, and what each function refers to outside
its operands.  Templates are inspected as they are written, macros as the entry points expand them."""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .prog import REPO, VERIF, BUILD

BASE = ['-std=gnu++20', '-I' + REPO + '/include', '-I' + VERIF + '/drivers', '-w']
ENGINE = re.compile(r'\bstd::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine|random_device)\b')
LOCK = re.compile(r'^(class |struct )?std::(mutex|recursive_mutex|shared_mutex|timed_mutex|shared_timed_mutex)$')
FLAG = re.compile(r'^(_Bool|bool|(class |struct )?std::(atomic<(bool|_Bool|int|unsigned int|unsigned long)>|atomic_flag|once_flag))$')
ONCE = ('HELPER_WARN_ONCE', 'HELPER_DEPRECATED')
# Functions of the libraries that read or write state of the whole program.
GLOBAL = re.compile(r'^(std::)?(rand|srand|random|srandom|rand_r|drand48|lrand48|mrand48|srand48|strtok|setlocale|setenv|putenv|unsetenv|getenv|signal|atexit|at_quick_exit|localtime|gmtime|asctime|ctime|'
                    r'tmpnam|tmpfile|strerror|system|mallopt|fesetround|fesetenv|set_terminate|set_new_handler|__errno_location|fopen|freopen|chdir|getcwd)$|^std::locale::global$|^std::ios_base::sync_with_stdio$|^std::basic_ios<char>::tie$')


def short(p):
    return p[len(REPO) + 1:] if p and p.startswith(REPO + '/') else p


def ours(at):
    return bool(at) and os.path.realpath(at[0]).startswith(os.path.realpath(REPO) + '/')


def export(name, src, flags, text=None):
    tmp = os.path.join(BUILD, 'effects_%d_%s' % (os.getpid(), re.sub(r'\W', '_', name)))
    if text is not None:
        src = tmp + '.cpp'
        open(src, 'w').write(text)
    try:
        r = subprocess.run([os.path.join(BUILD, 'astx'), '--effects', tmp + '.json', src, '--'] + BASE + list(flags), capture_output=True, text=True, timeout=300)
        if r.returncode or not os.path.exists(tmp + '.json'):
            return name, None, r.stderr
        return name, json.load(open(tmp + '.json')), ''
    finally:
        for f in (tmp + '.json', tmp + '.cpp'):
            if os.path.exists(f):
                os.remove(f)


def allowed(v):
    """The state the property names, and locks."""
    f = short(os.path.realpath(v['spelled'][0]))
    if f == 'include/test.hpp' and (not v['local'] or v['macros']):
        return 'test counters'
    if v['macros'] and v['macros'][-1] in ONCE and v['local'] and FLAG.match(v['canon']):
        return 'once-only warning flag'
    fields = v.get('fields')
    if f == 'include/randomiser.hpp' and not v['tls'] and (ENGINE.search(v['canon']) or fields and all(ENGINE.search(x) or LOCK.match(x) for x in fields)):
        return 'random generator'
    if LOCK.match(v['canon']):
        return 'lock'
    return None


def effects(rep, tier):
    subprocess.run(['sh', os.path.join(VERIF, 'tools', 'build_astx.sh')], check=True, capture_output=True)
    inc = os.path.join(REPO, 'include')
    heads = ''.join('#include "%s"\n' % h for h in sorted(os.listdir(inc)) if h.endswith('.hpp'))
    todo = []
    for conf, fl in (('debug', []), ('release', ['-DNDEBUG']), ('traced', ['-DENABLE_STACK_TRACE'])):
        todo.append(('all headers, ' + conf, None, fl, heads))
        for s in sorted(os.listdir(os.path.join(REPO, 'src'))) if os.path.isdir(os.path.join(REPO, 'src')) else ():
            if s.endswith('.cpp'):
                todo.append(('src/%s, %s' % (s, conf), os.path.join(REPO, 'src', s), fl, None))
        for d in ('macros.cpp', 'testmacros.cpp'):
            todo.append(('macros as %s expands them, %s' % (d, conf), os.path.join(VERIF, 'drivers', d), fl, None))
    vs, fs, units = {}, {}, []
    with ThreadPoolExecutor(8) as ex:
        for name, d, err in ex.map(lambda t: export(*t), todo):
            units.append(name)
            if d is None:
                rep.obligations += 1
                rep.violations.append({'scenario': name, 'rule': 'does not compile', 'where': name, 'msg': (re.findall(r'.*error: .*', err) or [err or 'the compiler fails'])[0][:300],
                                       'notes': err.splitlines()[:20], 'witness': {}, 'stack': [], 'inside': []})
                continue
            for v in d['vars']:
                if ours(v['spelled']):
                    vs.setdefault((v['n'].split('::')[-1], tuple(v['spelled'])), v)
            for f in d['functions']:
                refs = [r for r in f['refs'] if ours(r['spelled'])]
                if ours(f['spelled']) or refs:
                    e = fs.setdefault((f['n'], tuple(f['spelled'])), {'f': f, 'refs': {}})
                    for r in refs:
                        e['refs'][(r['k'], r['n'], tuple(r['spelled']))] = r
    table = []
    bad = {}
    for key, v in sorted(vs.items(), key=lambda t: str(t[0])):
        rep.obligations += 1
        ok = not v['why'] and (not v['tls'] or v['constexpr'])
        why = '' if ok else allowed(v)
        table.append({'variable': v['n'], 'where': '%s:%d' % (short(v['spelled'][0]), v['spelled'][1]), 'type': v['type'], 'verdict': 'immutable' if ok else why or 'hidden state: ' + (v['why'] or 'thread storage')})
        if ok or why:
            rep.discharged += 1
            continue
        bad[v['n']] = v
        users = sorted({e['f']['n'] for e in fs.values() for r in e['refs'].values() if r['k'] == 'var' and r['n'] == v['n']})
        rep.violations.append({'scenario': 'static storage', 'rule': 'hidden mutable state', 'where': '%s:%d' % (short(v['spelled'][0]), v['spelled'][1]),
                               'msg': '%s %s of %s storage duration is shared by all operations: %s%s' % (v['type'], v['n'], 'thread' if v['tls'] else 'static', v['why'] or 'it belongs to a thread',
                                                                                                          '; used by ' + ', '.join(users) if users else ''),
                               'notes': [], 'witness': {}, 'stack': [], 'inside': []})
    for key, e in sorted(fs.items(), key=lambda t: str(t[0])):
        rep.obligations += 1
        wrong = []
        for (k, n, at), r in sorted(e['refs'].items()):
            if k == 'fn' and GLOBAL.match(n):
                wrong.append((at, 'calls %s, which uses state of the whole program' % n))
            elif k == 'var' and r['sys'] and n not in ('std::cout', 'std::cerr', 'std::clog') and not re.match(r'std::(in_place|ignore|nothrow|piecewise_construct|defer_lock|adopt_lock|ranges::)', n):
                wrong.append((at, 'refers to %s' % n))
            elif k == 'asm':
                wrong.append((at, 'contains assembler code'))
        if not wrong:
            rep.discharged += 1
        for at, what in wrong:
            rep.violations.append({'scenario': e['f']['n'], 'rule': 'hidden mutable state', 'where': '%s:%d' % (short(at[0]), at[1]), 'msg': '%s %s' % (e['f']['n'], what),
                                   'notes': [], 'witness': {}, 'stack': [], 'inside': []})
    rep.extra['translation_units'] = units
    rep.extra['static_variables'] = table
    rep.extra['functions_inspected'] = len(fs)
    rep.extra['references_inspected'] = sum(len(e['refs']) for e in fs.values())
