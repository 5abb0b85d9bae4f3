"""Exploration of all trace partitions of a scenario, and verdicts.

Each undetermined condition forks the analyser: the child process follows one alternative, the parent
the next, so that no partition is analysed twice.  Results travel back through pipes."""
import gc
import os
import pickle
import signal
import sys
import time
import traceback
from .lin import witness
from .interp import Infeasible, Covered, Cut, Unknown, Violated, Ctl, Throw, Terminate, Abnormal, Return, PathEnd
from .ev import Machine
from . import models

models.install(Machine)
sys.setrecursionlimit(20000)


class Finding:
    def __init__(self, scenario, rule, msg, where, notes, wit, stack, inside):
        self.scenario, self.rule, self.msg, self.where, self.notes, self.wit, self.stack, self.inside = scenario, rule, msg, where, notes, wit, stack, inside

    def __repr__(self):
        return '%s: %s: %s [%s] %s' % (self.where, self.rule, self.msg, self.scenario, self.wit)


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.complete = 0
        self.covered = 0
        self.cut = 0
        self.findings = []
        self.doubts = []
        self.secs = 0.0
        self.visited = set()
        self.claims = 0
        self.reached = set()
        self.stop = False
        self.pins = []           # inputs of violations that are not confirmed

    def merge(self, o):
        self.paths += o.paths
        self.complete += o.complete
        self.covered += o.covered
        self.cut += o.cut
        for f in o.findings:
            if not any(g.rule == f.rule and g.where == f.where and g.msg == f.msg for g in self.findings):
                self.findings.append(f)
        for d in o.doubts:
            if d not in self.doubts and len(self.doubts) < 200:
                self.doubts.append(d)
        for p in o.pins:
            if p not in self.pins and len(self.pins) < 4:
                self.pins.append(p)
        self.visited |= o.visited
        self.claims += o.claims
        self.reached |= o.reached
        self.stop = self.stop or o.stop

    def verdict(self):
        if self.findings:
            return 'violated'
        if self.doubts:
            return 'undecided'
        return 'bounded' if self.cut else 'proved'


class Stop(BaseException):
    pass


class Forker:
    """Collects the results of the partitions handled by this process."""
    def __init__(self, res, deadline, max_paths, stop_first):
        self.res, self.deadline, self.max_paths, self.stop_first = res, deadline, max_paths, stop_first
        self.out = None

    def choose(self, n):
        """Forks one process per alternative but the last; returns the alternative of this process."""
        for alt in range(n - 1):
            if time.time() > self.deadline or self.res.paths >= self.max_paths:
                self.res.doubts.append('%s: exploration budget exhausted' % self.res.name)
                self.res.stop = True
                raise Stop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                if self.out is not None:
                    os.close(self.out)
                self.out = w
                base = self.res.paths
                name = self.res.name
                self.max_paths -= base
                self.res = Result(name)
                return alt
            os.close(w)
            got = receive(r)
            os.close(r)
            os.waitpid(pid, 0)
            if got is None:
                self.res.doubts.append('%s: a partition ended without a result' % self.res.name)
            else:
                self.res.merge(got)
                if got.stop:
                    raise Stop()
        return n - 1


def receive(fd):
    parts = []
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            break
        parts.append(b)
    try:
        return pickle.loads(b''.join(parts))
    except Exception:
        return None


def send(fd, obj):
    data = pickle.dumps(obj)
    while data:
        n = os.write(fd, data)
        data = data[n:]


def start(prog, mkcfg, scenario, name, max_paths=20000, max_secs=120, stop_first=True, debug=False, mode='abstract', rules=None, pins=None):
    """Starts the analysis of one scenario in a child process; returns (pid, pipe, start time).

    scenario(I) sets up the abstract state, runs the code and checks the postcondition
    (raising Violated through I.fail).  rules, if given, says which kinds of finding count."""
    t0 = time.time()
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r, t0
    # child
    os.setpgid(0, 0)
    os.close(r)
    gc.disable()
    fk = Forker(Result(name), t0 + max_secs, max_paths, stop_first)
    fk.out = w
    try:
        partition(prog, mkcfg, scenario, name, fk, debug, mode, rules, pins)
    except BaseException as e:
        fk.res.doubts.append('%s: analyser error: %s' % (name, ''.join(traceback.format_exception_only(e)).strip()))
        if debug:
            traceback.print_exc()
    finally:
        try:
            send(fk.out, fk.res)
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(0)


def describe(exc):
    try:
        return 'an exception of type %s' % exc.a[0]
    except Exception:
        return 'an exception'


def partition(prog, mkcfg, scenario, name, fk, debug, mode, rules, pins=None):
    cfg = mkcfg()
    cfg.mode = {'weaken': 'abstract', 'pinned': 'exact'}.get(mode, mode)
    if mode == 'pinned':
        cfg.pins = pins
        cfg.max_exact = max(cfg.max_exact, 400)
        cfg.max_unroll = 2000
    cfg.weaken = mode == 'weaken'
    I = Machine(prog, cfg)
    I.forker = fk
    outcome = None
    try:
        Abnormal.machine = I
        I.enter()
        try:
            scenario(I)
        except Throw as e:
            raise Violated('unexpected exception', '%s leaves the entry point' % describe(e.exc), e.at, e.inside)
        except Terminate as e:
            if e.early:
                raise Violated('postcondition', 'the program calls what it should not call before it aborts', e.at, e.inside)
            if not e.due:
                raise Violated('abnormal termination', 'the program ends (%s)' % e.how, e.at, e.inside)
        outcome = 'complete'
    except Stop:
        return
    except Infeasible:
        outcome = 'infeasible'
    except Covered:
        outcome = 'covered'
    except Cut:
        outcome = 'cut'
    except Unknown as e:
        outcome = 'unknown: ' + e.why
        fk.res.doubts.append('%s: %s' % (name, e.why))
        if debug:
            traceback.print_exc()
    except Violated as e:
        outcome = 'violated: %s: %s' % (e.rule, e.msg)
        if rules is None or e.rule in rules:
            w = witness(I.cons) if I.exact else None
            if w is None and I.exact and debug:
                print("no witness", I.cons)
            if w is not None:
                fk.res.findings.append(Finding(name, e.rule, e.msg, e.where, list(I.notes), w, I.stack(), e.inside))
                if fk.stop_first:
                    fk.res.stop = True
            else:
                if cfg.mode == 'abstract' and len(fk.res.pins) < 4 and getattr(I, 'inputs', ()):
                    w = witness(I.cons)
                    if w is not None:
                        pin = {k: w[str(q)] for k, q in enumerate(I.inputs) if str(q) in w}
                        if pin not in fk.res.pins:
                            fk.res.pins.append(pin)
                fk.res.doubts.append('%s: possible %s at %s: %s (abstract trace %s)' % (
                    name, e.rule, e.where, e.msg, 'not confirmed' if not I.exact else 'has no integer witness'))
    except Ctl as e:
        why = 'exception %s leaves the scenario' % (e.exc if isinstance(e, Throw) else type(e).__name__ + str(getattr(e, 'how', '')))
        outcome = why
        fk.res.doubts.append('%s: %s' % (name, why))
        if debug:
            traceback.print_exc()
    except RecursionError:
        fk.res.doubts.append('%s: analysis recursion limit' % name)
    except Exception as e:
        outcome = 'analyser error'
        fk.res.doubts.append('%s: analyser error %s: %s (%s)' % (name, type(e).__name__, e, I.where()))
        if debug:
            traceback.print_exc()
    res = fk.res
    res.paths += 1
    if outcome == 'complete':
        res.complete += 1
    elif outcome == 'covered':
        res.covered += 1
    elif outcome == 'cut':
        res.cut += 1
    for d in I.undischarged:
        d = '%s: %s' % (name, d)
        if d not in res.doubts:
            res.doubts.append(d)
    res.visited.update(I.visited)
    res.claims += getattr(I, 'claims', 0)
    res.reached |= set(getattr(I, 'reached', ()))
    if debug:
        print('path', I.taken, outcome, I.cons if debug > 1 else '')
        for x in I.notes:
            print('    ', x)


def finish(name, data, t0):
    try:
        res = pickle.loads(data)
    except Exception:
        res = Result(name)
        res.doubts.append('%s: the analysis process ended without a result' % name)
    res.secs = time.time() - t0
    return res


def explore(prog, mkcfg, scenario, name, **kw):
    pid, r, t0 = start(prog, mkcfg, scenario, name, **kw)
    res = receive(r)
    os.close(r)
    os.waitpid(pid, 0)
    return finish(name, pickle.dumps(res), t0) if res is not None else finish(name, b'', t0)


def run_all(jobs, nproc, done, stop=None):
    """jobs: list of (key, kwargs of start).  done(key, Result) may return further jobs."""
    import selectors
    gc.collect()
    gc.freeze()
    sel = selectors.DefaultSelector()
    todo = list(jobs)
    skipped = []
    live = 0
    while todo or live:
        while todo and live < nproc:
            if stop and stop():
                skipped.extend(k for k, _ in todo)
                del todo[:]
                break
            key, kw = todo.pop(0)
            pid, fd, t0 = start(**kw)
            sel.register(fd, selectors.EVENT_READ, (key, kw['name'], pid, t0, [], kw.get('max_secs', 120)))
            live += 1
        ready = sel.select(1)
        late = stop and stop()
        for k in list(sel.get_map().values()):
            # one operation of the analyser may take very long: its processes are ended then
            if late or time.time() - k.data[3] > k.data[5] * 1.2 + 10:
                try:
                    os.killpg(k.data[2], signal.SIGKILL)
                except OSError:
                    pass
        for k, _ in ready:
            key, name, pid, t0, parts, _ = k.data
            b = os.read(k.fd, 1 << 16)
            if b:
                parts.append(b)
                continue
            sel.unregister(k.fd)
            os.close(k.fd)
            os.waitpid(pid, 0)
            live -= 1
            more = done(key, finish(name, b''.join(parts), t0))
            if more:
                todo[:0] = more
    return skipped
