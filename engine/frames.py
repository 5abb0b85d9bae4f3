"""Stack capture: backtrace, backtrace_symbols, dladdr and __cxa_demangle, by their documentation."""
from .lin import L, Lin, ZERO, ONE
from .vals import *
from .interp import VOID


class Frames:
    def f_backtrace(self, I, f, args, n):
        p, size = args
        if is_null(p):
            I.fail('null dereference', 'backtrace into a null buffer')
        # the whole buffer may be written
        c = I.fresh('n')
        I.cons = I.cons.add_ge(c)
        if not I.ge(size):
            I.fail('bounds', 'backtrace with a negative size')
        I.cons = I.cons.add_ge(size - c)
        base = V('Loc', p.a[0].a[0], ())
        pth = p.a[0].a[1]
        b = I.store.get(base.a[0])
        if not (isinstance(b, V) and b.tag == 'Buf') or len(pth) > 1:
            I.unknown('buffer of backtrace')
        off = pth[0][1] if pth else ZERO
        if not I.ge(off) or not I.ge(b.a[0] - off - size):
            I.fail('bounds', 'backtrace may write beyond the capture buffer')
        if not I.eq(off):
            I.unknown('backtrace into the middle of a buffer')
        I.store[base.a[0]] = V('Buf', b.a[0], b.a[1], ((c, term('frame', HASH)), (b.a[0], UNINIT)), *b.a[3:])
        I.mon['captured'] = c
        return c

    def f_backtrace_symbols(self, I, f, args, n):
        p, size = args
        if not I.ge(size):
            I.fail('bounds', 'a negative number of frames')
        k = I.fresh('k')
        if not I.eq(size):
            # every frame given must have been captured
            e = I.read(sub(p.a[0], ('i', ZERO))) if not p.a[0].a[1] else I.read(p.a[0])
            c = I.mon.get('captured')
            if c is None or not (is_term(e) and e.a[0] == 'frame') or not I.ge(c - size):
                I.fail('uninitialised read', 'symbols of frames that were not captured')
        ti = next((i for i, t in enumerate(I.p.types) if t['k'] == 'ptr' and I.T(t['to'])['k'] == 'int' and I.T(t['to']).get('w') == 8 and not I.T(t['to']).get('c')), None)
        l = I.heap_new(V('Buf', size, ti, ((size, V('CStrOf', (term('symbol', HASH),))),), 'malloc'), 'malloc', 'the symbol table')
        return ptr(sub(l, ('i', ZERO)))

    def f_backtrace_symbols_fd(self, I, f, args, n):
        return VOID

    def f_dladdr(self, I, f, args, n):
        if I.choose(2, lambda c: ('dladdr finds the frame', 'dladdr does not find the frame')[c]):
            return ZERO
        p = args[1]
        t = args[0]
        l = p.a[0]
        r = I.p.r[self.pointee(I, f['params'][1]['t'])]
        sname = NULL if I.choose(2, lambda c: ('the frame has a symbol name', 'the frame has no symbol name')[c]) else V('CStrOf', (term('sname', t),))
        for fd in r['fields']:
            I.put(sub(l, ('f', fd['id'])), {'dli_sname': sname, 'dli_fname': V('CStrOf', (term('fname', t),)), 'dli_fbase': term('fbase', t),
                                            'dli_saddr': NULL if sname == NULL else term('saddr', t)}[fd['n']])
        return ONE

    def pointee(self, I, ti):
        return I.T(I.T(ti)['to'])['rec']

    def f___cxa_demangle(self, I, f, args, n):
        name, buf, length, status = args
        if is_null(name):
            r, res = -3, None
        else:
            if not is_null(buf):
                I.unknown('demangling into a buffer')
            r = (0, -2, -1)[I.choose(3, lambda c: ('the name can be demangled', 'the name cannot be demangled', 'demangling runs out of memory')[c])]
        if not is_null(status):
            I.put(status.a[0], L(r))
        if r:
            return NULL
        atoms = self.str_of(I, name)
        if not is_null(length):
            I.put(length.a[0], I.fresh('len'))
        return ptr(I.heap_new(V('CStrOf', (term('demangled', *atoms),)), 'malloc', 'a demangled name'))
