"""Input streams: an arbitrary input, read character by character and item by item.

Every extraction may succeed, meet the end of the input or fail.  What was read is followed through the grammar
    opening ( closing | item (separator item)* closing )
so that entry points can ask whether the input read so far was a complete sequence, and which items it held."""
from .lin import Lin, L, ZERO
from .vals import *
from .speclib import hook

BAD, EOF, FAIL = 1, 2, 4


class Source:
    def __init__(self, name, o, c, p):
        self.name, self.o, self.c, self.p = name, o, c, p
        self.tries = 0      # reads since the last one that succeeded

    # state
    def st(self, I, l):
        return I.get(l)

    def put(self, I, l, flags=None, last=False, pend=False):
        s = I.get(l)
        I.put(l, V('IStream', s.a[0], s.a[1] if flags is None else flags, s.a[2] if last is False else last, s.a[3] if pend is False else pend, *s.a[4:]))

    def mon(self, I):
        return I.mon[('in', self.name)].a

    def go(self, I, phase, prev=None, n=None):
        old = self.mon(I)
        I.mon[('in', self.name)] = V('In', phase, old[0] if prev is None else prev, old[2] if n is None else n)

    def flags(self, I, l):
        return I.get(l).a[1]

    def failed(self, I, l):
        return bool(self.flags(I, l) & (BAD | FAIL))

    def eof(self, I, l):
        return bool(self.flags(I, l) & EOF)

    def bad(self, I, l):
        return bool(self.flags(I, l) & BAD)

    def manip(self, I, l, name):
        if name in ('ws',):
            return l
        I.unknown('manipulator %s on an input stream' % name)

    def advance(self, I, l, k):
        self.tries = 0
        I.adv[(l, l)] = I.adv.get((l, l), 0) + k

    def fail_now(self, I, l, flags):
        self.tries += 1
        if self.tries > 50 and I.cfg.mode == 'exact':
            I.fail('non-termination', 'reads from a stream that has failed again and again')
        self.put(I, l, flags=self.flags(I, l) | flags)
        if self.mon(I)[0] == 'closed':
            self.go(I, '!read beyond the closing delimiter')
        elif not self.mon(I)[0].startswith('!'):
            self.go(I, '!ended')
        return l

    def any_char(self, I, skip):
        if not skip and I.choose(2, lambda c: ('an ordinary character', 'whitespace')[c]):
            return None
        ch = I.fresh('ch')
        I.cons = I.cons.add_ge(ch + 128).add_ge(L(127) - ch)
        return ch

    def next_char(self, I, l, skip=True):
        """The next character, or None if there is none."""
        s = self.st(I, l)
        if s.a[1]:
            self.fail_now(I, l, FAIL)
            return None
        if s.a[3] is not None:
            ch = s.a[3]
        else:
            r = I.choose(3, lambda c: ('a character can be read', 'the input ends', 'the stream fails')[c])
            if r:
                self.fail_now(I, l, FAIL | (EOF if r == 1 else BAD))
                return None
            ch = self.any_char(I, skip)
            if ch is None:
                # whitespace: it separates tokens and is otherwise ignored
                ch = I.fresh('ws')
                I.cons = I.cons.add_ge(ch - 9).add_ge(L(32) - ch)
                self.put(I, l, last=ch, pend=None)
                self.advance(I, l, 1)
                return ch
        ph = self.mon(I)[0]
        if ph == 'open':
            if I.eq(ch - self.o):
                ch = self.o
                self.go(I, 'first', ph)
            else:
                self.go(I, '!no opening delimiter', ph)
        elif ph in ('first', 'item'):
            if ph == 'first' and I.eq(ch - self.c):
                ch = self.c
                self.go(I, 'closed', ph)
            else:
                self.go(I, ph + '+', ph)
        elif ph == 'sep':
            if I.eq(ch - self.c):
                ch = self.c
                self.go(I, 'closed', ph)
            elif I.eq(ch - self.p):
                ch = self.p
                self.go(I, 'item', ph)
            else:
                self.go(I, '!no separator', ph)
        elif ph == 'closed':
            self.go(I, '!read beyond the closing delimiter', ph)
        elif ph.endswith('+'):
            self.go(I, '!part of an item is dropped', ph)
        self.put(I, l, last=ch, pend=None)
        self.advance(I, l, 1)
        return ch

    def read_char(self, I, l, target):
        ch = self.next_char(I, l)
        if ch is not None:
            I.put(target, ch)
        return l

    def get(self, I, l, target):
        ch = self.next_char(I, l, skip=False)
        if ch is not None:
            I.put(target, ch)
        return l

    def putback(self, I, l, ch):
        fl = self.flags(I, l) & ~EOF
        if fl:
            self.put(I, l, flags=fl | FAIL)
            return l
        s = self.st(I, l)
        if s.a[3] is not None or s.a[2] is None or (ch is not None and not I.eq(ch - s.a[2])):
            self.put(I, l, flags=fl | BAD)
            return l
        self.put(I, l, flags=fl, pend=s.a[2], last=None)
        ph, prev, n = self.mon(I)
        self.go(I, prev, '!put back twice')
        self.advance(I, l, -1)
        return l

    def unget(self, I, l):
        return self.putback(I, l, None)

    def peek(self, I, l):
        s = self.st(I, l)
        saved = self.mon(I)
        ch = self.next_char(I, l)
        if ch is None:
            self.put(I, l, flags=self.flags(I, l) & ~FAIL)
            return L(-1)
        self.put(I, l, pend=ch, last=s.a[2])
        I.mon[('in', self.name)] = V('In', *saved)
        self.advance(I, l, -1)
        return ch

    def clear(self, I, l, fl):
        if not fl.is_const():
            I.unknown('stream state')
        self.put(I, l, flags=fl.k)
        return VOID

    def setstate(self, I, l, fl):
        if not fl.is_const():
            I.unknown('stream state')
        self.put(I, l, flags=self.flags(I, l) | fl.k)
        return VOID

    def rdstate(self, I, l):
        return L(self.flags(I, l))

    def read_item(self, I, l, target, ti):
        s = self.st(I, l)
        _, t = I.unref(ti)
        if s.a[1]:
            return self.fail_now(I, l, FAIL)
        limit = getattr(self, 'limit', None)
        r = 2 if limit is not None and self.mon(I)[2].k >= limit else I.choose(5, lambda c: ('an item can be read', 'an item ended by the end of the input can be read', 'there is no item', 'the input ends before the item', 'the stream fails')[c])
        ph, prev, n = self.mon(I)
        self.put(I, l, last=None, pend=None)
        if r >= 2:
            I.n += 1
            I.put(target, ZERO if t['k'] in ('int', 'bool') else term('garbage', 'g%d' % I.n))
            return self.fail_now(I, l, FAIL | (0, 0, 0, EOF, BAD)[r])
        self.advance(I, l, 1)
        if t['k'] in ('int', 'bool'):
            key = term('item', self.name, n)
            v = I.opaque_result(I.unref(ti)[0], key)
        else:
            v = term('item', self.name, n)
        I.put(target, v)
        if r == 1:
            self.put(I, l, flags=EOF)
        if ph in ('first', 'item'):
            self.go(I, 'sep', ph, n + 1)
        elif ph == 'sep':
            self.go(I, '!no separator')
        elif ph == 'open':
            self.go(I, '!no opening delimiter')
        elif ph == 'closed':
            self.go(I, '!read beyond the closing delimiter')
        elif ph.endswith('+'):
            self.go(I, '!part of an item is dropped')
        return l


@hook('sequence_input')
def h_sequence_input(I, f, this, a):
    I.n += 1
    name = 'input%d' % I.n
    src = Source(name, *a)
    I.cfg.input = src
    I.mon[('in', name)] = V('In', 'open', '!', ZERO)
    return I.newroot(V('IStream', name, 0, None, None), 'caller input', None)


@hook('complete')
def h_complete(I, f, this, a):
    return L(int(I.cfg.input.mon(I)[0] == 'closed'))


@hook('broken')
def h_broken(I, f, this, a):
    return L(int(I.cfg.input.mon(I)[0].startswith('!')))


@hook('items')
def h_items(I, f, this, a):
    return I.cfg.input.mon(I)[2]


@hook('item')
def h_item(I, f, this, a):
    v = term('item', I.cfg.input.name, a[0])
    i, t = I.unref(f['ret'])
    if t['k'] in ('int', 'bool'):
        v = I.opaque_result(i, v)
    return I.newroot(v, 'item', i)


class Text(Source):
    """Input that is a run of binary digits, a bracketed sequence, or something else."""

    def __init__(self, name, limit):
        Source.__init__(self, name, L(91), L(93), L(44))
        self.limit = limit
        self.given = 0      # the text starts with this many digits
        self.digits = []

    def bracketed(self, I):
        return self.mon(I)[0] not in ('start', 'digits', 'start+', 'digits+', '!gap', 'none')

    def fail_now(self, I, l, flags):
        if self.mon(I)[0] in ('start', 'digits', 'start+', 'digits+', '!gap', 'none'):
            self.tries += 1
            if self.tries > 50:
                I.fail('non-termination', 'reads from a stream that has failed again and again')
            self.put(I, l, flags=self.flags(I, l) | flags)
            if self.mon(I)[0] == 'start':
                self.go(I, 'none')
            return l
        return Source.fail_now(self, I, l, flags)

    def next_char(self, I, l, skip=True):
        ph, prev, n = self.mon(I)
        if ph not in ('start', 'digits', 'start+', 'digits+', '!gap', 'none'):
            return Source.next_char(self, I, l, skip)
        s = self.st(I, l)
        if s.a[1]:
            self.fail_now(I, l, FAIL)
            return None
        if s.a[3] is not None:
            ch = s.a[3]
            kind = s.a[4]
        else:
            kinds = ['another character', 'the input ends', 'the stream fails']
            more = len(self.digits) < self.limit
            if more:
                kinds.append('a digit')
            if not skip:
                kinds.append('whitespace')
            elif ph in ('digits', 'digits+') and more:
                kinds.append('a digit after whitespace')
            if ph == 'start':
                kinds.append('a bracket')
            given = len(self.digits) < self.given and ph in ('start', 'digits')
            kind = 'a digit' if given else kinds[I.choose(len(kinds), lambda c: kinds[c])]
            if kind in ('the input ends', 'the stream fails'):
                self.fail_now(I, l, FAIL | (EOF if kind == 'the input ends' else BAD))
                return None
            if given:
                n_ = len(self.digits)
                ch = L(48 + (n_ * n_ + n_ // 3 + 1) % 2)
            elif kind.startswith('a digit'):
                d = I.fresh('bit')
                I.cons = I.cons.add_ge(d).add_ge(1 - d)
                ch = d + 48
            elif kind == 'whitespace':
                ch = I.fresh('ws')
                I.cons = I.cons.add_ge(ch - 9).add_ge(L(32) - ch)
            elif kind == 'a bracket':
                ch = L(91)
            else:
                ch = I.fresh('ch')
                r = I.choose(3, lambda c: ('below the digits', 'above the digits', 'above the bracket')[c])
                lo, hi = ((-128, 47), (50, 90), (92, 127))[r]
                I.cons = I.cons.add_ge(ch - lo).add_ge(L(hi) - ch)
        if kind == 'a bracket':
            self.go(I, 'first', 'open')
        elif kind == 'a digit' and ph in ('start', 'digits'):
            self.digits.append(ch - 48)
            self.go(I, 'digits', ph, n + 1)
        elif kind == 'a digit after whitespace':
            self.go(I, '!gap', ph)
        elif ph == 'start':
            self.go(I, 'start' if kind == 'whitespace' else 'start+', ph)
        else:
            self.go(I, 'digits+' if ph == 'digits' else '!gap', ph)
        sv = I.get(l)
        I.put(l, V('IStream', sv.a[0], sv.a[1], ch, None, kind))
        self.advance(I, l, 1)
        return ch

    def putback(self, I, l, ch):
        ph, prev, n = self.mon(I)
        if ph == 'digits' and self.digits and self.flags(I, l) & (BAD | FAIL) == 0:
            self.digits.pop()
            self.go(I, ph, prev, n - 1)
            n = n - 1
        kind = I.get(l).a[4] if len(I.get(l).a) > 4 else None
        Source.putback(self, I, l, ch)
        sv = I.get(l)
        if sv.a[3] is not None:
            I.put(l, V('IStream', *(tuple(sv.a[:4]) + (kind,))))
        return l

    def peek(self, I, l):
        kept = list(self.digits)
        r = Source.peek(self, I, l)
        if self.mon(I)[0] in ('start', 'digits'):
            self.digits = kept
        return r


@hook('text_input')
def h_text_input(I, f, this, a):
    I.n += 1
    name = 'input%d' % I.n
    I.cfg.input = Text(name, a[0].k)
    I.mon[('in', name)] = V('In', 'start', '!', ZERO)
    return I.newroot(V('IStream', name, 0, None, None, None), 'caller input', None)


@hook('digits_input')
def h_digits_input(I, f, this, a):
    r = h_text_input(I, f, this, a)
    I.cfg.input.given = a[0].k
    return r


@hook('digits_text')
def h_digits_text(I, f, this, a):
    r = h_text(I, f, this, a)
    I.cfg.input.given = a[0].k
    return r


@hook('text')
def h_text(I, f, this, a):
    """A string holding the input."""
    s = h_text_input(I, f, this, a)
    name = I.get(s).a[0]
    return I.newroot(V('Str', (term('input', name),)), 'text', I.unref(f['ret'])[0])


@hook('istream_of')
def h_istream_of(I, atoms):
    if len(atoms) == 1 and is_term(atoms[0]) and atoms[0].a[0] == 'input':
        return V('IStream', atoms[0].a[1], 0, None, None, None)
    I.unknown('input from a string')


@hook('bracketed')
def h_bracketed(I, f, this, a):
    return L(int(I.cfg.input.bracketed(I)))


@hook('digits')
def h_digits(I, f, this, a):
    return L(len(I.cfg.input.digits))


@hook('digit')
def h_digit(I, f, this, a):
    if not a[0].is_const():
        I.unknown('digit at an unknown place')
    return I.cfg.input.digits[a[0].k]


@hook('unread')
def h_unread(I, f, this, a):
    return L(int(I.cfg.input.mon(I)[0] in ('start', 'digits', 'none')))


@hook('empty_input')
def h_empty_input(I, f, this, a):
    return L(int(I.cfg.input.mon(I)[0] == 'none'))
