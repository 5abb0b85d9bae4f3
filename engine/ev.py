"""Evaluation of statements and expressions over the abstract store."""
from .lin import Lin, L, ZERO, ONE, entails_ge, entails_eq, unsat, project
from .vals import *
from . import floats
from .interp import *
from .interp import Interp, Frame, int_range

RECURSION = 60


def kids(n):
    return n.get('c') or []


def unqualified(s):
    return ' '.join(w for w in s.split() if w not in ('const', 'volatile'))


class Machine(Interp):
    # --- variables -------------------------------------------------------------------------------
    def lookup(self, vid):
        for fr in (self.frames[-1],):
            if vid in fr.vars:
                return fr.vars[vid]
        return None

    def global_loc(self, vid):
        if vid in self.globals:
            return self.globals[vid]
        v = self.p.vars.get(vid)
        if v is None:
            self.unknown('unknown variable')
        m = self.models.global_var(self, v)
        if m is not None:
            self.globals[vid] = m
            return m
        l = self.newroot(RAW, v['qn'], v['t'])
        self.globals[vid] = l
        t = self.T(v['t'])
        if t['k'] in ('lref', 'rref'):
            if not v.get('init'):
                self.unknown('global reference')
            l = self.full(lambda: self.ev(v['init']))
            self.globals[vid] = l
            return l
        if v.get('init'):
            self.full(lambda: self.init_obj(v['init'], l, v['t']))
        elif v.get('cv') is not None:
            self.put(l, L(int(v['cv'])))
        elif v.get('sys'):
            self.put(l, UNKNOWN)
        else:
            self.put(l, self.default_value(v['t']))
        return l

    def init_obj(self, n, l, ti):
        """Initialises the (non-reference) object at l of type ti from expression n."""
        ti, t = self.unref(ti)
        if t['k'] == 'rec':
            self.ev_init(n, l)
        elif t['k'] == 'array':
            self.ev_init(n, l)
        else:
            v = self.ev(n)
            self.put(l, v)

    def declare_var(self, d):
        fr = self.frames[-1]
        t = self.T(d['t'])
        if d.get('static'):
            fr.vars[d['id']] = self.global_loc(d['id'])
            return
        if t['k'] in ('lref', 'rref'):
            fr.vars[d['id']] = self.full(lambda: self.ev(d['init']))
        else:
            l = self.newroot(RAW, d['n'] or 'variable', d['t'])
            if d.get('init'):
                def go():
                    self.init_obj(d['init'], l, d['t'])
                try:
                    self.full(go)
                except Ctl:
                    self.store.pop(l.a[0], None)
                    raise
            else:
                self.put(l, self.uninit_value(d['t']))
            fr.vars[d['id']] = l
            fr.scopes[-1].append((l, d['t']))
        for b in d.get('bindings', []):
            if b.get('hv'):
                self.declare_var(b['hv'])
                fr.vars[b['id']] = fr.vars[b['hv']['id']]

    # --- statements ----------------------------------------------------------------------------------
    def ex(self, n):
        if n is None:
            return
        k = n['k']
        h = getattr(self, 'ex_' + k, None)
        fr = self.frames[-1]
        if n.get('l'):
            fr.line = n['l']
        if h:
            return h(n)
        self.full(lambda: self.ev_discard(n))

    def ev_discard(self, n):
        t = self.T(n['t']) if 't' in n else {'k': 'other'}
        if n.get('vk') == 'p' and t['k'] == 'rec':
            l = self.temp(n['t'])
            self.ev_init(n, l)
            return None
        return self.ev(n)

    def ex_CompoundStmt(self, n):
        def go():
            for c in kids(n):
                self.ex(c)
        self.scoped(go)

    def ex_DeclStmt(self, n):
        for d in n['decls']:
            self.declare_var(d)

    def ex_NullStmt(self, n):
        pass

    def ex_ReturnStmt(self, n):
        fr = self.frames[-1]
        c = kids(n)
        if not c or c[0] is None:
            raise Return(None)
        e = c[0]
        rt = self.T(fr.f['ret'])
        box = [None]

        def go():
            if rt['k'] == 'rec':
                if fr.ret is None:
                    self.unknown('class result without a target')
                self.ev_init(e, fr.ret)
            elif rt['k'] == 'void':
                self.ev_discard(e)
            else:
                box[0] = self.ev(e)
        self.full(go)
        if rt['k'] in ('lref', 'rref') and isinstance(box[0], V) and box[0].tag == 'Loc':
            pass
        raise Return(box[0])

    def ex_BreakStmt(self, n):
        raise Break()

    def ex_ContinueStmt(self, n):
        raise Continue()

    def cond(self, e):
        return self.full(lambda: self.truth(self.ev(e)))

    def ex_IfStmt(self, n):
        if n.get('constexpr') and n.get('cv') is not None:
            self.ex(n['then'] if int(n['cv']) else n['else'])
            return

        def go():
            if n.get('init'):
                self.ex(n['init'])
            if n.get('condvar'):
                self.ex(n['condvar'])
            if self.cond(n['cond']):
                self.scoped(lambda: self.ex(n['then']))
            elif n.get('else'):
                self.scoped(lambda: self.ex(n['else']))
        self.scoped(go)

    def ex_ForStmt(self, n):
        def go():
            if n.get('init'):
                self.ex(n['init'])
            if n.get('condvar'):
                self.unknown('loop condition variable')
            self.run_loop(lambda: self.cond(n['cond']) if n.get('cond') else True,
                          lambda: self.scoped(lambda: self.ex(n['body'])),
                          lambda: self.full(lambda: self.ev_discard(n['inc'])) if n.get('inc') else None)
        self.scoped(go)

    def ex_WhileStmt(self, n):
        if n.get('condvar'):
            d = n['condvar']

            def body():
                def go():
                    self.ex(d)
                    if not self.cond(n['cond']):
                        raise Break()
                    self.ex(n['body'])
                self.scoped(go)
            self.run_loop(lambda: True, body, lambda: None)
            return
        self.run_loop(lambda: self.cond(n['cond']), lambda: self.scoped(lambda: self.ex(n['body'])), lambda: None)

    def ex_DoStmt(self, n):
        # do { } while(0) is a block
        c = n['cond']
        cv = None
        e = c
        while e and e['k'] in ('ImplicitCastExpr', 'ExprWithCleanups', 'ConstantExpr'):
            e = kids(e)[0]
        if e and e['k'] in ('CXXBoolLiteralExpr', 'IntegerLiteral'):
            cv = int(e['v'])
        if cv == 0:
            try:
                self.scoped(lambda: self.ex(n['body']))
            except (Break, Continue):
                pass
            return
        first = [True]

        def cond():
            if first[0]:
                first[0] = False
                return True
            return self.cond(n['cond'])
        # the first iteration is peeled so that loop heads see uniform states
        try:
            self.scoped(lambda: self.ex(n['body']))
        except Break:
            return
        except Continue:
            pass
        self.run_loop(lambda: self.cond(n['cond']), lambda: self.scoped(lambda: self.ex(n['body'])), lambda: None)

    def ex_CXXForRangeStmt(self, n):
        def go():
            for k in ('init', 'range', 'begin', 'end'):
                if n.get(k):
                    self.ex(n[k])

            def body():
                def b():
                    self.ex(n['var'])
                    self.ex(n['body'])
                self.scoped(b)
            self.run_loop(lambda: self.cond(n['cond']), body, lambda: self.full(lambda: self.ev_discard(n['inc'])))
        self.scoped(go)

    def ex_SwitchStmt(self, n):
        def go():
            if n.get('init'):
                self.ex(n['init'])
            if n.get('condvar'):
                self.ex(n['condvar'])
            v = self.full(lambda: self.ev(n['cond']))
            body = n['body']
            items = kids(body) if body['k'] == 'CompoundStmt' else [body]
            target = None
            default = None
            for i, s in enumerate(items):
                x = s
                while x and x['k'] in ('CaseStmt', 'DefaultStmt'):
                    if x['k'] == 'DefaultStmt':
                        default = i
                    elif target is None:
                        c = L(int(x['lhs']))
                        if x.get('rhs') is not None:
                            hi = L(int(x['rhs']))
                            if self.ge(v - c) and self.ge(hi - v):
                                target = i
                        elif self.veq(v, c) or (isinstance(v, Lin) and self.eq(v - c)):
                            target = i
                    x = x['sub']
            if target is None:
                target = default
            if target is None:
                return

            def run():
                for s in items[target:]:
                    self.ex(s)
            try:
                self.scoped(run)
            except Break:
                pass
        self.scoped(go)

    def ex_CaseStmt(self, n):
        self.ex(n['sub'])

    def ex_DefaultStmt(self, n):
        self.ex(n['sub'])

    def ex_LabelStmt(self, n):
        for c in kids(n):
            self.ex(c)

    def ex_CXXTryStmt(self, n):
        fr = self.frames[-1]
        depth = (len(fr.scopes), len(fr.temps), len(self.frames))
        try:
            self.ex(n['body'])
        except Throw as t:
            assert depth == (len(fr.scopes), len(fr.temps), len(self.frames)), 'unbalanced unwinding'
            for h in n['handlers']:
                if h['t'] == -1 or self.catches(h['t'], t.exc):
                    self.handle(h, t.exc)
                    return
            raise

    def handle(self, h, exc):
        self.excs.append(exc)

        def go():
            if h.get('var'):
                d = h['var']
                l = self.newroot(exc, 'exception object', None)
                self.frames[-1].vars[d['id']] = l
                self.frames[-1].scopes[-1].append((l, None))
            self.ex(h['body'])
        try:
            self.scoped(go)
        finally:
            self.excs.pop()

    def exc_type(self, exc):
        return exc.a[0]

    def catches(self, ti, exc):
        _, t = self.unref(ti)
        if exc.tag != 'Exc':
            self.unknown('exception type')
        if t['k'] != 'rec':
            return unqualified(t['s']) == unqualified(exc.a[0])
        want = clean(self.p.r[t['rec']]['qn'])
        cur = exc.a[0]
        while cur:
            if cur == want:
                return True
            nxt = EXC_BASES.get(cur)
            if nxt is None:
                r = self.p.recname.get(cur)
                nxt = clean(self.p.r[r['bases'][0]['rec']]['qn']) if r and r.get('bases') else None
            cur = nxt
        return False

    def ex_GotoStmt(self, n):
        self.unknown('goto')

    def ex_GCCAsmStmt(self, n):
        self.unknown('asm')

    # --- expressions: general ---------------------------------------------------------------------
    def ev(self, n):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            self.unknown('step budget exhausted')
        h = getattr(self, 'ev_' + n['k'], None)
        if h is None:
            self.unknown('unsupported expression %s' % n['k'])
        return h(n)

    def is_class(self, n):
        return n.get('vk') == 'p' and self.T(n['t'])['k'] == 'rec'

    def ev_init(self, n, l):
        """Evaluates the prvalue (or glvalue, copied) n of class or array type into the storage l."""
        k = n['k']
        if k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXDefaultInitExpr'):
            return self.ev_init(kids(n)[0], l)
        if k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
            ck = n['ck']
            if ck in ('ConstructorConversion', 'UserDefinedConversion', 'NoOp'):
                c = kids(n)[0]
                if c.get('vk') == 'p':
                    return self.ev_init(c, l)
                self.put(l, self.read(self.ev(c)))
                return
            if ck == 'LValueToRValue':
                self.put(l, self.read(self.ev(kids(n)[0])))
                return
            self.unknown('class cast %s' % ck)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            f = self.p.f[n['f']]
            if n.get('el') and len(kids(n)) == 1:
                c = kids(n)[0]
                if c['k'] == 'MaterializeTemporaryExpr' and self.T(c['t'])['k'] == 'rec' and \
                        self.T(c['t']).get('rec') == self.T(n['t']).get('rec'):
                    return self.ev_init(kids(c)[0], l)
            t = self.T(n['t'])
            if t['k'] == 'array':
                self.init_array_default(n, l)
                return
            if n.get('zi'):
                f2 = f
                if not f2.get('body') or f2.get('trivial') or f2.get('defaulted'):
                    r = self.p.r[f['rec']]
                    if self.is_user_rec(r):
                        self.zero_init(r, l, n['t'])
                        return
            args = self.ev_args(f, kids(n))
            self.construct(f, l, args, n)
            return
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'):
            return self.do_call(n, l)
        if k == 'InitListExpr':
            return self.init_list(n, l)
        if k == 'CXXStdInitializerListExpr':
            arr = self.ev(kids(n)[0])
            b = self.get(arr)
            self.put(l, V('IL', arr, b.a[0]))
            return
        if k == 'LambdaExpr':
            self.put(l, self.make_closure(n))
            return
        if k == 'ConditionalOperator':
            c = kids(n)
            return self.ev_init(c[1] if self.truth(self.ev(c[0])) else c[2], l)
        if k == 'BinaryOperator' and n['op'] == ',':
            self.ev_discard(kids(n)[0])
            return self.ev_init(kids(n)[1], l)
        if k == 'CXXInheritedCtorInitExpr':
            f = self.p.f[n['f']]
            fr = self.frames[-1]
            args = []
            for p in fr.f['params']:
                v = fr.vars.get(p['id'])
                pt = self.T(p['t'])
                if pt['k'] == 'rec':            # the parameter of the inherited constructor is this object
                    for sc in fr.scopes:
                        if (v, p['t']) in sc:
                            sc.remove((v, p['t']))
                    v = V('Arg', v)
                args.append(v if pt['k'] in ('lref', 'rref', 'rec') else self.read(v))
            self.construct(f, l, args, n)
            return
        if k in ('ImplicitValueInitExpr', 'CXXScalarValueInitExpr'):
            self.put(l, self.default_value(n['t']))
            return
        if k == 'CXXThrowExpr':
            self.ev(n)
        if k == 'StringLiteral':
            self.put(l, V('CArr', n['v']))
            return
        if k == 'ArrayInitLoopExpr':
            src = self.ev(kids(n)[0])
            self.put(l, self.read(src))
            return
        if n.get('vk') in ('l', 'x'):
            self.put(l, self.read(self.ev(n)))
            return
        self.unknown('unsupported class expression %s' % k)

    def zero_init(self, r, l, ti):
        fields = []
        for b in r.get('bases', []):
            fields.append((('b', b['rec']), self.default_value_rec(b['rec'])))
        for fd in r.get('fields', []):
            fields.append((('f', fd['id']), self.default_value(fd['t'])))
        self.put(l, rec(r['id'], fields))

    def init_array_default(self, n, l):
        t = self.T(n['t'])
        el = self.T(t['to'])
        f = self.p.f[n['f']]
        b = V('Buf', L(t['n']), t['to'], ((L(t['n']), RAW),), 'array')
        self.put(l, b)
        for i in range(t['n']):
            self.construct(f, sub(l, ('i', L(i))), [], n)

    def init_list(self, n, l):
        t = self.T(n['t'])
        c = kids(n)
        if t['k'] == 'array':
            b = V('Buf', L(t['n']), t['to'], ((L(t['n']), RAW),) if t['n'] else (), 'array')
            self.put(l, b)
            el = self.T(t['to'])
            for i in range(t['n']):
                e = c[i] if i < len(c) else n.get('filler')
                el_l = sub(l, ('i', L(i)))
                if e is None:
                    self.put(el_l, self.default_value(t['to']))
                else:
                    self.init_obj(e, el_l, t['to'])
            return
        if t['k'] == 'rec':
            if len(c) == 1 and c[0].get('vk') == 'p' and self.T(c[0]['t']).get('rec') == t['rec'] and self.T(c[0]['t'])['k'] == 'rec':
                return self.ev_init(c[0], l)
            r = self.p.r[t['rec']]
            if r.get('union'):
                self.unknown('union')
            self.put(l, rec(r['id'], ()))
            subs = [(('b', b['rec']), None) for b in r.get('bases', [])] + [(('f', fd['id']), fd['t']) for fd in r.get('fields', [])]
            for i, (key, ft) in enumerate(subs):
                if i >= len(c):
                    self.put(sub(l, key), self.default_value(ft) if ft is not None else self.default_value_rec(key[1]))
                    continue
                self.init_sub(c[i], l, key, ft)
            return
        self.put(l, self.ev(c[0]) if c else self.default_value(n['t']))

    def init_sub(self, e, l, key, ft):
        """Initialises a field or base subobject of the record at l."""
        v = self.get(l)
        self.put(l, rset(v, key, RAW))
        if ft is not None and self.T(ft)['k'] in ('lref', 'rref'):
            r = self.ev(e)
            v = self.get(l)
            self.put(l, rset(v, key, r))
            return
        if ft is None:
            self.ev_init(e, sub(l, key))
        else:
            self.init_obj(e, sub(l, key), ft)

    # --- literals and names ------------------------------------------------------------------------
    def ev_IntegerLiteral(self, n):
        return L(int(n['v']))

    def ev_CharacterLiteral(self, n):
        return L(int(n['v']))

    def ev_CXXBoolLiteralExpr(self, n):
        return L(int(n['v']))

    def ev_FloatingLiteral(self, n):
        v = floats.literal(n['v'])
        return v if v is not None else term('fl', n['v'])

    def ev_StringLiteral(self, n):
        if 'v' not in n:
            self.unknown('wide string')
        return V('CStr', n['v'])

    def ev_PredefinedExpr(self, n):
        return V('CStr', n.get('v', ''))

    def ev_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def ev_GNUNullExpr(self, n):
        return ZERO

    def cv_of(self, n):
        v = n.get('cv')
        if v is None:
            self.unknown('constant expression %s' % n['k'])
        return L(int(v))

    ev_UnaryExprOrTypeTraitExpr = cv_of
    ev_TypeTraitExpr = cv_of
    ev_ConceptSpecializationExpr = cv_of
    ev_RequiresExpr = cv_of
    ev_CXXNoexceptExpr = cv_of
    ev_SizeOfPackExpr = cv_of

    def ev_ConstantExpr(self, n):
        if n.get('cv') is not None and n.get('vk') == 'p':
            return L(int(n['cv']))
        return self.ev(kids(n)[0])

    def ev_ExprWithCleanups(self, n):
        return self.ev(kids(n)[0])

    ev_CXXBindTemporaryExpr = ev_ExprWithCleanups
    ev_CXXDefaultInitExpr = ev_ExprWithCleanups
    ev_OpaqueValueExpr = ev_ExprWithCleanups

    def ev_ImplicitValueInitExpr(self, n):
        return self.default_value(n['t'])

    ev_CXXScalarValueInitExpr = ev_ImplicitValueInitExpr

    def ev_DeclRefExpr(self, n):
        d = n['d']
        dk = d['dk']
        if dk == 'enum':
            return L(int(d['v']))
        if dk == 'func':
            return V('Fn', d['id'])
        l = self.lookup(d['id'])
        if l is not None:
            return l
        if dk == 'static':
            return self.global_loc(d['id'])
        if dk == 'binding':
            if d.get('b'):
                return self.ev(d['b'])
        if n.get('cv') is not None:
            return self.newroot(L(int(n['cv'])), d['n'], n['t'])
        self.unknown('reference to %s' % d['n'])

    def ev_CXXThisExpr(self, n):
        fr = self.frames[-1]
        if fr.this is None:
            self.unknown('this')
        th = fr.this
        return ptr(th)

    def ev_MemberExpr(self, n):
        d = n['d']
        base = kids(n)[0]
        if d['dk'] == 'enum':
            return L(int(d['v']))
        if d['dk'] == 'static':
            self.ev_discard(base)
            return self.global_loc(d['id'])
        if d['dk'] == 'func':
            return V('Fn', d['id'])
        b = self.ev_obj(base, n.get('arrow'))
        return self.member(b, d['id'])

    def ev_obj(self, base, arrow):
        """Location of the object designated by a member-access base."""
        if arrow:
            p = self.ev(base)
            return self.deref(p)
        if base.get('vk') == 'p' and self.T(base['t'])['k'] == 'rec':
            l = self.temp(base['t'])
            self.ev_init(base, l)
            return l
        return self.ev(base)

    def member(self, b, fid):
        fld = self.field_info(fid)
        l = sub(b, ('f', fid))
        if fld is not None and self.T(fld['t'])['k'] in ('lref', 'rref'):
            v = self.get(l)
            if isinstance(v, V) and v.tag == 'Loc':
                return v
            self.unknown('reference member')
        return l

    def field_info(self, fid):
        fi = getattr(self.p, '_fields', None)
        if fi is None:
            fi = {}
            for r in self.p.r.values():
                for fd in r.get('fields', []):
                    fi[fd['id']] = fd
            self.p._fields = fi
        return fi.get(fid)

    def deref(self, p):
        if isinstance(p, V):
            if p.tag == 'Ptr':
                if p.a[0] is None:
                    self.fail('null dereference', 'a null pointer is dereferenced')
                return p.a[0]
            if p.tag in ('UNINIT', 'RAW'):
                self.fail('uninitialised read', 'an indeterminate pointer is dereferenced')
            if p.tag in ('CStr', 'Fn'):
                return p
            if p.tag == 'It' or p.tag == 'AIt':
                return self.models.it_loc(self, p)
        self.unknown('dereference of %s' % show(p))

    # --- casts -----------------------------------------------------------------------------------------
    def ev_cast(self, n):
        ck = n['ck']
        c = kids(n)[0]
        if ck == 'LValueToRValue':
            l = self.ev(c)
            if isinstance(l, V) and l.tag in ('CStr', 'Fn'):
                return l
            if not (isinstance(l, V) and l.tag == 'Loc'):
                self.unknown('lvalue %s' % show(l))
            return self.load(l, n['t'])
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'LValueBitCast'):
            if self.is_class(c):
                l = self.temp(c['t'])
                self.ev_init(c, l)
                return self.get(l)
            return self.ev(c)
        if ck == 'ArrayToPointerDecay':
            l = self.ev(c)
            if l.tag == 'CStr':
                return l
            v = self.get(l)
            if isinstance(v, V) and v.tag == 'CArr':
                return V('CStr', v.a[0])
            return ptr(sub(l, ('i', ZERO)))
        if ck in ('ConstructorConversion', 'UserDefinedConversion'):
            if self.is_class(c) :
                l = self.temp(c['t'])
                self.ev_init(c, l)
                return self.get(l) if n.get('vk') == 'p' else l
            return self.ev(c)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(c)
            path = n.get('path', [])
            if v.tag == 'Ptr':
                return v if v.a[0] is None else ptr(self.up(v.a[0], path))
            return self.up(v, path)
        if ck == 'BaseToDerived':
            v = self.ev(c)
            path = n.get('path', [])
            tgt = self.T(n['t'])
            if v.tag == 'Ptr':
                return v if v.a[0] is None else ptr(self.down(v.a[0], path, self.T(tgt['to'])))
            return self.down(v, path, tgt)
        if ck == 'Dynamic':
            return self.dyn_cast(n, c)
        if ck in ('IntegralCast',):
            return self.int_cast(self.ev(c), n['t'])
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            v = self.ev(c)
            if ck == 'FloatingToBoolean':
                p = floats.parts(v)
                if p is None:
                    self.unknown('float to bool')
                v = p[0]
            if is_term(v) and ck == 'IntegralToBoolean':
                return v
            return L(int(self.truth(v)))
        if ck == 'BooleanToSignedIntegral':
            self.unknown('boolean vector')
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.ev_discard(c)
            return VOID
        if ck == 'BitCast':
            return self.retype(self.ev(c), n['t'])
        if ck == 'IntegralToFloating':
            v = self.ev(c)
            return self.to_float(v)
        if ck == 'FloatingCast':
            v = self.ev(c)
            src, dst = self.T(c['t']), self.T(n['t'])
            if dst.get('w', 64) < src.get('w', 64):
                return self.narrow_float(v, dst['w'])
            return v
        if ck == 'FloatingToIntegral':
            v = self.ev(c)
            return self.float_to_int(v, n['t'])
        if ck == 'IntegralToPointer' or ck == 'PointerToIntegral':
            self.unknown('pointer/integer conversion')
        self.unknown('cast %s' % ck)

    ev_ImplicitCastExpr = ev_cast
    ev_CStyleCastExpr = ev_cast
    ev_CXXStaticCastExpr = ev_cast
    ev_CXXFunctionalCastExpr = ev_cast
    ev_CXXReinterpretCastExpr = ev_cast
    ev_CXXConstCastExpr = ev_cast
    ev_CXXDynamicCastExpr = ev_cast

    def retype(self, v, ti):
        """A pointer to raw bytes cast to an object pointer: the storage becomes an array of that type."""
        t = self.T(ti)
        if t['k'] == 'ptr' and isinstance(v, V) and v.tag == 'Ptr' and v.a[0] is not None and v.a[0].tag == 'Loc':
            b = self.store.get(v.a[0].a[0])
            if isinstance(b, V) and b.tag == 'Bytes' and not v.a[0].a[1]:
                _, el = self.unref(t['to'])
                sz = el.get('sz')
                if el['k'] in ('void', 'other') or not sz or (el['k'] == 'int' and el['w'] == 8):
                    return v
                n = b.a[0].divexact(sz)
                if n is None:
                    n = self.fresh('n')
                    self.cons = self.cons.add_ge(b.a[0] - n.scale(sz)).add_ge(n.scale(sz) + (sz - 1) - b.a[0]).add_ge(n)
                rec_ = el['k'] == 'rec'
                self.store[v.a[0].a[0]] = V('Buf', n, t['to'], ((n, RAW if rec_ else UNINIT),), 'operator new')
                return ptr(sub(v.a[0], ('i', ZERO)))
        return v

    def load(self, l, ti):
        v = self.read(l)
        return v

    def to_float(self, v):
        if isinstance(v, Lin):
            return V('FL', v)          # exact value of an integer
        return term('float', v)

    def narrow_float(self, v, w):
        if isinstance(v, V) and v.tag == 'FL' and v.a[0].is_const() and abs(v.a[0].k) < 1 << 23:
            return v
        return term('float%d' % w, v)

    def trunc_div(self, e, d):
        """e/d rounded towards zero."""
        if d == 1:
            return e
        if e.is_const():
            return L(abs(e.k) // d * (1 if e.k >= 0 else -1))
        if self.ge(e):
            return self.divmod_('/', e, L(d), None)
        return -self.divmod_('/', -e, L(d), None)

    def float_to_int(self, v, ti):
        p = floats.parts(v)
        if p is not None:
            return self.wrap(self.trunc_div(*p), ti)
        t = term('trunc', v)
        return self.opaque_result(ti, t)

    def up(self, l, path):
        if l.tag != 'Loc':
            return l
        for p in path:
            l = sub(l, ('b', p))
        return l

    def down(self, l, path, tgt):
        pth = list(l.a[1])
        want = tgt.get('rec')
        while pth and pth[-1][0] == 'b':
            if want is not None and self.rec_at(V('Loc', l.a[0], tuple(pth))) == want:
                break
            pth.pop()
        r = V('Loc', l.a[0], tuple(pth))
        got = self.rec_at(r)
        if got is not None and want is not None and got != want and self.p.derives(got, want) is None:
            gr = self.p.r.get(got)
            if gr is not None and not gr['sys']:
                self.fail('bad downcast', 'static_cast of a %s to %s' % (gr['dn'], self.p.r[want]['dn']))
            return r
        if got is not None and want is not None and got != want:
            return self.up(r, self.p.derives(got, want))
        return r

    def rec_at(self, l):
        """Record id of the (sub)object at l, if known."""
        if l.a[1] and l.a[1][-1][0] == 'b':
            return l.a[1][-1][1]
        v = self.get(l)
        if isinstance(v, V) and v.tag == 'Rec':
            return v.a[0]
        d = self.cfg.dynamic.get(l.a[0]) if not l.a[1] else None
        if d is not None:
            return d
        if is_term(v) and not l.a[1]:
            t = self.rtype.get(l.a[0])
            if t is not None:
                _, tt = self.unref(t)
                return tt.get('rec')
        return None

    def most_derived(self, l):
        pth = list(l.a[1])
        while pth and pth[-1][0] == 'b':
            pth.pop()
        m = V('Loc', l.a[0], tuple(pth))
        v = self.get(m)
        if isinstance(v, V) and v.tag == 'Rec':
            return m, v.a[0]
        d = self.cfg.dynamic.get(m.a[0]) if not pth else None
        return m, d

    def dyn_cast(self, n, c):
        v = self.ev(c)
        t = self.T(n['t'])
        if t['k'] == 'ptr':
            if v.tag == 'Ptr' and v.a[0] is None:
                return NULL
            src = v.a[0]
            tt = self.T(t['to'])
        else:
            src = v
            tt = self.unref(n['t'])[1]
        if tt['k'] == 'void':
            return ptr(self.most_derived(src)[0])
        h = self.cfg.hooks.get('dynamic_cast')
        res = None
        if h:
            res = h(self, src, tt)
        if res is None:
            m, rid = self.most_derived(src)
            if rid is None:
                self.unknown('dynamic type')
            path = self.p.derives(rid, tt['rec'])
            res = (path is not None, self.up(m, path) if path is not None else None)
        ok, l = res
        if t['k'] == 'ptr':
            return ptr(l) if ok else NULL
        if not ok:
            raise Throw(V('Exc', 'std::bad_cast', V('Str', ())))
        return l

    def int_cast(self, v, ti):
        t = self.T(ti)
        if isinstance(v, Lin):
            if t['k'] == 'bool':
                return L(int(self.truth(v)))
            if t['k'] == 'enum':
                return v
            return self.wrap(v, ti)
        if isinstance(v, V) and v.tag in ('UNINIT', 'RAW'):
            self.fail('uninitialised read', 'an indeterminate value is converted')
        return v

    def wrap(self, e, ti):
        """Reduces a mathematical integer to the type's range."""
        t = self.T(ti)
        if t['k'] == 'enum':
            t = self.T(t['to'])
        if t['k'] != 'int':
            return e
        lo, hi = int_range(t)
        if e.is_const():
            if lo <= e.k <= hi:
                return e
            m = e.k & ((1 << t['w']) - 1)
            if t['sg'] and m > hi:
                m -= 1 << t['w']
            return L(m)
        lowok = entails_ge(self.cons, e - lo)
        hiok = entails_ge(self.cons, L(hi) - e)
        if lowok and hiok:
            return e
        if not lowok and not self.ge(e - lo):
            # below the range: one period up is the common case
            up = e + (1 << t['w'])
            if self.known_ge(up - lo) and self.known_ge(L(hi) - up):
                return up
        elif not hiok and self.ge(L(hi) - e):
            return e
        elif hiok:
            return e
        memo = self.__dict__.setdefault('wraps', {})
        key = (e, t['w'], t['sg'])
        if key not in memo:
            memo[key] = (self.fresh('q'), self.fresh('r'))
        q, s = memo[key]
        r = e - q.scale(1 << t['w'])
        self.cons = self.cons.add_ge(r - lo).add_ge(L(hi) - r)
        self.cons = self.cons.add_eq(s - r)
        self.cons = self.cons.add_ge(s - lo).add_ge(L(hi) - s)
        return s

    # --- operators --------------------------------------------------------------------------------------
    def ev_UnaryOperator(self, n):
        op = n['op']
        c = kids(n)[0]
        if op == '&':
            v = self.ev(c)
            if v.tag in ('Fn', 'CStr'):
                return v
            return ptr(v)
        if op == '*':
            v = self.ev(c)
            return self.deref(v)
        if op == '!':
            return L(int(not self.truth(self.ev(c))))
        if op in ('++', '--'):
            l = self.ev(c)
            old = self.load(l, n['t'])
            new = self.arith('+' if op == '++' else '-', old, ONE, c['t'])
            self.put(l, new)
            return old if n.get('post') else (l if n.get('vk') != 'p' else new)
        v = self.ev(c)
        if op == '+':
            return v
        if op == '-':
            if isinstance(v, Lin):
                return self.wrap(-v, n['t'])
            if isinstance(v, V) and v.tag == 'FL':
                return V('FL', -v.a[0])
            if isinstance(v, V) and v.tag == 'Rat':
                return V('Rat', -v.a[0], v.a[1])
            return term('neg', v)
        if op == '~':
            if isinstance(v, Lin):
                return self.wrap(-v - 1, n['t'])
        self.unknown('unary %s' % op)

    def ev_BinaryOperator(self, n):
        op = n['op']
        a, b = kids(n)
        if op == '&&':
            if not self.truth(self.ev(a)):
                return ZERO
            return L(int(self.truth(self.ev(b))))
        if op == '||':
            if self.truth(self.ev(a)):
                return ONE
            return L(int(self.truth(self.ev(b))))
        if op == ',':
            self.ev_discard(a)
            return self.ev(b)
        if op == '=':
            v = self.ev(b)
            l = self.ev(a)
            self.store_scalar(l, v)
            return l
        x = self.ev(a)
        y = self.ev(b)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, x, y)
        if op == '<=>':
            self.unknown('spaceship')
        return self.arith(op, x, y, n['t'], a, b)

    def ev_CompoundAssignOperator(self, n):
        a, b = kids(n)
        y = self.ev(b)
        l = self.ev(a)
        x = self.load(l, a['t'])
        op = n['op'][:-1]
        t = self.T(a['t'])
        if t['k'] == 'ptr':
            v = self.arith(op, x, y, a['t'])
        else:
            ct = n.get('ct', a['t'])
            if self.T(ct)['k'] == 'float' and isinstance(x, Lin):
                x = self.to_float(x)
            v = self.arith(op, x, y, n.get('crt', a['t']))
            if t['k'] in ('int', 'bool'):
                v = self.int_cast(v, a['t']) if not (isinstance(v, V) and v.tag in ('FL', 'Rat')) else self.float_to_int(v, a['t'])
        self.put(l, v)
        return l

    def store_scalar(self, l, v):
        if l.tag != 'Loc':
            self.unknown('assignment to %s' % show(l))
        if isinstance(v, V) and v.tag == 'UNINIT':
            self.fail('uninitialised read', 'an indeterminate value is copied')
        h = self.cfg.hooks.get('store')
        if h:
            h(self, l, v)
        self.put(l, v)

    def compare(self, op, x, y):
        for v in (x, y):
            if isinstance(v, V) and v.tag in ('UNINIT', 'RAW'):
                self.fail('uninitialised read', 'an indeterminate value is compared')
        if isinstance(x, Lin) and isinstance(y, Lin):
            d = x - y
            if op == '==':
                return L(int(self.eq(d)))
            if op == '!=':
                return L(int(not self.eq(d)))
            if op == '<':
                return L(int(self.ge(-d - 1)))
            if op == '<=':
                return L(int(self.ge(-d)))
            if op == '>':
                return L(int(self.ge(d - 1)))
            return L(int(self.ge(d)))
        xp = isinstance(x, V) and x.tag in ('Ptr', 'CStr', 'CStrOf', 'Fn')
        yp = isinstance(y, V) and y.tag in ('Ptr', 'CStr', 'CStrOf', 'Fn')
        if xp and yp:
            return self.compare_ptr(op, x, y)
        px, py = floats.parts(x), floats.parts(y)
        if px is not None and py is not None:
            return self.compare(op, px[0].scale(py[1]), py[0].scale(px[1]))
        fx, fy = px is not None, py is not None
        if (is_term(x) or is_term(y)) and op in ('==', '!='):
            e = self.teq(x, y)
            return L(int(e if op == '==' else not e))
        if is_term(x) or is_term(y) or fx or fy:
            # opaque ordering
            if op in ('>', '<='):
                x, y = y, x
            k = self.models.known_order(self, x, y, False)
            r = self.atom('lt', x, y) if k is None else k
            return L(int(r == (op in ('<', '>'))))
        self.unknown('comparison of %s and %s' % (show(x), show(y)))

    def compare_ptr(self, op, x, y):
        if x.tag != 'Ptr' or y.tag != 'Ptr':
            if op in ('==', '!='):
                return L(int((x == y) == (op == '==')))
            self.unknown('pointer ordering')
        a, b = x.a[0], y.a[0]
        if a is None or b is None:
            same = a is None and b is None
            if op in ('==', '!='):
                return L(int(same == (op == '==')))
            if same:
                return L(int(op in ('<=', '>=')))
            self.unknown('ordering of a null pointer')
        (ra, pa), (rb, pb) = (a.a[0], self.strip_b(a)), (b.a[0], self.strip_b(b))
        if ra != rb:
            if op in ('==', '!='):
                return L(int(op == '!='))
            self.unknown('ordering of unrelated pointers')
        # same object: compare the last differing index
        pa, pb = list(pa), list(pb)
        if len(pa) < len(pb) and pb[:-1] == pa and pb[-1][0] == 'i':
            pa.append(('i', ZERO))
        if len(pb) < len(pa) and pa[:-1] == pb and pa[-1][0] == 'i':
            pb.append(('i', ZERO))
        if pa == pb:
            return L(int(op in ('==', '<=', '>=')))
        if len(pa) == len(pb) and pa[:-1] == pb[:-1] and pa[-1][0] == 'i' and pb[-1][0] == 'i':
            return self.compare(op, pa[-1][1], pb[-1][1])
        if op in ('==', '!='):
            if len(pa) == len(pb) and all(p[0] == q[0] for p, q in zip(pa, pb)):
                eq = True
                for p, q in zip(pa, pb):
                    if p == q:
                        continue
                    if isinstance(p[1], Lin) and isinstance(q[1], Lin):
                        if not self.eq(p[1] - q[1]):
                            eq = False
                            break
                    else:
                        eq = self.path_same(p, q)
                        if not eq:
                            break
                return L(int(eq == (op == '==')))
            return L(int(op == '!='))
        self.unknown('pointer ordering')

    def path_same(self, p, q):
        if p[0] in ('k', 'kk'):
            return self.teq(p[1], q[1])
        return False

    def strip_b(self, l):
        return tuple(p for p in l.a[1] if p[0] != 'b')

    def arith(self, op, x, y, ti, a=None, b=None):
        for v in (x, y):
            if isinstance(v, V) and v.tag in ('UNINIT', 'RAW'):
                self.fail('uninitialised read', 'an indeterminate value is used in arithmetic')
        if isinstance(x, Lin) and isinstance(y, Lin):
            if op == '+':
                return self.wrap(x + y, ti)
            if op == '-':
                return self.wrap(x - y, ti)
            if op == '*':
                x2, y2 = self.constval(x), self.constval(y)
                if x2 is not None:
                    return self.wrap(y.scale(x2), ti)
                if y2 is not None:
                    return self.wrap(x.scale(y2), ti)
                h = self.cfg.hooks.get('mul')
                if h:
                    return h(self, x, y, ti)
                self.unknown('product of two unknowns')
            if op in ('/', '%'):
                return self.divmod_(op, x, y, ti)
            if op in ('&', '|', '^', '<<', '>>'):
                cx, cy = self.constval(x), self.constval(y)
                if cx is not None and cy is not None:
                    r = {'&': cx & cy, '|': cx | cy, '^': cx ^ cy, '<<': cx << cy if cy >= 0 else 0, '>>': cx >> cy if cy >= 0 else 0}[op]
                    return self.wrap(L(r), ti)
                if op == '>>' and cy is not None and self.known_ge(x):
                    return self.divmod_('/', x, L(1 << cy), ti)
                if op == '<<' and cy is not None:
                    return self.wrap(x.scale(1 << cy), ti)
                if op == '&' and cy is not None and (cy & (cy + 1)) == 0 and self.known_ge(x):
                    return self.divmod_('%', x, L(cy + 1), ti)
                # flag words: opaque
                return self.opaque_result(ti, term('bit' + op, x, y))
        if isinstance(x, V) and x.tag == 'Ptr':
            if isinstance(y, Lin):
                return self.ptr_add(x, y if op == '+' else -y)
            if isinstance(y, V) and y.tag == 'Ptr' and op == '-':
                return self.ptr_diff(x, y)
        if isinstance(y, V) and y.tag == 'Ptr' and isinstance(x, Lin) and op == '+':
            return self.ptr_add(y, x)
        if isinstance(x, V) and x.tag == 'CStr' and isinstance(y, Lin) and op == '+' and y.is_const():
            return V('CStr', x.a[0][y.k:])
        r = floats.add(x, y, op) if op in ('+', '-') else floats.mul(x, y) if op == '*' else floats.div(x, y) if op == '/' else None
        if r is not None:
            return r
        if self.T(ti)['k'] in ('float', 'int', 'bool', 'enum'):
            r = term('op' + op, x, y)
            if self.T(ti)['k'] == 'float':
                return r
            return self.opaque_result(ti, r)
        self.unknown('arithmetic %s %s %s' % (show(x), op, show(y)))

    def constval(self, e):
        if e.is_const():
            return e.k
        return None

    def divmod_(self, op, x, y, ti):
        c = self.constval(y)
        if c is None:
            if self.known_eq(y, ZERO):
                self.fail('division by zero', 'divides by zero')
            self.unknown('division by an unknown')
        if c == 0:
            self.fail('division by zero', 'divides by zero')
        if x.is_const():
            q = abs(x.k) // abs(c)
            if (x.k < 0) != (c < 0):
                q = -q
            return L(q if op == '/' else x.k - q * c)
        if not self.ge(x) or c < 0:
            self.unknown('division of a negative value')
        key = term('div', x, L(c))
        q = self.memo.get(key)
        if q is None:
            q = self.fresh('d')
            self.memo[key] = q
        self.cons = self.cons.add_ge(x - q.scale(c)).add_ge(q.scale(c) + (c - 1) - x).add_ge(q)
        return q if op == '/' else x - q.scale(c)

    def ptr_add(self, p, e):
        if p.a[0] is None:
            if self.known_eq(e, ZERO):
                return p
            if self.eq(e):
                return p
            self.fail('bounds', 'arithmetic on a null pointer')
        l = p.a[0]
        pth = list(l.a[1])
        # array-of-derived accessed through base pointers is not supported
        if pth and pth[-1][0] == 'i':
            pth[-1] = ('i', pth[-1][1] + e)
        else:
            if e == ZERO:
                return p
            pth.append(('i', e))
        return ptr(V('Loc', l.a[0], tuple(pth)))

    def ptr_diff(self, x, y):
        a, b = x.a[0], y.a[0]
        if a is None and b is None:
            return ZERO
        if a is None or b is None or a.a[0] != b.a[0]:
            self.fail('bounds', 'difference of pointers into different objects')
        pa, pb = list(a.a[1]), list(b.a[1])
        if len(pa) == len(pb) + 1 and pa[-1][0] == 'i':
            pb.append(('i', ZERO))
        if len(pb) == len(pa) + 1 and pb[-1][0] == 'i':
            pa.append(('i', ZERO))
        if pa == pb:
            return ZERO
        if len(pa) == len(pb) and pa[:-1] == pb[:-1] and pa[-1][0] == 'i' == pb[-1][0]:
            return pa[-1][1] - pb[-1][1]
        self.fail('bounds', 'difference of pointers into different objects')

    def ev_ConditionalOperator(self, n):
        c = kids(n)
        return self.ev(c[1] if self.truth(self.ev(c[0])) else c[2])

    def ev_BinaryConditionalOperator(self, n):
        self.unknown('?:')

    def ev_ArraySubscriptExpr(self, n):
        a, b = kids(n)
        x = self.ev(a)
        y = self.ev(b)
        if isinstance(x, Lin):
            x, y = y, x
        if isinstance(x, V) and x.tag == 'CStr':
            if y.is_const() and 0 <= y.k <= len(x.a[0]):
                return self.newroot(L(ord(x.a[0][y.k]) if y.k < len(x.a[0]) else 0), 'character', n['t'])
            self.unknown('character of a literal')
        return self.deref(self.ptr_add(x, y))

    # --- objects -----------------------------------------------------------------------------------------
    def ev_MaterializeTemporaryExpr(self, n):
        c = kids(n)[0]
        if n.get('ext'):
            l = self.newroot(RAW, 'temporary', c['t'])
            self.init_obj(c, l, c['t'])
            self.frames[-1].scopes[-1].append((l, c['t']))
            return l
        l = self.newroot(RAW, 'temporary', c['t'])
        try:
            self.init_obj(c, l, c['t'])
        except Ctl:
            self.store.pop(l.a[0], None)
            raise
        self.frames[-1].temps[-1].append((l, c['t']))
        return l

    def class_prvalue(self, n):
        l = self.newroot(RAW, 'temporary', n['t'])
        try:
            self.ev_init(n, l)
        except Ctl:
            self.store.pop(l.a[0], None)
            raise
        self.frames[-1].temps[-1].append((l, n['t']))
        return self.get(l)

    def ev_InitListExpr(self, n):
        t = self.T(n['t'])
        if t['k'] in ('rec', 'array'):
            return self.class_prvalue(n)
        c = kids(n)
        return self.ev(c[0]) if c else self.default_value(n['t'])

    def ev_CXXConstructExpr(self, n):
        return self.class_prvalue(n)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    ev_LambdaExpr = ev_CXXConstructExpr
    ev_CXXStdInitializerListExpr = ev_CXXConstructExpr

    def make_closure(self, n):
        fields = []
        for c in n['caps']:
            if c.get('this'):
                fields.append((('f', c['field']), self.ev(c['init'])))
                continue
            if c['ref']:
                l = self.ev(c['init'])
                fields.append((('f', c['field']), l))
            else:
                tmp = self.newroot(RAW, 'capture', c['init']['t'])
                self.init_obj(c['init'], tmp, c['init']['t'])
                fields.append((('f', c['field']), self.store.pop(tmp.a[0])))
        return rec(n['rec'], fields)

    def lambda_caps(self, rid):
        return self.p.lambdas().get(rid)

    def ev_CXXThrowExpr(self, n):
        c = kids(n)
        if not c or c[0] is None:
            if not self.excs:
                raise Terminate('rethrow without an exception')
            raise Throw(self.excs[-1])
        e = c[0]
        t = self.T(e['t'])
        if t['k'] == 'rec':
            l = self.newroot(RAW, 'exception', e['t'])
            self.ev_init(e, l)
            v = self.store.pop(l.a[0])
            if not (isinstance(v, V) and v.tag == 'Exc'):
                v = V('Exc', clean(self.p.r[t['rec']]['qn']), v)
            raise Throw(v)
        v = self.ev(e)
        raise Throw(V('Exc', t['s'], v))

    def ev_CXXTypeidExpr(self, n):
        if 'tt' in n:
            s = self.T(n['tt'])['s']
            return self.newroot(V('TypeInfo', term('typename', s)), 'type_info')
        c = kids(n)[0]
        l = self.ev(c) if c.get('vk') != 'p' else None
        if l is not None and l.tag == 'Loc' and self.unref(c['t'])[1]['k'] == 'rec':
            m, rid = self.most_derived(l)
            if rid is not None:
                return self.newroot(V('TypeInfo', term('typename', self.p.r[rid]['dn'])), 'type_info')
            return self.newroot(V('TypeInfo', term('dyntype', self.get(m))), 'type_info')
        return self.newroot(V('TypeInfo', term('typename', self.T(c['t'])['s'])), 'type_info')

    def ev_CXXNewExpr(self, n):
        at = n['at']
        t = self.T(at)
        if n.get('placement'):
            p = self.ev(n['pl'][0])
            if n.get('arr'):
                self.unknown('array placement new')
            l = self.deref(p)
            self.new_init(n, l, at)
            return ptr(l)
        if n.get('pl'):
            self.unknown('placement new with arguments')
        if n.get('arr'):
            sz = self.ev(n['size'])
            return self.new_array(n, at, sz)
        self.may_throw('alloc', 'allocation')
        l = self.heap_new(RAW, 'new', 'object allocated with new at %s' % self.where(), at)
        try:
            self.new_init(n, l, at)
        except Ctl:
            self.heap.pop(l.a[0], None)
            self.store.pop(l.a[0], None)
            raise
        return ptr(l)

    def new_init(self, n, l, at):
        e = n.get('init')
        t = self.T(at)
        if e is None:
            if t['k'] == 'rec':
                self.put(l, self.default_value(at))
            else:
                self.put(l, self.uninit_value(at))
            return
        if e['k'] == 'ParenListExpr':
            c = kids(e)
            if len(c) == 1:
                self.init_obj(c[0], l, at)
            else:
                self.put(l, self.default_value(at))
            return
        self.init_obj(e, l, at)

    def new_array(self, n, at, sz):
        t = self.T(at)
        if not self.ge(sz):
            raise Throw(V('Exc', 'std::bad_array_new_length', V('Str', ())))
        self.may_throw('alloc', 'allocation')
        e = n.get('init')
        if t['k'] == 'rec':
            r = self.p.r[t['rec']]
            if self.is_opaque_rec(r):
                self.may_throw('default', 'default construction of an element')
                # new[] itself destroys the constructed ones on failure
                val = term('default', r['qn'])
            else:
                val = self.default_value(at)
        elif e is not None:
            if e['k'] == 'InitListExpr' and kids(e):
                self.unknown('initialised array new')
            val = self.default_value(at)
        else:
            val = UNINIT
        l = self.heap_new(V('Buf', sz, at, ((sz, val),), 'new[]'), 'new[]', 'array allocated with new[] at %s' % self.where(), at)
        return ptr(sub(l, ('i', ZERO)))

    def ev_CXXDeleteExpr(self, n):
        p = self.ev(kids(n)[0])
        if isinstance(p, V) and p.tag in ('UNINIT', 'RAW'):
            self.fail('bad free', 'deletes an indeterminate pointer')
        if p.tag != 'Ptr':
            self.unknown('delete of %s' % show(p))
        if p.a[0] is None:
            return VOID
        self.delete_at(p.a[0], bool(n.get('arr')), n['dt'])
        return VOID

    def delete_at(self, l, arr, dt):
        root = l.a[0]
        if root not in self.store:
            if root in self.freed:
                self.fail('double free', '%s is released twice' % (self.rname.get(root) or 'an object'))
            self.fail('bad free', 'deletes an object that is not alive')
        pth = [p for p in l.a[1] if p[0] != 'b']
        if pth and not (pth[0][0] == 'i' and self.known_eq(pth[0][1], ZERO) and len(pth) == 1):
            self.fail('bad free', 'deletes a pointer that was not returned by new')
        base = V('Loc', root, ())
        k = self.heap.get(root)
        if k is None:
            self.fail('bad free', 'deletes storage that was not allocated with new')
        if arr:
            v = self.store[root]
            if k != 'new[]':
                self.fail('mismatched release', '%s is released with delete[]' % self.rname.get(root))
            self.destroy_range(base, ZERO, v.a[0], v.a[1])
            self.heap_free(root, ('new[]',))
        else:
            if k != 'new':
                self.fail('mismatched release', '%s is released with delete' % self.rname.get(root))
            # virtual destructor?
            t = self.T(dt)
            v = self.store[root]
            rid = v.a[0] if isinstance(v, V) and v.tag == 'Rec' else self.cfg.dynamic.get(root)
            if t['k'] == 'rec' and rid is not None and rid != t['rec']:
                st = self.p.r[t['rec']]
                if not st.get('dtorv'):
                    self.fail('destruction', 'deletes a %s through a pointer to its base %s whose destructor is not virtual' % (self.p.r[rid]['n'], st['n']))
                self.destroy_rec(base, self.p.r[rid])
            elif rid is not None:
                self.destroy_rec(base, self.p.r[rid])
            else:
                self.destroy(base, dt)
            self.heap_free(root, ('new',))

    def ev_CXXPseudoDestructorExpr(self, n):
        self.ev_discard(kids(n)[0])
        return V('Fn', None)

    # --- calls ----------------------------------------------------------------------------------------------
    def ev_CallExpr(self, n):
        if n.get('cv') is not None and n.get('vk') == 'p' and self.T(n['t'])['k'] in ('int', 'bool', 'enum'):
            return L(int(n['cv']))
        if self.is_class(n):
            return self.class_prvalue(n)
        return self.do_call(n, None)

    ev_CXXMemberCallExpr = ev_CallExpr
    ev_CXXOperatorCallExpr = ev_CallExpr
    ev_UserDefinedLiteral = ev_CallExpr

    def ev_args(self, f, nodes):
        """Evaluates arguments: locations for references, values otherwise; class by-value
        arguments become fresh objects, given as V('Arg', loc)."""
        out = []
        ps = f['params']
        made = []
        try:
            for i, a in enumerate(nodes):
                pt = self.T(ps[i]['t']) if i < len(ps) else None
                if pt is not None and pt['k'] == 'rec':
                    l = self.newroot(RAW, ps[i]['n'] or 'argument', ps[i]['t'])
                    try:
                        self.ev_init(a, l)
                    except Ctl:
                        self.store.pop(l.a[0], None)
                        raise
                    made.append((l, ps[i]['t']))
                    out.append(V('Arg', l))
                elif self.is_class(a):
                    # variadic or mismatch
                    out.append(self.class_prvalue(a))
                else:
                    out.append(self.ev(a))
        except Ctl:
            for l, ti in reversed(made):
                self.end_life(l, ti)
            raise
        return out

    def do_call(self, n, target):
        """Evaluates a call; class results are constructed into target."""
        fr = self.frames[-1]
        c = kids(n)
        f = self.p.f.get(n.get('f')) if n.get('f') else None
        k = n['k']
        line = n.get('l')
        if f is None:
            # call through a pointer or a pseudo destructor
            callee = c[0]
            if callee['k'] == 'CXXPseudoDestructorExpr':
                self.ev(callee)
                return VOID
            if callee['k'] == 'MemberExpr' or callee.get('t') is None:
                self.unknown('unresolved call')
            fv = self.ev(callee)
            if isinstance(fv, V) and fv.tag == 'Loc':
                fv = self.read(fv)
            return self.call_pointer(fv, c[1:], target, n)
        this = None
        args = c[1:]
        if k == 'CXXMemberCallExpr':
            m = c[0]
            while m['k'] in ('ImplicitCastExpr',):
                m = kids(m)[0]
            if m['k'] != 'MemberExpr':
                self.unknown('pointer-to-member call')
            this = self.ev_obj(kids(m)[0], m.get('arrow'))
            if f.get('static'):
                this = None
            elif f.get('virtual') and not m.get('qual'):
                f, this = self.dispatch(f, this)
        elif k == 'CXXOperatorCallExpr' and f['kind'] != 'fn':
            this = self.ev_obj(c[1], False)
            args = c[2:]
            if f.get('virtual'):
                f, this = self.dispatch(f, this)
        elif f['kind'] != 'fn' and not f.get('static') and k == 'CallExpr':
            self.unknown('member call form')
        if fr.f is not None:
            fr.line = line or fr.line
        vals = self.ev_args(f, args)
        if line:
            fr.line = line
        return self.invoke(f, this, vals, target, n)

    def call_pointer(self, fv, argnodes, target, n):
        if isinstance(fv, V) and fv.tag == 'Fn':
            f = self.p.f[fv.a[0]]
            return self.invoke(f, None, self.ev_args(f, argnodes), target, n)
        if is_term(fv):
            args = []
            for a in argnodes:
                args.append(self.class_prvalue(a) if self.is_class(a) else self.ev(a))
            h = self.cfg.hooks.get('fptr')
            if h:
                r = h(self, fv, args)
            else:
                self.may_throw('call', 'call through a function pointer')
                r = self.opaque_result(n['t'], term('call', fv, *[self.argval(a) for a in args]))
            if target is not None:
                self.put(target, r)
                return None
            return r
        if isinstance(fv, V) and fv.tag == 'Ptr' and fv.a[0] is None:
            self.fail('null dereference', 'call through a null function pointer')
        self.unknown('call through %s' % show(fv))

    def dispatch(self, f, this):
        if this.tag != 'Loc':
            return f, this
        m, rid = self.most_derived(this)
        if rid is None:
            return f, this
        g = self.final_overrider(f, rid)
        if g is None:
            return f, this
        path = self.p.derives(rid, g['rec'])
        return g, self.up(m, path or [])

    def final_overrider(self, f, rid):
        """The final overrider of virtual function f in class rid."""
        def overrides(g):
            if g['id'] == f['id']:
                return True
            return any(overrides(self.p.f[o]) for o in g.get('overrides', []) if o in self.p.f)
        r = self.p.r.get(rid)
        if r is None:
            return None
        for mid in r.get('methods', []):
            g = self.p.f.get(mid)
            if g and g.get('virtual') and g['kind'] == f['kind'] and overrides(g):
                return g
        for b in r.get('bases', []):
            g = self.final_overrider(f, b['rec'])
            if g is not None and (g['id'] != f['id'] or not g.get('pure')):
                return g
        return f if self.p.derives(rid, f.get('rec')) == [] else None

    def drop_args(self, vals):
        """Ends the life of by-value arguments of modelled calls; returns plain values."""
        out = []
        for a in vals:
            if isinstance(a, V) and a.tag == 'Arg':
                l = a.a[0]
                v = self.get(l)
                out.append(v)
            else:
                out.append(a)
        return out

    def end_args(self, vals, f, moved=False):
        for i, a in enumerate(vals):
            if isinstance(a, V) and a.tag == 'Arg':
                l = a.a[0]
                if l.a[0] in self.store:
                    if moved:
                        self.store.pop(l.a[0])
                    else:
                        self.end_life(l, f['params'][i]['t'])

    def invoke(self, f, this, vals, target, n=None):
        qn = f['qn']
        if target is None and self.T(f['ret'])['k'] == 'rec':
            target = self.newroot(RAW, 'temporary', f['ret'])
            self.invoke(f, this, vals, target, n)
            self.frames[-1].temps[-1].append((target, f['ret']))
            return self.get(target)
        h = self.cfg.hooks.get(qn)
        if h is not None and not (qn.startswith('probe::')):
            args = self.drop_args(vals)
            r = h(self, f, this, args)
            self.end_args(vals, f)
            return self.deliver(f, r, target)
        if f.get('body') and not qn.startswith('probe::'):
            return self.call_body(f, this, vals, target)
        if f['kind'] == 'dtor':
            if qn.startswith('probe::') or not f.get('sys'):
                if this.tag == 'Loc':
                    self.destroy_rec(this, self.p.r[f['rec']])
                return VOID
            self.models.destroy(self, this, self.p.r[f['rec']])
            self.put(this, RAW)
            return VOID
        if f.get('defaulted') and f['kind'] == 'method' and not qn.startswith('probe::') and not f.get('sys'):
            return self.default_assign(f, this, vals)
        args = self.drop_args(vals)
        if qn.startswith('probe::') or not f.get('sys'):
            if f['kind'] == 'fn' or f['kind'] in ('method', 'conv'):
                r = self.opaque_call(f, this, args, n)
                self.end_args(vals, f)
                return self.deliver(f, r, target)
            self.unknown('call of %s' % f['dn'])
        r = self.models.call(self, f, this, args, n)
        self.end_args(vals, f, moved=False)
        return self.deliver(f, r, target)

    def deliver(self, f, r, target):
        if target is not None:
            if isinstance(r, V) and r.tag == 'Loc':
                self.unknown('class result given as a location by the model of %s' % f['dn'])
            if r is None:
                self.unknown('no result from the model of %s' % f['dn'])
            self.put(target, r)
            return None
        return r

    def default_assign(self, f, this, vals):
        """Trivial or defaulted assignment without an exported body: memberwise copy."""
        src = vals[0].a[0] if vals[0].tag == 'Arg' else vals[0]
        self.put(this, self.read(src))
        return this

    def call_body(self, f, this, vals, target):
        if len(self.frames) > RECURSION:
            self.unknown('recursion too deep')
        fr = Frame(f, this, target)
        for p, a in zip(f['params'], vals):
            pt = self.T(p['t'])
            if pt['k'] in ('lref', 'rref'):
                fr.vars[p['id']] = a
            elif isinstance(a, V) and a.tag == 'Arg':
                fr.vars[p['id']] = a.a[0]
                fr.scopes[-1].append((a.a[0], p['t']))
            else:
                l = self.newroot(a, p['n'] or 'parameter', p['t'])
                fr.vars[p['id']] = l
                fr.scopes[-1].append((l, p['t']))
        # packs and extra parameters beyond the declared ones do not occur in instantiated code
        if f['kind'] in ('method', 'conv') and f.get('rec') is not None:
            r = self.p.r.get(f['rec'])
            if r is not None and r.get('lambda') and this is not None and this.tag == 'Loc':
                for c in (self.lambda_caps(r['id']) or []):
                    fl = sub(this, ('f', c['field']))
                    if c.get('this'):
                        v = self.get(fl)
                        fr.this = v.a[0] if v.tag == 'Ptr' else fl
                    elif c.get('ref'):
                        fr.vars[c['var']] = self.get(fl)
                    else:
                        fr.vars[c['var']] = fl
        self.visited[f['id']] = True
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            try:
                self.ex(f['body'])
                r = None
                if f['kind'] != 'dtor' and f['kind'] != 'ctor' and self.T(f['ret'])['k'] != 'void' and f['n'] != 'main':
                    self.frames[-1].line = f['l']
                    self.fail('missing return', 'control reaches the end of non-void function %s' % f['dn'])
            except Return as e:
                r = e.v
            except Ctl as e:
                assert len(self.frames) == depth
                while fr.scopes:
                    self.pop_scope_of(fr)
                if isinstance(e, Throw) and f.get('noexcept') and f['kind'] != 'dtor':
                    raise Terminate('an exception leaves noexcept function %s' % f['dn'])
                raise
            while fr.scopes:
                self.pop_scope_of(fr)
        finally:
            del self.frames[depth - 1:]
        return r

    def pop_scope_of(self, fr):
        sc = fr.scopes.pop()
        while sc:
            l, ti = sc.pop()
            self.end_life(l, ti)

    # --- construction ---------------------------------------------------------------------------------------
    def construct(self, f, l, vals, n=None):
        r = self.p.r[f['rec']]
        if self.is_opaque_rec(r):
            args = self.drop_args(vals)
            self.opaque_ctor(f, r, l, args)
            self.end_args(vals, f)
            return
        if r['sys']:
            args = self.drop_args(vals)
            v = self.models.construct(self, f, r, args, n, l)
            self.end_args(vals, f)
            if v is not None:
                self.put(l, v)
            return
        h = self.cfg.hooks.get(f['qn'])
        if h is not None:
            args = self.drop_args(vals)
            h(self, f, l, args)
            self.end_args(vals, f)
            return
        if not f.get('body'):
            if (f.get('copyctor') or f.get('movector')) and vals:
                src = vals[0]
                self.put(l, self.read(src))
                return
            if f.get('defctor'):
                fields = []
                for b in r.get('bases', []):
                    fields.append((('b', b['rec']), self.default_value_rec(b['rec'])))
                for fd in r.get('fields', []):
                    ft = self.T(fd['t'])
                    fields.append((('f', fd['id']), self.default_value(fd['t']) if ft['k'] == 'rec' else self.uninit_value(fd['t'])))
                self.put(l, rec(r['id'], fields))
                return
            if f.get('inh') and f.get('inhctor'):
                self.put(l, rec(r['id'], ()))
                g = self.p.f[f['inhctor']]
                v = self.get(l)
                self.put(l, rset(v, ('b', g['rec']), RAW))
                self.construct(g, sub(l, ('b', g['rec'])), vals, n)
                for fd in r.get('fields', []):
                    ft = self.T(fd['t'])
                    self.put(sub(l, ('f', fd['id'])), self.default_value(fd['t']) if ft['k'] == 'rec' else self.uninit_value(fd['t']))
                return
            self.unknown('constructor %s has no definition here' % f['dn'])
        if len(self.frames) > RECURSION:
            self.unknown('recursion too deep')
        fr = Frame(f, l, None)
        for p, a in zip(f['params'], vals):
            pt = self.T(p['t'])
            if pt['k'] in ('lref', 'rref'):
                fr.vars[p['id']] = a
            elif isinstance(a, V) and a.tag == 'Arg':
                fr.vars[p['id']] = a.a[0]
                fr.scopes[-1].append((a.a[0], p['t']))
            else:
                q = self.newroot(a, p['n'] or 'parameter', p['t'])
                fr.vars[p['id']] = q
                fr.scopes[-1].append((q, p['t']))
        self.put(l, rec(r['id'], ()))
        self.visited[f['id']] = True
        self.frames.append(fr)
        depth = len(self.frames)
        done = []
        whole = False
        try:
            try:
                for i in f.get('inits', []):
                    if i.get('l'):
                        fr.line = i['l']
                    if i.get('deleg'):
                        self.full(lambda: self.ev_init(i['init'], l))
                        whole = True
                    elif 'base' in i:
                        key = ('b', i['base'])
                        if i.get('vbase') and rget(self.get(l), key) is not None:
                            continue
                        self.full(lambda: self.init_sub(i['init'], l, key, None))
                        done.append((key, None, i['base']))
                    else:
                        fd = self.field_info(i['field'])
                        key = ('f', i['field'])
                        if i.get('init') is None:
                            self.put(sub(l, key), self.uninit_value(fd['t']))
                        else:
                            self.full(lambda: self.init_sub(i['init'], l, key, fd['t']))
                        done.append((key, fd['t'], None))
                # members without an initialiser
                have = {k for k, _, _ in done}
                if not whole:
                    for fd in r.get('fields', []):
                        key = ('f', fd['id'])
                        if key not in have and rget(self.get(l), key) is None:
                            self.put(sub(l, key), self.uninit_value(fd['t']))
                try:
                    self.ex(f['body'])
                except Return:
                    pass
            except Throw:
                while fr.scopes and len(fr.scopes) > 1:
                    self.pop_scope_of(fr)
                if whole:
                    self.destroy_rec(l, r)
                else:
                    for key, ft, brec in reversed(done):
                        if key[0] == 'b':
                            self.destroy_rec(sub(l, key), self.p.r[brec])
                        elif self.T(ft)['k'] in ('rec', 'array'):
                            self.destroy(sub(l, key), ft)
                while fr.scopes:
                    self.pop_scope_of(fr)
                if l.a[0] in self.store:
                    self.put(l, RAW)
                raise
            while fr.scopes:
                self.pop_scope_of(fr)
        finally:
            del self.frames[depth - 1:]

    # --- calling a function object from a model ----------------------------------------------------------------
    def call_object(self, fobj, args, ret=None):
        """Calls a callable value (closure location, function, opaque functor) with already evaluated
        arguments; returns the result value (class results by value)."""
        if isinstance(fobj, V) and fobj.tag == 'Loc':
            v = self.get(fobj)
            if isinstance(v, V) and v.tag == 'Ptr' and v.a[0] is not None and v.a[0].tag == 'Fn':
                v = v.a[0]
        else:
            v = fobj
        if isinstance(v, V) and v.tag == 'Fn':
            f = self.p.f[v.a[0]]
            return self.call_with(f, None, args)
        if isinstance(v, V) and v.tag == 'Rec':
            l = fobj if isinstance(fobj, V) and fobj.tag == 'Loc' else self.newroot(v, 'function object')
            ops = self.call_ops(v.a[0])
            if len(ops) > 1:
                ops = [o for o in ops if len(o['params']) == len(args)] or ops
            if len(ops) > 1:
                ops = [o for o in ops if o.get('const')] or ops
            if len(ops) > 1:
                ops = [o for o in ops if all(self.fits(self.argval(a), p['t']) for a, p in zip(args, o['params']))]
            if len(ops) != 1:
                self.unknown('call operator%s' % ('' if ops else ' of %s' % self.p.r[v.a[0]]['qn']))
            return self.call_with(ops[0], l, args)
        if isinstance(v, V) and v.tag == 'Func':
            if v.a[0] is None:
                raise Throw(V('Exc', 'std::bad_function_call', V('Str', ())))
            return self.call_object(v.a[0], args, ret)
        if is_term(v):
            h = self.cfg.hooks.get('callable')
            if h:
                return h(self, v, args)
            self.may_throw('call', 'call of an opaque function object')
            t = term('call', v, *[self.argval(a) for a in args])
            if ret is not None:
                return self.opaque_result(ret, t)
            return self.memo.get(t, t)
        self.unknown('call of %s' % show(v))

    def fits(self, v, ti):
        """Could a value be passed for a parameter of this type without a conversion?"""
        _, t = self.unref(ti)
        if isinstance(v, Lin):
            return t['k'] in ('int', 'bool', 'enum', 'float')
        if isinstance(v, V) and v.tag == 'Rec':
            return t['k'] == 'rec' and t['rec'] == v.a[0]
        if isinstance(v, V) and v.tag in ('Seq', 'Assoc', 'Str', 'SP', 'UP', 'Opt', 'Tup'):
            return t['k'] == 'rec'
        return True

    def call_ops(self, rid):
        r = self.p.r[rid]
        out = [self.p.f[m] for m in r.get('methods', []) if m in self.p.f and self.p.f[m].get('op') == '()']
        if not hasattr(self.p, 'callops'):
            self.p.callops = {}
            for f in self.p.f.values():
                if f.get('op') == '()' and 'rec' in f:
                    self.p.callops.setdefault(f['rec'], []).append(f)
        out += [f for f in self.p.callops.get(rid, []) if f not in out]
        out = [f for f in out if f.get('body') or self.is_opaque_rec(r)]
        return out

    def call_with(self, f, this, args):
        """Invokes f with argument values/locations, adapting them to the parameter kinds."""
        vals = []
        for p, a in zip(f['params'], args):
            pt = self.T(p['t'])
            if pt['k'] in ('lref', 'rref'):
                if isinstance(a, V) and a.tag == 'Loc':
                    vals.append(a)
                else:
                    l = self.newroot(a, 'temporary', pt['to'])
                    self.frames[-1].temps[-1].append((l, None))
                    vals.append(l)
            elif pt['k'] == 'rec':
                l = self.newroot(self.argval(a), p['n'] or 'argument', p['t'])
                vals.append(V('Arg', l))
            else:
                vals.append(self.argval(a))
        rt = self.T(f['ret'])
        if rt['k'] == 'rec':
            tgt = self.newroot(RAW, 'result', f['ret'])
            self.invoke(f, this, vals, tgt)
            return self.store.pop(tgt.a[0])
        return self.invoke(f, this, vals, None)

    # --- entry points for scenarios -------------------------------------------------------------------------------
    def enter(self):
        """A pseudo frame for the analysis harness."""
        f = {'id': 0, 'qn': '<scenario>', 'dn': '<scenario>', 'n': '', 'kind': 'fn', 'ret': -1, 'params': [], 'l': None}
        self.frames.append(Frame(f, None, None))

    def run(self, f, args=(), this=None):
        """Calls driver function f; args are values/locations. Returns the result value or location."""
        fr = self.frames[-1]
        return self.full(lambda: self.call_with(f, this, list(args)))
