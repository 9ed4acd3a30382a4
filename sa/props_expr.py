"""expressions, coefficients, placeholders"""
from lang import *
from props import prop
from props_ann import cs, asserted, find_ops

OPS = {'Add': ('add', '+'), 'Sub': ('sub', '-'), 'Mul': ('mul', '*'), 'Neg': ('neg', '-'), 'BitXor': ('bitxor', '^'),
       'AddAssign': ('add_assign', '+='), 'SubAssign': ('sub_assign', '-='), 'MulAssign': ('mul_assign', '*='),
       'BitXorAssign': ('bitxor_assign', '^=')}
VGE = 'value-graph equality of the denotations'
IND = 'structural induction: one obligation per constructor, recursive calls taken at their specification'


def is_expr(t):
    return t[0] == 'adt' and short(t[1]) == 'Expr'


def ops_of(cx):
    """the operator impls with an expression on some side: (trait, lhs type, rhs type, body)"""
    out = []
    for i in cx.p.impls:
        tr = short(i.get('trait') or '')
        if tr not in OPS or not i['trait'].startswith('std::ops'):
            continue
        lhs = i['_self']
        rhs = i['_targs'][-1] if i['_targs'] else lhs
        if not is_expr(lhs) and not is_expr(rhs):
            continue
        if OPS[tr][0] not in i['_items']:
            continue
        out.append((tr, lhs, rhs, cx.p.fns[i['_items'][OPS[tr][0]]['id']]))
    return out


@prop('C10', 'other', 'value graphs of the typed IR, compared in normal form', 1,
      'Every operator impl with an expression on some side is enumerated from the type-checked program and summarised for arbitrary operands; '
      'the denotation of the resulting expression graph is compared with the operation on the denotations of the operands.')
def c10(cx):
    ops = ops_of(cx)
    have = {(t, tshow(l), tshow(r)) for t, l, r, f in ops}
    cx.sites = len(ops)
    num_t = sorted({i['_self'][1] for i in cx.p.impls if short(i.get('trait') or '') == 'Real' and i['_self'][0] == 'prim'})

    def side(t, a):
        """denotation of an operand"""
        return Den().V(a) if is_expr(t) else add(a)

    def val(e, x):
        return xv(x, e['#ph'], e['#q']) if isinstance(x, C) else x

    def env_of(r, types):
        def env(rng):
            far = rng.random() < .08        # an exponent beyond a byte
            v = [gexpr(rng, 0 if far and ('prim', 'usize') in types else 3, True) if is_expr(t) else 255 + rng.randrange(4) if far and t == ('prim', 'usize') else
                 rng.randrange(0, 5) if t == ('prim', 'usize') else gnum(rng, t[0] == 'prim' and t[1] in TM.INTS) for t in types]
            return {**cx.bind(r, *v), '#a': v, '#ph': gph(rng, False), '#q': gq(rng)}
        return env
    plain = {}
    for tr, lhs, rhs, f in ops:
        lab = f'{tshow(lhs) if not is_expr(lhs) else "expression"} {OPS[tr][1]} {tshow(rhs) if not is_expr(rhs) else "expression"}'
        if is_expr(lhs) and lhs[2][-1][0] == 'prim' or is_expr(rhs) and rhs[2][-1][0] == 'prim':
            lab += f' ({tshow((lhs if is_expr(lhs) else rhs)[2][-1])})'

        def go(tr=tr, lhs=lhs, rhs=rhs, f=f, lab=lab):
            r = cx.run(f)
            a = list(r['args'].values())
            if tr.endswith('Assign'):
                return
            types = [lhs] if tr == 'Neg' else [lhs, rhs]
            W = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y, 'Neg': lambda x: -x,
                 'BitXor': lambda x, y: x ** y}[tr]

            def terms():
                x = [side(t, b) for t, b in zip(types, a)]
                w = {'Add': lambda: add(*x), 'Sub': lambda: sub(*x), 'Mul': lambda: mul(*x), 'Neg': lambda: neg(x[0]),
                     'BitXor': lambda: TM.mk_prod(TM.rng(ZERO, a[1]), fresh(''), x[0])}[tr]()
                return [(Den().V(r['ret']), w)]
            name = f'{lab} denotes ' + {'Add': 'the sum', 'Sub': 'the difference', 'Mul': 'the product', 'Neg': 'the negation',
                                        'BitXor': 'the repeated product'}[tr]
            cx.eqt(name, f, terms, [('value', lambda it, e: xv(it.run(r['ret'], e), e['#ph'], e['#q']),
                                     lambda it, e: W(*[val(e, x) for x in e['#a']]))], env_of(r, types), rule=VGE)
            ok = asserted(r)
            if const_of(ok) != 1:
                cx.test(f'{lab} does not panic', f, [('accepted', ok, lambda it, e: 1)], env_of(r, types))
        cx.attempt(lab, go)

        def assign(tr=tr, lhs=lhs, rhs=rhs, f=f, lab=lab):
            if not tr.endswith('Assign'):
                return
            r = cx.run(f)
            a = list(r['args'].values())
            W = {'AddAssign': 'Add', 'SubAssign': 'Sub', 'MulAssign': 'Mul', 'BitXorAssign': 'BitXor'}[tr]
            g = next(h for t, l, q, h in ops if t == W and l == lhs and (q == rhs or is_expr(q) and not is_expr(rhs)))
            frm = cx.ti('From', 'from', self_adt='Expr', crate='rustqubo')
            b = a[1]
            if not is_expr(rhs) and rhs != ('prim', 'usize'):
                b = X('Number', a[1])
            want = cx.run(g, [a[0], b])['ret']
            cx.eq(f'{lab} leaves the expression of the operator', f, r['after'][0], want, env_of(r, [lhs, rhs]), rule='value-graph equality')
        cx.attempt(lab, assign)

    def matrix():
        real = lambda t: t[2][-1]

        def there(t, left, right):
            """is there an impl of this form?"""
            return any(x[0] == t and left(x[1], x[2]) and right(x[2], x[1]) for x in ops)
        ex_ = lambda t, o: is_expr(t)
        of = lambda n: lambda t, o: is_expr(t) and (real(t) == ('prim', n) or real(t)[0] == 'param')
        no = lambda n: lambda t, o: t == ('prim', n) or is_expr(o) and not is_expr(t) and t == real(o) or t[0] == 'param'

        def need(what, t, left, right):
            cx.ob(f'{what}: {OPS[t][1]} is offered', None, 'proved' if there(t, left, right) else 'refuted',
                  '' if there(t, left, right) else 'no impl of the operator takes these operands', rule='impl matrix')
        for t in ('Add', 'Sub', 'Mul'):
            need('two expressions', t, ex_, ex_)
            need('two expressions', t + 'Assign', ex_, ex_)
            for n in num_t:
                need(f'an expression and a number ({n})', t, of(n), no(n))
                need(f'a number and an expression ({n})', t, no(n), of(n))
                need(f'an expression and a number ({n})', t + 'Assign', of(n), no(n))
        need('an expression', 'Neg', ex_, ex_)
        for t in ('BitXor', 'BitXorAssign'):
            need('an expression and an exponent', t, ex_, lambda x, o: x == ('prim', 'usize') or x[0] == 'param')
        for i in cx.p.impls:
            if short(i.get('trait') or '') == 'From' and is_expr(i['_self']) and i['_targs'][-1] == i['_self'][2][-1]:
                f = cx.p.fns[i['_items']['from']['id']]
                r = cx.run(f)
                cx.eqt('a number as an expression denotes the number', f, lambda: [(Den().V(r['ret']), add(r['args'][0]))],
                       [('value', lambda it, e: xv(it.run(r['ret'], e), e['#ph'], e['#q']), lambda it, e: e['#a'][0])],
                       env_of(r, [i['_targs'][-1]]), rule=VGE)
        for n, k in (('zero', 0), ('one', 1)):
            f = cx.fn(n, self_adt='Expr')
            r = cx.run(f)
            cx.eqt(f'{n} denotes {k}', f, lambda: [(Den().V(r['ret']), num(k))],
                   [('value', lambda it, e: xv(it.run(r['ret'], e), e['#ph'], e['#q']), lambda it, e: k)], env_of(r, []), rule=VGE)
    cx.attempt('matrix', matrix)


class Coef:
    """the functions on coefficients"""

    def __init__(self, cx):
        self.cx = cx
        self.f = {n: cx.fn(n, self_adt='StaticExpr') for n in ('expand_add', 'expand_mul', 'simplify', 'calculate',
                                                                'get_placeholders', 'feed_dict', 'is_positive', 'drop_placeholder')}
        self.ids = {f['id']: n for n, f in self.f.items()}
        self.cross = next(iter(cx.fns_('get_cross', self_adt='StaticExpr')), None)
        self.conv = cx.ti('From', 'from', self_adt='Expr', crate='rustqubo')
        for i in cx.p.impls:
            if short(i.get('trait') or '') == 'From' and is_expr(i['_self']) and i['_targs'][-1][0] == 'adt' and short(i['_targs'][-1][1]) == 'StaticExpr':
                self.conv = cx.p.fns[i['_items']['from']['id']]

    def den(self):
        d = Den()
        f = self.f
        # the denotation of the result equals that of the argument: induction hypothesis and lemmas
        d.seqs = {f['expand_add']['id']: ('sum', d.V), f['expand_mul']['id']: ('prod', d.V)}
        same = lambda x, *a: d.V(x)
        d.ih = {f['simplify']['id']: same, self.conv['id']: same,
                f['calculate']['id']: same}
        if self.cross:
            def crossing(z):
                r = ONE
                for p in TM.vec_seq(z).a[0]:
                    if p.op == 'one':
                        r = mul(r, d.sums(TM.vec_seq(p.a[1])))
                    else:
                        dom, x, _, body = open_(p)
                        if len(body.a[0]) != 1 or body.a[0][0].op != 'one':
                            raise Unsupported('cross')
                        r = mul(r, TM.mk_prod(dom, x, d.sums(TM.vec_seq(body.a[0][0].a[1]))))
                return r
            d.seqs[self.cross['id']] = ('sumprod', crossing)
        return d


@prop('C12', 'other', 'value graphs of the typed IR, compared in normal form; structural induction over coefficients', 1,
      'Each rewriting of coefficients is summarised per constructor with the recursive calls taken at their specification; the denotation '
      '(a sum, product, number or placeholder value) of the resulting graph is compared with that of the argument for arbitrary sub-coefficients. '
      'The algebra of polynomials is compared with addition and multiplication of their denotations.')
def c12(cx):
    K = Coef(cx)
    f = K.f
    opq = set(K.ids) | ({K.cross['id']} if K.cross else set()) | {K.conv['id']}

    def env_of(r, k, top=True):
        def env(rng):
            e = gstat_k(rng, k)
            return {'#e': e, '#ph': gph(rng)}
        return env

    def per_ctor(name, fn, got, want, ref, observe):
        """one obligation per constructor"""
        for k, c in static_ctors(cx):
            def terms(c=c):
                r = cx.run(fn, [c], opaque_fns=opq - {fn['id']})
                if const_of(asserted(r)) != 1:
                    raise Unsupported('may panic')
                return [(got(r['ret']), want(c))]
            cx.eqt(f'{name}: {k}', fn, terms, [('value', lambda it, e: observe(e, cx.app(it, fn, e['#e'])[0]), lambda it, e: ref(e, e['#e']))],
                   env_of(None, k), rule=IND)
    V = lambda e, x: sv(x, e['#ph'])
    d = K.den()
    per_ctor('expand_add: the terms add up to the coefficient', f['expand_add'], lambda t: d.sums(TM.vec_seq(t)), lambda c: d.V(c), V,
             lambda e, l: sum(sv(x, e['#ph']) for x in l))

    def pr(l, ph):
        r = 1
        for x in l:
            r *= sv(x, ph)
        return r
    per_ctor('expand_mul: the factors multiply to the coefficient', f['expand_mul'], lambda t: d.prods(TM.vec_seq(t)), lambda c: d.V(c), V,
             lambda e, l: pr(l, e['#ph']))
    per_ctor('simplify: the value is kept', f['simplify'], d.V, lambda c: d.V(c), V, lambda e, x: sv(x, e['#ph']))
    per_ctor('conversion to an expression: the value is kept', K.conv, d.V, lambda c: d.V(c), V,
             lambda e, x: xv(x, e['#ph'], lambda q: 0))

    def calc():
        g = f['calculate']
        for k, c in static_ctors(cx):
            def terms(c=c):
                r = cx.run(g, [c])
                t = r['ret']
                fb = raw('sym', 'ph_feedback', '')
                fb = r['args'][1]
                for _ in range(6):
                    # the feedback answers alike whenever it is asked
                    ps = {x: fb for x in find_ops(t, 'post')}
                    if not ps:
                        break
                    t = subst(t, ps)
                ok = asserted(r)
                dd = Den(ih={g['id']: lambda x, *a: Den().V(x)})
                return [(self_den(t, g, fb), self_den2(c, fb))]

            def self_den(t, g, fb):
                cs_ = {x: raw('app', raw('sym', 'V', ''), x.a[1]) for x in find_ops(t, 'call') if x.a[0] == g['id']}
                t = subst(t, cs_)
                return add(t)

            def self_den2(c, fb):
                D = Den()
                D.ph = fb
                return D.V(c)

            def got(it, e):
                return cx.app(it, g, e['#e'], Fn(e['#ph']))[0]
            cx.eqt(f'calculate: the value of the coefficient: {k}', g, terms, [('value', got, lambda it, e: sv(e['#e'], e['#ph']))],
                   env_of(None, k), rule=IND)

        def neg_env(rng):
            return {'#e': S('Placeholder', PPH(1)), '#ph': lambda x: -1}

        def refused(it, e):
            try:
                cx.app(it, g, e['#e'], Fn(e['#ph']))
            except Undef:
                return 1
            return 0
        cx.test('calculate: a negative placeholder value is refused', g, [('refused', refused, lambda it, e: 1)], neg_env, trials=10)
    cx.attempt('calculate', calc)

    def phs():
        g = f['get_placeholders']

        def ref(e):
            k = e.v.split('.')[-1]
            if k == 'Placeholder':
                return {e.f[0]}
            return set().union(*[ref(x) for x in e.f[0]]) if k in ('Add', 'Mul') else set()
        for k, c in static_ctors(cx):
            cx.test(f'get_placeholders: exactly those that occur: {k}', g,
                    [('placeholders', lambda it, e: cx.app(it, g, e['#e'])[0], lambda it, e: frozenset(ref(e['#e'])))], env_of(None, k))
        h = cx.fn('get_placeholders', self_adt='Expanded')
        cx.test('get_placeholders: exactly those of the coefficients of a polynomial', h,
                [('placeholders', lambda it, e: cx.app(it, h, R('Expanded', **{'0': e['#m']}))[0],
                  lambda it, e: frozenset().union(*[ref(x) for x in e['#m'].d.values()]))], lambda rng: {'#m': gpoly(rng)})
        h2 = cx.fn('get_placeholders', self_adt='CompiledModel')
        cx.test('get_placeholders: exactly those of a compiled model', h2,
                [('placeholders', lambda it, e: cx.app(it, h2, cmodel(e['#m']))[0],
                  lambda it, e: frozenset().union(*[ref(x) for x in e['#m'].d.values()]))], lambda rng: {'#m': gpoly(rng)})
    cx.attempt('placeholders', phs)

    def poly():
        def env(rng):
            return {'#a': gpoly(rng), '#b': gpoly(rng), '#ph': gph(rng, False), '#q': gq(rng)}
        X_ = lambda m: R('Expanded', **{'0': m})
        poly_algebra(cx, env, X_)
    cx.attempt('polynomials', poly)

    def into():
        g = cx.ti('Into', 'into', self_adt='Expanded')
        cx.test('a polynomial as an expression: the value is kept', g,
                [('value', lambda it, e: xv(cx.app(it, g, R('Expanded', **{'0': e['#m']}))[0], e['#ph'], e['#q']),
                  lambda it, e: mv(e['#m'], e['#ph'], e['#q']))], lambda rng: {'#m': gpoly(rng), '#ph': gph(rng, False), '#q': gq(rng)})
    cx.attempt('into', into)


def cmodel(m, cons=(), anc=0):
    return R('CompiledModel', expanded=R('Expanded', **{'0': m}) if isinstance(m, M) else m, constraints=tuple(cons),
             builder=R('Builder', ancillas=anc, _phantom=()))


def poly_algebra(cx, env, X_, trials=60):
    """addition and multiplication of polynomials"""
    ET = cx.ty('Expanded', *[('param', x) for x in ('Tp', 'Tq', 'Tc', 'R')])
    for tr, n, w in (('AddAssign', 'add_assign', lambda a, b: a + b), ('Add', 'add', lambda a, b: a + b),
                     ('MulAssign', 'mul_assign', lambda a, b: a * b), ('Mul', 'mul', lambda a, b: a * b)):
        g = cx.ti(tr, n, self_adt='Expanded')
        sb = {x: ('param', x) for x in g['generics']}
        rhs = [x for x in g['generics'] if x not in ('Tp', 'Tq', 'Tc', 'R')][-1]

        def got(it, e, g=g, n=n, rhs=rhs):
            ret, after = cx.app(it, g, X_(e['#a']), X_(e['#b']), sb={rhs: ET})
            return mv(after[0] if n.endswith('assign') else ret, e['#ph'], e['#q'])
        cx.test(f'polynomials: {n} is the ' + ('sum' if w(2, 3) == 5 else 'product'), g,
                [('value', got, lambda it, e, w=w: w(mv(e['#a'], e['#ph'], e['#q']), mv(e['#b'], e['#ph'], e['#q'])))], env, trials=trials)
