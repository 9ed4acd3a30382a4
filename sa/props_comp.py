"""models, compilation, order reduction, auxiliary variables, QUBO generation"""
from lang import *
from props import prop
from props_ann import cs, asserted, find_ops
import props_expr  # noqa: E402
from props_expr import cmodel, VGE, IND
from props_model import X_, Subsets, gcons, partial_val, sg, refuses, unph
import itertools


def install_algebra(cx, it):
    """the generic operators of polynomials and models, by the type of their right side"""
    P4 = [('param', x) for x in ('Tp', 'Tq', 'Tc', 'R')]
    ts = {'Expanded': cx.ty('Expanded', *P4), 'Model': cx.ty('Model', *P4),
          'StaticExpr': cx.ty('StaticExpr', cx.ty('Placeholder', ('param', 'Tp'), ('param', 'Tc')), ('param', 'R'))}
    for g in cx.p.fns.values():
        own = short((g.get('self_ty') or {}).get('n') or '')
        if g['kind'] != 'AssocFn' or own not in ('Expanded', 'Model') or g['name'] not in ('add_assign', 'mul_assign', 'mul', 'add', 'from'):
            continue
        rhs = [x for x in g['generics'] if x not in ('Tp', 'Tq', 'Tc', 'R')]
        if not rhs:
            continue

        def call(it_, *a, g=g, rhs=rhs[-1], own=own):
            b = a[-1]
            k = b.t if isinstance(b, R) else 'StaticExpr' if isinstance(b, C) and b.v.startswith('StaticExpr') else None
            t = ts.get(k) if k else ('param', 'Tq')
            if t is None:
                return NotImplemented
            ret, after = cx.app(it_, g, *a, sb={rhs: t})
            return After(ret, *after)
        it.calls[g['id']] = call


class Comp:
    """functions of the compiler, summarised one at a time"""

    def __init__(self, cx):
        self.cx = cx
        E_ = lambda n: cx.fn(n, self_adt='Expanded')
        self.red = cx.fn('reduce_order', self_adt='CompiledModel')
        self.gen = cx.fn('generate_replace', self_adt='CompiledModel')
        self.cnt = E_('count_qubit_subsets')
        op = {self.gen['id'], self.cnt['id']}
        for n in ('get_order', 'is_superset', 'remove_qubits'):
            op |= {f['id'] for f in cx.fns_(n, self_adt='Expanded')}
        for f in cx.p.fns.values():
            s = short((f.get('self_ty') or {}).get('n') or '')
            if f['kind'] == 'AssocFn' and s == 'Expanded' and f['name'] in ('add_assign', 'mul_assign', 'mul', 'add', 'into'):
                op.add(f['id'])
            if f['kind'] == 'AssocFn' and s == 'StaticExpr':
                op.add(f['id'])
        self.op = op
        self.sub = Subsets(cx)
        self.rr = cx.run(self.red, opaque_fns=op)
        self.rgen = cx.run(self.gen)

    def interp(self, seed, rng=None):
        it = self.cx.interp(seed)
        it.steps = 3000000
        self.sub.install(it)

        def count(it_, m, mo, lo, hi):
            r, _ = self.sub.count(it_, m.get('0') if isinstance(m, R) else m, mo, lo, hi)
            if rng is not None:
                # the order of a hash map: any, but the same for the same map
                l = sorted(r.d.items(), key=lambda x: I.hsh(seed, I.okey(x[0])))
                r = M(dict(l))
            return r
        it.calls[self.cnt['id']] = count
        install_algebra(self.cx, it)
        return it

    def bindc(self, r, *vals):
        return self.cx.bind(r, *vals)

    def reduce(self, it, model, k):
        e = self.bindc(self.rr, model, k)
        for a in self.rr['st'].asserts:
            if not it.truth(a, (e, {}, {})):
                raise Undef('refused')
        return it.run(self.rr['ret'], e)


def eval_poly(m, q, ph):
    return mv(m, ph, q)


def ancs(m):
    return sorted({x.f[0] for s in m.d for x in s if x.v == 'Qubit.Ancilla'})


def min_over(m, vals, ph, names):
    """minimum over the auxiliary variables `names` of the polynomial m"""
    best = None
    terms = [(s, sv(c, ph)) for s, c in m.d.items()]
    fixed = 0
    rest = []
    for s, c in terms:
        k = 1
        a = []
        for x in s:
            if x in vals:
                k *= vals[x]
            else:
                a.append(x)
        if k and c:
            if a:
                rest.append((a, c))
            else:
                fixed += c
    # auxiliary variables without a common product are independent of each other
    group = {x: {x} for x in names}
    for a, c in rest:
        g = set().union(*(group[x] for x in a))
        for x in g:
            group[x] = g
    total, done = fixed, set()
    for x in names:
        g = group[x]
        if x in done:
            continue
        done |= g
        mine = [(a, c) for a, c in rest if a[0] in g]
        if len(g) > 12:
            raise NoVal('too many auxiliary variables')
        best = 0 if not mine else None
        for bits in itertools.product((0, 1), repeat=len(g) if mine else 0):
            d = dict(zip(g, bits))
            t = sum(c for a, c in mine if all(d[y] for y in a))
            if best is None or t < best:
                best = t
        total += best
    return total


def symmetric(m, qs):
    """is the polynomial the same after any two of the variables trade places?"""
    for a, b in zip(qs, qs[1:]):
        sw = {a: b, b: a}
        for s, k in m.items():
            if (a in s) != (b in s) and m.get(frozenset(sw.get(x, x) for x in s)) != k:
                return False
    return True


@prop('C15', 'other', 'value graphs of the typed IR; case analysis over all assignments of bounded polynomials', 1,
      'The gadgets are summarised for each claim of the sign and their graphs evaluated at every assignment; the replacement loop is '
      'summarised with its callees modular, and its graph is compared with the original polynomial: for every assignment of the original variables, the minimum over '
      'the auxiliary ones must agree, and no product of more than the requested order may remain.')
def c15(cx):
    c = Comp(cx)
    RULE = 'minimum over auxiliary variables, all assignments'

    def gadgets():
        for p in (1, 0):
            for d in list(range(3, 13)) + [16, 17, 21, 32, 33] + [68, 69] * p + [64, 65, 99, 134, 135] * (TIER == 'thorough'):
                it = cx.interp(0)
                it.steps = 1 << 26
                qs = [QB(i) for i in range(d)]
                bld = R('Builder', ancillas=3, _phantom=())
                e = cx.bind(c.rgen, frozenset(qs), bld, SOME(p))
                r = it.run(c.rgen['ret'], e)
                m, con = r
                m = m.get('0')
                if con != NONEV:
                    cx.ob(f'gadget for {"positive" if p else "negative"} coefficients of {d} variables', c.gen, 'open', 'gadget with a constraint')
                    continue
                names = [x for x in sorted({x for s in m.d for x in s}, key=I.okey) if x not in qs]
                bad = ''
                sym = symmetric(m.d, qs)
                rng = random.Random(d)
                for bits in ((1,) * k + (0,) * (d - k) for k in range(d + 1) if d < 40 or k < 4 or k > d - 4 or k == d // 2) if sym else itertools.product((0, 1), repeat=d) if d < 8 else \
                        ([int(rng.random() < q) for _ in range(d)] for q in [0, 1, .5, .9, 1 - 1 / d, 1 - 2 / d] * 20):
                    v = dict(zip(qs, bits))
                    got = min_over(m, v, lambda x: 1, names) if p else -min_over(M({s: S('Number', -sv(k, lambda x: 1)) for s, k in m.d.items()}), v, lambda x: 1, names)
                    if got != int(all(bits)):
                        bad = bad or f'at {bits}: {"minimum" if p else "maximum"} {got}, the product is {int(all(bits))}'
                if any(len(s) > 2 for s in m.d):
                    bad = bad or 'the gadget has a product of more than two variables'
                cx.ob(f'gadget for {"positive" if p else "negative"} coefficients of {d} variables', c.gen,
                      'refuted' if bad else 'identical', bad or f'all assignments (up to a permutation of the variables)' if sym else 'sampled assignments', rule=RULE)
    cx.attempt('gadgets', gadgets)

    def leaf(r, s):
        k = r.randrange(3)
        n = S('Number', s * r.choice((1, 1, 2, 3)))
        p = S('Placeholder', r.choice((PPH, PCO))(r.randrange(2)))
        return n if k == 0 else p if k == 1 and s > 0 else S('Mul', (n, p))

    def both(r):
        v = [leaf(r, 1), leaf(r, -1)] + [leaf(r, r.choice((1, -1))) for _ in range(r.randrange(2))]
        r.shuffle(v)
        return S('Add', tuple(v))

    def kinds():
        num_ = lambda r: S('Number', gnum(r))
        yield 'number coefficients', num_, 4, 4, 40
        yield 'one product', num_, 5, 1, 15
        yield 'placeholder coefficients', lambda r: S('Placeholder', r.choice((PPH, PCO))(r.randrange(2))), 4, 3, 15
        yield 'mixed coefficients', lambda r: gstatic(r, 2), 4, 3, 30
        yield 'sums of both signs', both, 3, 2, 40
        yield 'products of sums of both signs', lambda r: S('Mul', (both(r), both(r) if r.random() < .5 else leaf(r, 1))), 3, 1, 25

    def pairs(rng):
        # the pair that several longer terms share is itself a term
        a, b, c, d = rng.sample([QB(i) for i in range(4)] + [ANC(0)] * (rng.random() < .3), 4)
        num_ = lambda *v: S('Number', rng.choice(v) * rng.choice((1, -1)))
        m = {frozenset((a, b)): num_(3, 7, 20, 100), frozenset((a, b, c)): num_(1, 2), frozenset((a, b, d)): num_(1, 2, 3)}
        if rng.random() < .5:
            m[frozenset((a, b, c, d))] = num_(1, 2)
        for k in ((a,), (b,), (c, d), (a, c)):
            if rng.random() < .3:
                m[frozenset(k)] = num_(1, 5, 50)
        l = list(m.items())
        rng.shuffle(l)
        return dict(l)

    for name, co, order, terms, trials in (*kinds(), ('a shared pair that is a term', None, 4, 0, 30)):
        def go(name=name, co=co, order=order, terms=terms, trials=trials):
            def env(rng):
                if co is None:
                    return {'#m': M(pairs(rng)), '#k': rng.randrange(1 << 30), '#anc': 1, '#ph': gph(rng), '#x': [rng.randrange(1 << 30) for _ in range(6)]}
                n = rng.randrange(order, 6) if order < 5 else 5
                names = [QB(i) for i in range(n)] + ([ANC(0)] if rng.random() < .3 else [])
                d = {}
                for _ in range(rng.randrange(1, terms + 1)):
                    k = rng.choice((order, order, 3, 3, 2, 1, 0))
                    d[frozenset(rng.sample(names, min(k, len(names))))] = co(rng)
                return {'#m': M(d), '#k': rng.randrange(1 << 30), '#anc': 1, '#ph': gph(rng), '#x': [rng.randrange(1 << 30) for _ in range(6)]}

            def run_(it, e):
                it2 = c.interp(e['#k'], True)
                key = e['#k']
                r = e.get('#r')
                if r is None:
                    r = e['#r'] = c.reduce(it2, cmodel(e['#m'], (), e['#anc']), 2)
                return r

            def order_(it, e):
                return int(max([len(s) for s in run_(it, e).get('expanded').get('0').d] + [0]) <= 2)

            def table(it, e):
                m = run_(it, e).get('expanded').get('0')
                orig = sorted({x for s in e['#m'].d for x in s}, key=I.okey)
                names = [x for x in sorted({x for s in m.d for x in s}, key=I.okey) if x not in orig]
                return tuple(min_over(m, dict(zip(orig, b)), e['#ph'], names) for b in itertools.product((0, 1), repeat=len(orig)))

            def want(it, e):
                orig = sorted({x for s in e['#m'].d for x in s}, key=I.okey)
                return tuple(mv(e['#m'], e['#ph'], dict(zip(orig, b)).get) for b in itertools.product((0, 1), repeat=len(orig)))
            cx.test(f'reduction keeps the minimum: {name}', c.red, [('order at most two', order_, lambda it, e: 1),
                                                                   ('minima over the auxiliary variables', table, want)], env, trials=trials, rule=RULE)
        cx.attempt(name, go)

    def compiled():
        f = cx.fn('compile', self_adt='Expr')
        rc = cx.run(f, opaque_fns={c.red['id'], cx.fn('to_model', self_adt='Expr')['id'], cx.fn('to_compiled', self_adt='Model')['id']})
        calls = find_ops(rc['ret'], 'call')
        red = [x for x in calls if x.a[0] == c.red['id']]
        cx.ob('compilation ends in the reduction to order two', f,
              'proved' if rc['ret'].op == 'call' and rc['ret'].a[0] == c.red['id'] and const_of(rc['ret'].a[2]) == 2 else 'open',
              show(rc['ret'])[:200], rule='value-graph equality')

        def env(rng):
            e = gexpr(rng, 2, rng.random() < .3)
            for _ in range(rng.randrange(1, 3)):
                e = E('Mul', e, gexpr(rng, 1, False)) if rng.random() < .7 else E('Add', e, E('Mul', gexpr(rng, 1, False), gexpr(rng, 1, False)))
            return {'#e': e, '#k': rng.randrange(1 << 30)}

        def got(it, e):
            it2 = c.interp(e['#k'], True)
            it2.calls[c.red['id']] = lambda i, m, k: c.reduce(it2, m, k)
            m = it2.run(rc['ret'], cx.bind(rc, e['#e']))
            return int(max([len(s) for s in m.get('expanded').get('0').d] + [0]) <= 2)
        cx.test('whatever is compiled has no product of more than two variables', f, [('order', got, lambda it, e: 1)], env, trials=40)
    cx.attempt('compile', compiled)


# ---------------------------------------------------------------- C16
@prop('C16', 'other', 'value graphs of the typed IR, compared in normal form; typestate of the builder', 1,
      'The builder is summarised for an arbitrary counter; the users of the builder are summarised with the counter as a symbol, '
      'and the auxiliary variables in their results are compared with the counters before and after.')
def c16(cx):
    c = Comp(cx)
    f = cx.fn('ancilla', self_adt='Builder')

    def fresh_():
        def strictly(it):
            seen = []
            bv = R('Builder', ancillas=0, _phantom=())
            new = cx.fn('new', self_adt='Builder')
            bv, _ = cx.app(it, new)
            for _ in range(6):
                q, (bv,) = cx.app(it, f, bv)
                seen.append(q)
            # later in its life: no label comes back, however many were handed out in between
            for k in (7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 1 << 15, 1 << 16, (1 << 16) + 1, 1 << 31, 1 << 32, (1 << 32) + 3):
                b0 = bv.get('ancillas')
                if b0 >= k:
                    continue
                q, (bv,) = cx.app(it, f, R('Builder', ancillas=k, _phantom=()))
                if q in seen:
                    return 0
                seen.append(q)
                if bv.get('ancillas') <= k:
                    return 0
            return int(all(x.v == 'Qubit.Ancilla' for x in seen) and len(set(seen)) == len(seen))

        r = cx.run(f)
        n = r['args'][0]
        b = mk_field(n, 'ancillas') if n.op != 'rec' else dict(zip(n.a[1], n.a[2]))['ancillas']
        k = r['ret']
        a2 = r['after'][0]
        nxt = dict(zip(a2.a[1], a2.a[2]))['ancillas']
        ok = k.op == 'ctor' and k.a[1] == 'Qubit.Ancilla'
        cx.eqt('the builder hands out its counter and moves past it', f, [(k.a[2], add(b)), (nxt, add(b, ONE))] if ok else lambda: [(ONE, ZERO)],
               [('distinct and increasing', lambda it, e: strictly(it), lambda it, e: 1)], lambda rng: {'#n': rng.randrange(10)})

        cx.test('a new builder hands out distinct auxiliary variables', f, [('distinct', lambda it, e: strictly(it), lambda it, e: 1)], lambda rng: {'#n': rng.randrange(10)},
                trials=10)
        cl = cx.ti('Clone', 'clone', self_adt='Builder')
        r = cx.run(cl)
        cx.eq('a copy of a builder continues at the same counter', cl, dict(zip(r['ret'].a[1], r['ret'].a[2]))['ancillas'],
              dict(zip(r['args'][0].a[1], r['args'][0].a[2]))['ancillas'])
    cx.attempt('builder', fresh_)

    def replaced():
        for p in (SOME(1), SOME(0), NONEV):
            for d in (2, 3, 4, 5, 6):
                if (d == 2) != (p == NONEV):
                    continue

                def env(rng, d=d):
                    return {'#s': frozenset(rng.choice((QB, QB, QB, ANC))(i) for i in range(d)), '#n': rng.choice((6, 7, 10))}

                def both(it, e, p=p):
                    env_ = cx.bind(c.rgen, e['#s'], R('Builder', ancillas=e['#n'], _phantom=()), p)
                    r = it.run(c.rgen['ret'], env_)
                    after = it.run(c.rgen['after'][1], env_)
                    used = set()
                    for m in (r[0], r[1].f[0] if r[1] != NONEV else None):
                        if m is not None:
                            used |= {x for s in m.get('0').d for x in s}
                    new = used - e['#s']
                    hi = after.get('ancillas')
                    if any(x.v != 'Qubit.Ancilla' or not e['#n'] <= x.f[0] < hi for x in new):
                        return 'an auxiliary variable outside the range handed out: ' + repr(sorted(new, key=I.okey)) + f' in [{e["#n"]}, {hi})'
                    return 'ok'
                cx.test(f'gadget ({"unknown sign" if p == NONEV else "positive" if p.f[0] else "negative"}, {d} variables) takes its auxiliary variables from the builder', c.gen,
                        [('auxiliary variables', both, lambda it, e: 'ok')], env, trials=12)
    cx.attempt('gadgets', replaced)

    def threading():
        def env(rng):
            names = [QB(i) for i in range(4)] + ([ANC(0), ANC(1)] if rng.random() < .5 else [])
            d = {}
            for _ in range(rng.randrange(1, 4)):
                d[frozenset(rng.sample(names, rng.choice((3, 3, 4, 2))))] = S('Number', rng.choice((-2, -1, 1, 3)))
            return {'#m': M(d), '#k': rng.randrange(1 << 30), '#n': 2}

        def got(it, e):
            it2 = c.interp(e['#k'], True)
            hist = []
            own = {x.f[0] for s in e['#m'].d for x in s if x.v == 'Qubit.Ancilla'}

            def gen(i, s, b, p):
                env_ = cx.bind(c.rgen, s, b, p)
                r = it2.run(c.rgen['ret'], env_)
                after = it2.run(c.rgen['after'][1], env_)
                # not a step after the last one, looked at ahead of the test that ends the loop
                isinstance(s, frozenset) and hist.append((b.get('ancillas'), after.get('ancillas')))
                return After(r, s, after, p)
            it2.calls[c.gen['id']] = gen
            r = c.reduce(it2, cmodel(e['#m'], (), e['#n']), 2)
            spans = sorted(set(hist))
            for (a, b), (a2, b2) in zip(spans, spans[1:]):
                if a2 < b:
                    return f'two replacements draw from {a}..{b} and {a2}..{b2}'
            if spans and spans[0][0] < e['#n']:
                return f'a replacement starts at {spans[0][0]}, {e["#n"]} were handed out before'
            end = r.get('builder').get('ancillas')
            used = {x.f[0] for s in r.get('expanded').get('0').d for x in s if x.v == 'Qubit.Ancilla'}
            if end < max([b for a, b in spans] + [e['#n']]) or used and end <= max(used):
                return f'the builder of the result stands at {end}, {sorted(used)} are in use'
            return 'ok'
        cx.test('the replacements of one compilation draw from disjoint ranges and the result keeps the counter', c.red,
                [('builder', got, lambda it, e: 'ok')], env, trials=30)
        for owner, name in (('CompiledModel', 'feed_dict'),):
            g = cx.fn(name, self_adt=owner)
            r = cx.run(g)
            want = mk_field(mk_field(r['args'][0], 'builder'), 'ancillas') if r['args'][0].op != 'rec' else \
                dict(zip(*dict(zip(r['args'][0].a[1], r['args'][0].a[2]))['builder'].a[1:3]))['ancillas']
            got_ = dict(zip(*dict(zip(r['ret'].a[1], r['ret'].a[2]))['builder'].a[1:3]))['ancillas']
            cx.eqt('feeding a compiled model keeps the counter', g, [(got_, want)],
                   [('counter', lambda it, e: cx.app(it, g, cmodel(M({}), (), e['#n']), M({}))[0].get('builder').get('ancillas'), lambda it, e: e['#n'])],
                   lambda rng: {'#n': rng.randrange(9)})
    cx.attempt('threading', threading)

    def labels():
        # labels of the user and auxiliary variables are kept apart by every comparison
        eqf = cx.ti('PartialEq', 'eq', self_adt='Qubit')
        cmpf = cx.ti('Ord', 'cmp', self_adt='Qubit')
        vals = [QB(0), QB(1), QB(2), ANC(0), ANC(1), ANC(2)]
        bad = ''
        for a in vals:
            for b in vals:
                it = cx.interp(0)
                r, _ = cx.app(it, eqf, a, b)
                if bool(r) != (a == b):
                    bad = bad or f'{a!r} == {b!r} gives {bool(r)}'
        cx.ob('equality of variables: same kind and same label or number', eqf, 'refuted' if bad else 'identical', bad or f'{len(vals) ** 2} pairs')
        bad = ''
        for a in vals:
            for b in vals:
                it = cx.interp(0)
                r, _ = cx.app(it, cmpf, a, b)
                r2, _ = cx.app(it, cmpf, b, a)
                if (r.v == 'Equal') != (a == b) or (r.v, r2.v) not in (('Equal', 'Equal'), ('Less', 'Greater'), ('Greater', 'Less')):
                    bad = bad or f'{a!r} against {b!r}: {r!r} and {r2!r}'
        cx.ob('order of variables: equal exactly when they are the same variable', cmpf, 'refuted' if bad else 'identical', bad or f'{len(vals) ** 2} pairs')
        for own, name in (('Qubit', 'new'),):
            g = cx.fn(name, self_adt=own)
            r = cx.run(g)
            cx.eq('a label becomes a variable of the user', g, r['ret'], raw('ctor', 'Qubit', 'Qubit.Qubit', r['args'][0]))
        tm = cx.fn('to_model', self_adt='Expr')

        def got(it, e):
            install_algebra(cx, it)
            m, _ = cx.app(it, tm, e['#e'])
            qs = {x for k in ('expanded', 'penalties') for s in m.get(k).get('0').d for x in s}
            return tuple(x for x in qs if x.v != 'Qubit.Qubit')
        cx.test('the translation of an expression contains no auxiliary variable', tm, [('auxiliary variables', got, lambda it, e: ())],
                lambda rng: {'#e': gexpr(rng, 3)}, trials=30)
    cx.attempt('labels', labels)


# ---------------------------------------------------------------- C11
def cons_view(c, ph, q):
    """a constraint as its label, strength and the value of its expression"""
    x = c.get('expr')
    return (c.get('label'), c.get('placeholder'), xv(x, ph, q))


@prop('C11', 'other', 'value graphs of the typed IR, compared in normal form; structural induction over expressions', 1,
      'The translation is summarised per constructor with recursive calls modular; the polynomial, the penalties and the constraints of '
      'its result are compared with the meaning of the expression. The algebra of models is compared with that of their meanings.')
def c11(cx):
    f = cx.fn('to_model', self_adt='Expr')

    def env(k=None, d=3):
        def g(rng):
            e = gexpr_k(rng, k, d) if k else gexpr(rng, d)
            return {'#e': e, '#ph': gph(rng, False), '#q': gq(rng)}
        return g
    Q = lambda q: (lambda x: q(x.f[0]) if x.v == 'Qubit.Qubit' else NoVal_('auxiliary variable'))

    def NoVal_(s):
        raise NoVal(s)
    P = lambda ph: (lambda p: ph(('P', p)))
    L = lambda ph: (lambda l: ph(PCO(l)))
    PP = lambda ph: (lambda p: ph(PPH(p)))

    def val(e, x):
        return xv(x, PP(e['#ph']), e['#q'], L(e['#ph']))

    def pen(e, x):
        return xp(x, PP(e['#ph']), e['#q'], L(e['#ph']))

    def it_(it):
        install_algebra(cx, it)
        it.steps = 2000000
        return it

    def model(it, e):
        if '#r' not in e:
            e['#r'] = cx.app(it_(it), f, e['#e'])[0]
        return e['#r']

    def allcons(e, x):
        return tuple(sorted(((SOME(l), SOME(PCO(l)), xv(y, PP(e['#ph']), e['#q'])) for l, y in xcons(x)), key=I.okey))

    def consof(e, l):
        return tuple(sorted((cons_view(c, e['#ph'], Q(e['#q'])) for c in l), key=I.okey))
    for k, c in expr_ctors(cx):
        def go(k=k):
            cx.test(f'translation: {k}', f,
                    [('value', lambda it, e: mv(model(it, e).get('expanded'), e['#ph'], Q(e['#q'])), lambda it, e: val(e, e['#e'])),
                     ('penalties', lambda it, e: mv(model(it, e).get('penalties'), e['#ph'], Q(e['#q'])), lambda it, e: pen(e, e['#e'])),
                     ('constraints', lambda it, e: consof(e, model(it, e).get('constraints')), lambda it, e: allcons(e, e['#e']))],
                    env(k), rule=IND, trials=40)
        cx.attempt(f'translation: {k}', go)

    def whole():
        tc = cx.fn('to_compiled', self_adt='Model')

        def comp(it, e):
            if '#c' not in e:
                e['#c'] = cx.app(it_(it), tc, model(it, e))[0]
            return e['#c']
        cx.test('the compiled polynomial is the value plus the penalties', tc,
                [('value', lambda it, e: mv(comp(it, e).get('expanded'), e['#ph'], Q(e['#q'])), lambda it, e: val(e, e['#e']) + pen(e, e['#e'])),
                 ('constraints', lambda it, e: consof(e, comp(it, e).get('constraints')), lambda it, e: allcons(e, e['#e']))],
                env(), trials=60)
        c = Comp(cx)
        g = cx.fn('compile', self_adt='Expr')
        rc = cx.run(g, opaque_fns={c.red['id'], f['id'], tc['id']})

        def cenv(rng):
            e = gexpr(rng, 2, rng.random() < .6)
            if rng.random() < .3:
                e = E('Mul', e, gexpr(rng, 1, False))
            return {'#e': e, '#ph': gph(rng, False), '#q': gq(rng), '#k': rng.randrange(1 << 30)}

        def compiled(it, e):
            if '#d' not in e:
                it2 = c.interp(e['#k'], True)
                it2.calls[c.red['id']] = lambda i, m, k: c.reduce(it2, m, k)
                e['#d'] = it2.run(rc['ret'], cx.bind(rc, e['#e']))
            return e['#d']

        def low(it, e):
            m = compiled(it, e).get('expanded').get('0')
            names = [x for x in sorted({x for s in m.d for x in s}, key=I.okey) if x.v == 'Qubit.Ancilla']
            if len(names) > 11:
                raise NoVal('too many auxiliary variables')
            return min_over(m, {x: e['#q'](x.f[0]) for s in m.d for x in s if x.v == 'Qubit.Qubit'}, e['#ph'], names)

        def labelled(it, e):
            # constraints of the reduction have no label and may hold auxiliary variables
            return consof(e, [x for x in compiled(it, e).get('constraints') if x.get('label') != NONEV])
        cx.test('compile: the minimum over auxiliary variables is the value plus the penalties', g,
                [('value', low, lambda it, e: val(e, e['#e']) + pen(e, e['#e'])),
                 ('constraints', labelled, lambda it, e: allcons(e, e['#e']))], cenv, trials=40)
    cx.attempt('compiled', whole)

    def algebra():
        def gmodel(rng):
            return R('Model', expanded=X_(gpoly(rng, n=3, terms=3, order=2, co=lambda r: gstatic(r, 1))),
                     penalties=X_(gpoly(rng, n=3, terms=2, order=2, co=lambda r: gstatic(r, 1))),
                     constraints=tuple(gcons(rng, d=1) for _ in range(rng.randrange(0, 3))))

        def ev_(rng):
            return {'#a': gmodel(rng), '#b': gmodel(rng), '#ph': gph(rng, False), '#q': memo(rng.randrange(1 << 30), (0, 1))}
        V = lambda e, m: mv(m.get('expanded'), e['#ph'], e['#q'])
        N = lambda e, m: mv(m.get('penalties'), e['#ph'], e['#q'])
        K = lambda m: tuple(sorted(m.get('constraints'), key=I.okey))
        P4 = [('param', x) for x in ('Tp', 'Tq', 'Tc', 'R')]
        MT = cx.ty('Model', *P4)

        def ops(name, g, call, wv, wn):
            cx.test(f'models: {name}', g,
                    [('value', lambda it, e: V(e, call(it_(it), e)), wv), ('penalties', lambda it, e: N(e, call(it_(it), e)), wn),
                     ('constraints', lambda it, e: K(call(it_(it), e)), lambda it, e: tuple(sorted(e['#a'].get('constraints') + e['#b'].get('constraints'), key=I.okey)))],
                    ev_, trials=30)
        for tr, n in (('Add', 'add'), ('Mul', 'mul')):
            g = cx.ti(tr, n, self_adt='Model')
            rhs = [x for x in g['generics'] if x not in ('Tp', 'Tq', 'Tc', 'R')][-1]
            ops(f'{n} keeps value, penalties and constraints', g, lambda it, e, g=g, rhs=rhs: cx.app(it, g, e['#a'], e['#b'], sb={rhs: MT})[0],
                (lambda it, e: V(e, e['#a']) + V(e, e['#b'])) if n == 'add' else (lambda it, e: V(e, e['#a']) * V(e, e['#b'])),
                lambda it, e: N(e, e['#a']) + N(e, e['#b']))
        g = cx.fn('add_penalty', self_adt='Model')
        ops('a penalty adds its value and its own penalties', g, lambda it, e: cx.app(it, g, e['#a'], e['#b'])[0],
            lambda it, e: V(e, e['#a']), lambda it, e: N(e, e['#a']) + N(e, e['#b']) + V(e, e['#b']))
        h = cx.fn('add_constraint', self_adt='Model')

        def cenv(rng):
            return {'#a': gmodel(rng), '#x': gexpr(rng, 2, False), '#l': rng.randrange(3), '#p': SOME(PCO(rng.randrange(3))) if rng.random() < .8 else NONEV,
                    '#ph': gph(rng, False), '#q': memo(rng.randrange(1 << 30), (0, 1))}

        def added(it, e):
            r, _ = cx.app(it, h, e['#a'], e['#l'], e['#x'], e['#p'])
            return r
        cx.test('models: a constraint is added with its label, strength and expression, and nothing else changes', h,
                [('value', lambda it, e: V(e, added(it, e)), lambda it, e: V(e, e['#a'])),
                 ('penalties', lambda it, e: N(e, added(it, e)), lambda it, e: N(e, e['#a'])),
                 ('constraints', lambda it, e: tuple(sorted((cons_view(x, e['#ph'], e['#q']) for x in added(it, e).get('constraints')), key=I.okey)),
                  lambda it, e: tuple(sorted([cons_view(x, e['#ph'], e['#q']) for x in e['#a'].get('constraints')] +
                                             [(SOME(e['#l']), e['#p'], xv(e['#x'], PP(e['#ph']), lambda q: e['#q'](QB(q))))], key=I.okey)))],
                cenv, trials=40)
        poly_env = lambda rng: {'#a': gpoly(rng, n=4, terms=4, order=3), '#b': gpoly(rng, n=4, terms=4, order=3), '#ph': gph(rng, False), '#q': gq(rng)}
        props_expr.poly_algebra(cx, poly_env, X_, trials=30)
    cx.attempt('algebra', algebra)


# ---------------------------------------------------------------- C17
@prop('C17', 'other', 'value graphs of the typed IR, compared in normal form', 1,
      'generate_qubo is summarised for an arbitrary polynomial, list of variables and strengths; the weights and the offset of the result graph are compared with the '
      'coefficients at every assignment, and its panics with the terms that a quadratic model cannot hold.')
def c17(cx):
    B = cx.ty('Binary', ('param', 'R'))
    g = cx.fn('generate_qubo', self_adt='Expanded')
    from props_ann import spec_fn
    gw, wsb = spec_fn(cx, 'SingleModelView', 'get_weight')
    gpar = [x for x in gw['generics']]

    def env(order=2, unknown=False):
        def f(rng):
            n = rng.randrange(1, 6)
            names = [rng.choice((QB, QB, ANC))(i) for i in range(n)]
            m = gpoly(rng, terms=6, order=order, names=names, co=lambda r: gstatic(r, 2, ph=lambda q: q.choice((PPH, PCO))(q.randrange(3))))
            l = names + [QB(9)] * (rng.random() < .4)
            rng.shuffle(l)
            if unknown:
                used = sorted({x for s in m.d for x in s}, key=I.okey)
                if not used:
                    return None
                l = [x for x in l if x != rng.choice(used)]
            return {'#m': m, '#l': tuple(l), '#ph': gph(rng)}
        return f

    def table(it, e, f, mk_):
        it.steps = 3000000
        c, model = cx.app(it, f, mk_(e['#m']), e['#l'], Fn(e['#ph']))[0]
        n = len(e['#l'])
        w = {(i, j): weight(it, model, i, j) for i in range(n) for j in range(i, n)}
        out = []
        for bits in itertools.product((0, 1), repeat=n):
            out.append(c + sum(w[i, j] for i in range(n) for j in range(i, n) if bits[i] and bits[j]))
        return tuple(out)

    def weight(it, model, i, j):
        return cx.app(it, gw, model, (i, j), sb=wsb)[0]

    def want(it, e):
        l = e['#l']
        return tuple(mv(e['#m'], e['#ph'], dict(zip(l, b)).get) for b in itertools.product((0, 1), repeat=len(l)))
    cx.attempt('energy', lambda: cx.test('energy plus offset is the polynomial at every assignment', g,
                                         [('energies', lambda it, e: table(it, e, g, X_), want)], env(), trials=60))

    def comp():
        h = cx.fn('generate_qubo', self_adt='CompiledModel')
        cx.test('a compiled model generates the QUBO of its polynomial', h,
                [('energies', lambda it, e: table(it, e, h, lambda m: cmodel(m)), want)], env(), trials=20)
    cx.attempt('compiled', comp)

    def refusal():
        def got(it, e):
            return int(refuses(cx, it, g, X_(e['#m']), e['#l'], Fn(e['#ph'])))
        cx.test('a term of more than two variables is refused', g, [('refused', got, lambda it, e: int(any(len(s) > 2 for s in e['#m'].d)))], env(4), trials=60)

        cx.test('a term with an unknown variable is refused', g,
                [('refused', got, lambda it, e: int(any(x not in e['#l'] for s in e['#m'].d for x in s)))], env(2, True), trials=60)
    cx.attempt('refusal', refusal)

    def vars_():
        for own, mk_ in (('Expanded', X_), ('CompiledModel', lambda m: cmodel(m))):
            h = cx.fn('get_qubits', self_adt=own)
            cx.test(f'the variables of a polynomial are those of its terms ({own})', h,
                    [('variables', lambda it, e: frozenset(cx.app(it, h, mk_(e['#m']))[0]), lambda it, e: frozenset(x for s in e['#m'].d for x in s))],
                    env(4), trials=40)
    cx.attempt('variables', vars_)


# ---------------------------------------------------------------- C21
@prop('C21', 'other', 'value graphs of the typed IR, compared in normal form', 1,
      'The view is summarised for an arbitrary solution and map of labels; each query graph is compared with the entry of the solution at the position the map gives. '
      'The map and the lists of variables are compared with the variables of the model.')
def c21(cx):
    f = {n: cx.fn(n, self_adt='SolutionView') for n in ('new', 'occurrences', 'energy', 'local_field', 'keys', 'get')}
    idx = cx.ti('Index', 'index', self_adt='SolutionView')
    dbg = cx.ti('Debug', 'fmt', self_adt='SolutionView')
    from props_sol import rep_of

    def env(rng):
        it = cx.interp(rng.randrange(1 << 30))
        n = rng.randrange(1, 12) if rng.random() < .9 else 300
        v = tuple(rng.randrange(2) for _ in range(n))
        lf = tuple(rng.randrange(-9, 10) for _ in range(n)) if rng.random() < .75 else None
        pos = rng.sample(range(n), rng.randrange(0, n + 1))
        m = {20 + 3 * i + rng.randrange(2): p for i, p in enumerate(pos)}
        s = R('SingleSolution', state=rep_of(cx, it, v), energy=SOME(rng.randrange(50)) if rng.random() < .7 else NONEV,
              occurrences=rng.randrange(1, 5), local_field=SOME(lf) if lf is not None else NONEV, _phantom=())
        q = rng.choice(sorted(m)) if m and rng.random() < .7 else 99
        return {'#v': v, '#lf': lf, '#map': M(m), '#s': s, '#q': q, '#view': R('SolutionView', **{'0': s, '1': M(m)})}

    def view(it, e):
        return cx.app(it, f['new'], e['#s'], e['#map'])[0]
    r = lambda n, it, e, *a: cx.app(it, f[n], view(it, e), *a)[0]
    P = lambda e: e['#map'].d.get(e['#q'])

    def q1():
        cx.test('lookup: the value at the label\'s own position, nothing for an unknown label', f['get'],
                [('get', lambda it, e: r('get', it, e, e['#q']), lambda it, e: NONEV if P(e) is None else SOME(e['#v'][P(e)]))], env)
        cx.test('local field: the entry at the label\'s own position, nothing for an unknown label', f['local_field'],
                [('local_field', lambda it, e: r('local_field', it, e, e['#q']),
                  lambda it, e: NONEV if P(e) is None or e['#lf'] is None else SOME(e['#lf'][P(e)]))], env)
        cx.test('iteration: the labels of the map, once each', f['keys'],
                [('keys', lambda it, e: tuple(sorted(r('keys', it, e))), lambda it, e: tuple(sorted(e['#map'].d)))], env)
        cx.test('energy and occurrences are those of the solution', f['energy'],
                [('energy', lambda it, e: r('energy', it, e), lambda it, e: e['#s'].get('energy')),
                 ('occurrences', lambda it, e: r('occurrences', it, e), lambda it, e: e['#s'].get('occurrences'))], env)
    cx.attempt('queries', q1)

    def q2():
        cx.test('indexing: the value at the label\'s own position, refused for an unknown label', idx,
                [('index', lambda it, e: 'refused' if refuses(cx, it, idx, view(it, e), e['#q']) else cx.app(it, idx, view(it, e), e['#q'])[0],
                  lambda it, e: 'refused' if P(e) is None else e['#v'][P(e)])], env)
    cx.attempt('indexing', q2)

    def q3():
        seen = []

        def entries(ev, e, args, ga, st, fr):
            seen.append(ev.iterseq(args[1], None, st))
            return NotImplemented
        names = {n for n in called(cx, dbg) if n.split('::')[-1] in ('entries', 'entry')}
        rd = cx.run(dbg, hooks={n: entries for n in names})
        if len(seen) != 1:
            raise Unsupported('debug output')
        t = TM.mk_vec(seen[0])

        def shown(it, e):
            x = it.run(t, cx.bind(rd, e['#view']))
            return tuple(sorted(x))
        cx.test('debug output: each label with the value at its own position', dbg,
                [('entries', shown, lambda it, e: tuple(sorted((k, e['#v'][p]) for k, p in e['#map'].d.items())))], env)
    cx.attempt('debug output', q3)

    def q5():
        from props_solve import Solve, result, worlds
        sv = Solve(cx)

        def own(q):
            return q.f[0] if q.v == 'Qubit.Qubit' else None

        def got(it, e):
            w = e['#w']
            r = result(cx, sv, it, w)
            if r.v != 'Ok':
                return r
            v = r.f[0][1]
            if not any(v.get('0').get('state') == x.get('state') for y in w.draws.values() for z in y.values() for x in z):
                return 'the view does not show a sample'
            return v.get('1')
        cx.test('the view of a solution maps exactly the named variables, each to its own position in the samples', sv.f,
                [('label map', got, lambda it, e: M({own(q): i for i, q in enumerate(e['#w'].qubits) if own(q) is not None}))],
                worlds(cx, sv), trials=40)
        cx.test('the same with more variables than a byte counts', sv.f,
                [('label map', got, lambda it, e: M({own(q): i for i, q in enumerate(e['#w'].qubits) if own(q) is not None}))],
                worlds(cx, sv, nq=270), trials=6)
    cx.attempt('label map', q5)

    def q4():
        P4 = [('param', x) for x in ('Tp', 'Tq', 'Tc', 'R')]
        ws = cx.fn('with_solver', self_adt='SimpleSolver')
        gq_ = cx.fn('get_qubits', self_adt='SimpleSolver')

        def menv(rng):
            names = [rng.choice((QB, QB, ANC))(i) for i in range(rng.randrange(1, 6))]
            return {'#m': gpoly(rng, terms=5, order=2, names=names)}

        def solver(it, e):
            return cx.app(it, ws, cmodel(e['#m']), ())[0]
        cx.test('the solver works on exactly the variables of the polynomial, once each', ws,
                [('variables', lambda it, e: tuple(sorted(solver(it, e).get('qubits'), key=I.okey)),
                  lambda it, e: tuple(sorted({x for s in e['#m'].d for x in s}, key=I.okey)))], menv)
        cx.test('the solver lists exactly the labels of the user', gq_,
                [('labels', lambda it, e: tuple(sorted(cx.app(it, gq_, solver(it, e))[0])),
                  lambda it, e: tuple(sorted({x.f[0] for s in e['#m'].d for x in s if x.v == 'Qubit.Qubit'})))], menv)
    cx.attempt('solver variables', q4)


def called(cx, f):
    out = set()

    def walk(j):
        if isinstance(j, dict):
            if j.get('k') == 'call' and 'fn' in j:
                out.add(j['fn'])
            for v in j.values():
                walk(v)
        elif isinstance(j, list):
            for v in j:
                walk(v)
    for g in cx.p.fns.values():
        if g['id'] == f['id'] or g['id'].startswith(f['id'] + '::'):
            walk(g.get('body'))
    return out
