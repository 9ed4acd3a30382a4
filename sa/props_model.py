"""signs, feeding, constraints, auxiliary variables, models"""
from lang import *
from props import prop
from props_ann import cs, asserted, find_ops
import props_expr  # noqa: E402
from props_expr import Coef, cmodel, poly_algebra, VGE, IND
import itertools

X_ = lambda m: R('Expanded', **{'0': m})
NN = (0, 1, 2, 3, 5, 7)


def refuses(cx, it, f, *vals, **k):
    try:
        cx.app(it, f, *vals, **k)
    except Undef:
        return True
    return False


# ---------------------------------------------------------------- C13
SIGNS = {SOME(1): frozenset((0, 1)), SOME(0): frozenset((0, -1)), NONEV: frozenset((-1, 0, 1))}


def sg_add(a, b):
    out = set()
    for x in a:
        for y in b:
            out |= {x, y} - {0} if x and y and x == y else {-1, 0, 1} if x and y else {x + y}
    return frozenset(out)


def sg_mul(a, b):
    return frozenset(x * y for x in a for y in b)


def sg(e, ph=frozenset((0, 1))):
    """sound set of signs of a coefficient"""
    k = e.v.split('.')[-1]
    if k == 'Number':
        return frozenset(((e.f[0] > 0) - (e.f[0] < 0),))
    if k == 'Placeholder':
        return ph
    r = frozenset((0,)) if k == 'Add' else frozenset((1,))
    for x in e.f[0]:
        r = (sg_add if k == 'Add' else sg_mul)(r, sg(x, ph))
    return r


@prop('C13', 'other', 'abstract interpretation of the sign inference, one constructor at a time', 1,
      'The sign inference is summarised per constructor with the recursive calls taken at their specification. For sums and products the summary is evaluated '
      'for every sequence of sign claims of up to five members, with the members abstracted to their possible signs: the claim must cover the '
      'possible signs of the result. Numbers and placeholders are decided on their summary. The uses of the claim are then related to the coefficients.')
def c13(cx):
    f = cx.fn('is_positive', self_adt='StaticExpr')
    RULE = 'claims cover the sign abstraction'
    for k, c in static_ctors(cx):
        def go(k=k):
            if k in ('Add', 'Mul'):
                claims = [SOME(1), SOME(0), NONEV]
                n = bad = 0
                detail = ''
                for ln in range(0, 6):
                    for seq_ in itertools.product(claims, repeat=ln):
                        kids = tuple(Opq(1000 + i) for i in range(ln))
                        ans = {x.h: y for x, y in zip(kids, seq_)}
                        it = cx.interp(0, {f['id']: lambda it, x, ans=ans: ans[x.h] if isinstance(x, Opq) else NotImplemented})
                        try:
                            r, _ = cx.app(it, f, S(k, kids))
                        except Undef as x:
                            r = 'panic'
                        n += 1
                        sig = frozenset((0,)) if k == 'Add' else frozenset((1,))
                        for y in seq_:
                            sig = (sg_add if k == 'Add' else sg_mul)(sig, SIGNS[y])
                        if r == 'panic' or r != NONEV and not sig <= SIGNS[r]:
                            bad += 1
                            detail = detail or f'members claimed {list(seq_)!r}: the {"sum" if k == "Add" else "product"} may have the signs ' \
                                f'{sorted(sig)}, the code answers {r!r}'
                cx.ob(f'claim on {k} is sound', f, 'refuted' if bad else 'identical', detail or f'{n} sequences of claims', rule=RULE)
                return
            bad = ''
            for x in ([S('Number', v) for v in (-5, -1, F(-1, 2), 0, F(1, 3), 1, 7)] if k == 'Number' else [S('Placeholder', PPH(1)), S('Placeholder', PCO(1))]):
                it = cx.interp(0)
                r, _ = cx.app(it, f, x)
                if r != NONEV and not sg(x) <= SIGNS[r]:
                    bad = f'{x!r}: the code answers {r!r}'
            cx.ob(f'claim on {k} is sound', f, 'refuted' if bad else 'proved', bad, rule=RULE)
        cx.attempt(f'claim on {k} is sound', go)

    def deep():
        def claim(it, e):
            r, _ = cx.app(it, f, e['#e'])
            return 1 if r == NONEV else int(sg(e['#e']) <= SIGNS[r])
        cx.test('claims on nested coefficients are sound', f, [('sound', claim, lambda it, e: 1)],
                lambda rng: {'#e': gstatic(rng, 4, ph=lambda r: r.choice((PPH, PCO))(r.randrange(3)))}, trials=200)
    cx.attempt('nested', deep)

    def certain():
        # the sure cases that order reduction relies on are not required; no claim at all is sound, too
        h = cx.fn('count_qubit_subsets')
        sub = Subsets(cx)

        def ok(it, e):
            sub.install(it)
            m, _ = sub.count(it, e['#m'])
            for (s, b), n in m.d.items():
                if b == NONEV:
                    continue
                if not any(s <= q and len(q) > 2 and sg(c) <= SIGNS[b] for q, c in e['#m'].d.items()):
                    return 0
            return 1
        cx.test('a set of variables is listed with a sign only for coefficients of that sign', h, [('sound', ok, lambda it, e: 1)],
                lambda rng: {'#m': gpoly(rng, order=5, terms=5, co=lambda r: gstatic(r, 2))}, trials=40)
    cx.attempt('use', certain)


class Subsets:
    """the enumeration of subsets (recursion over a callback) and what counts with it"""

    def __init__(self, cx):
        self.cx = cx
        self.gen = cx.fn('get_subsets')
        self.inner = [g for g in cx.p.fns.values() if g['id'].startswith(self.gen['id'] + '::') and g['kind'] in ('Fn', 'AssocFn')]
        self.cnt = cx.fn('count_qubit_subsets')
        self.pos = cx.fn('is_positive', self_adt='StaticExpr')
        ids = {g['id'] for g in self.inner}
        self.ri = {g['id']: cx.run(g, fnstate=True, opaque_fns={g['id']}) for g in self.inner}
        self.rg = cx.run(self.gen, [None, None, None, ('mut', raw('sym', 'cb', ''))], fnstate=True, opaque_fns=ids)

        def hook(ev, e, args, ga, st, fr):
            vals = [ev.val(a, st) for a in args[:3]]
            sq = ev.iterseq(raw('call', 'subsets', *vals), ('adt', 'Vec', (('adt', 'BTreeSet', ()),)), st)
            ev.loop_seq(sq, lambda x, s: ev.apply(args[3], [x], s, fr), st, fr, None, None)
            return UNIT
        self.rc = cx.run(self.cnt, hooks={self.gen['id']: hook}, opaque_fns={self.pos['id']})

    def install(self, it):
        base = it.summ
        it.summ = lambda n: self.ri.get(n) or base(n)
        it.calls['subsets'] = lambda it, s, lo, hi: self.ref(s, lo, hi)

    @staticmethod
    def ref(s, lo, hi):
        l = sorted(s, key=I.okey)
        hi = len(l) if hi == NONEV else min(hi.f[0], len(l))
        return tuple(frozenset(x) for n in range(lo, hi + 1) for x in itertools.combinations(l, n))

    def emitted(self, it, s, lo, hi):
        e = self.cx.bind(self.rg, s, lo, hi)
        e['cb'] = I.Log()
        log = it.run(self.rg['after'][3], e)
        return [x[0] for x in log.items]

    def count(self, it, m, max_order=2, lo=2, hi=NONEV):
        e = self.cx.bind(self.rc, X_(m), max_order, lo, hi)
        return it.run(self.rc['ret'], e), e


# ---------------------------------------------------------------- C14
def feed_expr(e, d):
    k = e.v.split('.')[-1]
    if k == 'Placeholder':
        return E('Number', d[e.f[0]]) if e.f[0] in d else e
    if k in ('Number', 'Binary', 'Spin'):
        return e
    if k == 'Constraint':
        return E(k, e.f[0], feed_expr(e.f[1], d))
    return E(k, feed_expr(e.f[0], d), feed_expr(e.f[1], d))


def feed_static(e, d):
    k = e.v.split('.')[-1]
    if k == 'Placeholder':
        return S('Number', d[e.f[0]]) if e.f[0] in d else e
    if k == 'Number':
        return e
    return S(k, tuple(feed_static(x, d) for x in e.f[0]))


def fed_ph(ph, d):
    return lambda p: d[p] if p in d else ph(p)


def gdict(rng, keys, full=False):
    return M({k: rng.choice((0, 1, 2, 4, 9, -1, -3, F(1, 3))) for k in keys if full or rng.random() < .5})


def gcons(rng, phs=True, d=2, plain=False):
    """a constraint of a model: expression over wrapped labels"""
    e = gexpr(rng, d, False, ph=lambda r: PPH(r.randrange(4)), q=lambda r: r.choice((QB, QB, QB, ANC))(r.randrange(4)), phs=phs)
    lab = rng.randrange(3)
    return R('Constraint', label=SOME(lab) if rng.random() < .8 else NONEV, expr=e,
             placeholder=SOME(PCO(lab)) if rng.random() < .7 else NONEV)


def skeleton(e):
    """an expression without its numbers and placeholders: the structure that feeding keeps"""
    k = e.v.split('.')[-1]
    if k in ('Number', 'Placeholder'):
        return 'leaf'
    return (k,) + tuple(skeleton(x) if isinstance(x, C) and x.v.startswith('Expr.') else x for x in e.f)


def phs_static(e):
    k = e.v.split('.')[-1]
    if k == 'Placeholder':
        return {e.f[0]}
    return set().union(*[phs_static(x) for x in e.f[0]]) if k in ('Add', 'Mul') else set()


def phs_expr(e):
    k = e.v.split('.')[-1]
    if k == 'Placeholder':
        return {e.f[0]}
    return set().union(set(), *[phs_expr(x) for x in e.f if isinstance(x, C) and x.v.startswith('Expr.')])


def unph(x):
    """placeholders of a closed model belong to the unit type: only strengths remain"""
    if isinstance(x, C):
        return C(x.v, *[unph(y) for y in x.f])
    if isinstance(x, tuple):
        return tuple(unph(y) for y in x)
    return x


@prop('C14', 'other', 'value graphs of the typed IR; structural induction over expressions and coefficients', 1,
      'Feeding is summarised per constructor with the recursive calls taken at their specification and the resulting graph compared with the substitution. '
      'Closing a model is summarised for arbitrary models: the panics of its summary must cover exactly the unfilled placeholders.')
def c14(cx):
    fe = cx.fn('feed_dict', self_adt='Expr')
    fs = cx.fn('feed_dict', self_adt='StaticExpr')

    def per(name, f, ctors, gen, ref, mkterm):
        for k, c in ctors:
            def env(rng, k=k):
                return {'#e': gen(rng, k), '#d': gdict(rng, range(4) if gen is gexpr_k else [PPH(i) for i in range(4)])}

            def terms(k=k, c=c):
                r = cx.run(f, [c], opaque_fns={f['id']})
                if const_of(asserted(r)) != 1:
                    raise Unsupported('may panic')
                d = r['args'][1]
                return [(r['ret'], mkterm(k, c, d, lambda x: raw('call', f['id'], x, d)))]
            cx.eqt(f'{name}: {k}', f, terms, [('result', lambda it, e: cx.app(it, f, e['#e'], e['#d'])[0],
                                              lambda it, e: ref(e['#e'], e['#d'].d))], env, rule=IND)

    def hit(mk_, c, d):
        p = c.a[2]
        return ite(TM.mk_contains(d, p), mk_('Number', TM.mk_mget(d, p)), c)

    def te(k, c, d, rec):
        if k == 'Placeholder':
            return hit(X, c, d)
        if k in ('Number', 'Binary', 'Spin'):
            return c
        if k == 'Constraint':
            return X(k, c.a[2], rec(c.a[3]))
        return X(k, rec(c.a[2]), rec(c.a[3]))

    def ts(k, c, d, rec):
        if k == 'Placeholder':
            return hit(SX, c, d)
        if k == 'Number':
            return c
        x = fresh('u')
        v = c.a[2]
        return SX(k, TM.mk_vec(seq_for(rng(ZERO, TM.mk_len(v)), x, seq([one(ONE, rec(TM.mk_idx(v, x)))]))))
    cx.attempt('expressions', lambda: per('feeding an expression', fe, expr_ctors(cx), gexpr_k, feed_expr, te))
    cx.attempt('coefficients', lambda: per('feeding a coefficient', fs, static_ctors(cx), gstat_k, feed_static, ts))

    def poly():
        f = cx.fn('feed_dict', self_adt='Expanded')
        cx.test('feeding a polynomial feeds every coefficient and moves none', f,
                [('polynomial', lambda it, e: cx.app(it, f, X_(e['#m']), e['#d'])[0].get('0').d,
                  lambda it, e: {s: feed_static(c, e['#d'].d) for s, c in e['#m'].d.items()})],
                lambda rng: {'#m': gpoly(rng, co=lambda r: gstatic(r, 2, ph=lambda q: q.choice((PPH, PCO))(q.randrange(3)))),
                             '#d': gdict(rng, [PPH(i) for i in range(4)])})
    cx.attempt('polynomials', poly)

    def cons():
        f = cx.fn('feed_dict', self_adt='Constraint')

        def got(it, e):
            r = cx.app(it, f, e['#c'], e['#d'])[0]
            return r.get('label'), r.get('expr'), r.get('placeholder')

        def want(it, e):
            c = e['#c']
            p = c.get('placeholder')
            return c.get('label'), feed_expr(c.get('expr'), e['#d'].d), NONEV if p != NONEV and p.f[0] in e['#d'].d else p
        cx.test('feeding a constraint feeds its expression and keeps the rest', f, [('constraint', got, want)],
                lambda rng: {'#c': gcons(rng), '#d': gdict(rng, [PPH(i) for i in range(4)] + ([PCO(i) for i in range(3)] if rng.random() < .5 else []))})
    cx.attempt('constraints', cons)

    def drops():
        # a function that closes refuses exactly what still holds a placeholder of the user
        def dropper(owner, gen, phs, same_):
            f = cx.fn('drop_placeholder', self_adt=owner)

            def got(it, e):
                try:
                    r = cx.app(it, f, e['#x'])[0]
                except Undef as x:
                    if str(x) != 'refused' and 'never' not in str(x):
                        raise
                    return 'refused'
                return unph(same_(r))
            cx.test(f'closing refuses what is unfilled and keeps everything else: {owner}', f,
                    [('closed', got, lambda it, e: 'refused' if any(p.v.endswith('.Placeholder') for p in phs(e['#x'])) else unph(same_(e['#x'])))],
                    lambda rng: {'#x': gen(rng, PCO if rng.random() < .6 else lambda n: rng.choice((PPH, PCO, PCO, PCO, PCO))(n))}, trials=80)
        cx.attempt('drop coefficient', lambda: dropper('StaticExpr', lambda r, P: gstatic(r, 3, ph=lambda q: P(q.randrange(3))), phs_static, lambda x: x))
        cx.attempt('drop polynomial', lambda: dropper('Expanded', lambda r, P: X_(gpoly(r, co=lambda g: gstatic(g, 2, ph=lambda q: P(q.randrange(3))))),
                                                      lambda x: set().union(set(), *[phs_static(c) for c in x.get('0').d.values()]),
                                                      lambda x: tuple(sorted(((s, c) for s, c in x.get('0').d.items()), key=I.okey))))
        cx.attempt('drop placeholder', lambda: dropper('Placeholder', lambda r, P: P(r.randrange(3)), lambda x: {x}, lambda x: x))

        def gc(r, P):
            c = gcons(r, True)
            c.d['expr'] = gexpr(r, 2, False, ph=lambda q: P(q.randrange(3)), q=lambda q: q.choice((QB, ANC))(q.randrange(4)))
            return c
        cx.attempt('drop constraint', lambda: dropper('Constraint', gc, lambda x: phs_expr(x.get('expr')),
                                                      lambda x: (x.get('label'), x.get('expr'), x.get('placeholder'))))
    cx.attempt('closing', drops)

    def whole():
        f = cx.fn('feed_dict', self_adt='CompiledModel')

        def env(rng):
            full = rng.random() < .6
            P = lambda q: q.choice((PPH, PCO))(q.randrange(3))
            m = gpoly(rng, co=lambda g: gstatic(g, 2, ph=P))
            cs_ = [gcons(rng) for _ in range(rng.randrange(0, 3))]
            return {'#c': cmodel(m, cs_, rng.randrange(0, 4)), '#d': gdict(rng, range(4), full)}

        def want(it, e):
            d = {PPH(k): v for k, v in e['#d'].d.items()}
            m = e['#c'].get('expanded').get('0')
            out = {s: feed_static(c, d) for s, c in m.d.items()}
            cs_ = []
            bad = set().union(set(), *[phs_static(c) for c in out.values()])
            for c in e['#c'].get('constraints'):
                x = feed_expr(c.get('expr'), d)
                bad |= phs_expr(x)
                cs_.append((c.get('label'), x, c.get('placeholder')))
            if any(p.v.endswith('.Placeholder') for p in bad):
                return 'refused'
            return unph(tuple(sorted(out.items(), key=I.okey))), unph(tuple(cs_)), e['#c'].get('builder').get('ancillas')

        def got(it, e):
            try:
                r = cx.app(it, f, e['#c'], e['#d'])[0]
            except Undef as x:
                if str(x) != 'refused':
                    raise
                return 'refused'
            return (unph(tuple(sorted(r.get('expanded').get('0').d.items(), key=I.okey))),
                    unph(tuple((c.get('label'), c.get('expr'), c.get('placeholder')) for c in r.get('constraints'))),
                    r.get('builder').get('ancillas'))
        cx.test('feeding a compiled model fills polynomial and constraints, and refuses to close with one unfilled', f,
                [('model', got, want)], env, trials=80)
    cx.attempt('compiled models', whole)


# ---------------------------------------------------------------- C19
def partial_val(e, m):
    """value at a partial assignment, None when undetermined"""
    k = e.v.split('.')[-1]
    f = e.f
    if k == 'Placeholder':
        return None
    if k == 'Number':
        return f[0]
    if k in ('Binary', 'Spin'):
        if f[0] not in m:
            return None
        return m[f[0]] if k == 'Binary' else 2 * m[f[0]] - 1
    if k == 'Constraint':
        return partial_val(f[1], m)
    if k == 'WithPenalty':
        return partial_val(f[0], m)
    a, b = partial_val(f[0], m), partial_val(f[1], m)
    if k == 'Add':
        return None if a is None or b is None else a + b
    if a is not None and b is not None:
        return a * b
    return 0 if a == 0 or b == 0 else None


@prop('C19', 'other', 'value graphs of the typed IR; structural induction over expressions', 1,
      'The evaluation of constraint expressions is summarised per constructor with the recursive calls taken at their specification (a value or none) and '
      'compared with the meaning of the constructor for every combination of known and unknown parts; the judgement and the report are compared with it.')
def c19(cx):
    f = cx.fn('calculate', self_adt='Expr')
    S_ = lambda v: NONEV if v is None else SOME(v)
    for k, c in expr_ctors(cx):
        def ind(k=k):
            # sub-expressions are opaque: their value is any number or none
            vals = [None, 0, 1, -1, 3, F(1, 2), F(-7, 3), F(1, 10 ** 6)]
            bad, n = '', 0
            if k in ('Add', 'Mul', 'WithPenalty', 'Constraint'):
                combos = [(a, b) for a in vals for b in (vals if k != 'Constraint' else [None])]
                for a, b in combos:
                    x, y = Opq(11), Opq(22)
                    ans = {11: S_(a), 22: S_(b)}
                    it = cx.interp(0, {f['id']: lambda it, z, m, ans=ans: ans[z.h] if isinstance(z, Opq) else NotImplemented})
                    v = E(k, 1, x) if k == 'Constraint' else E(k, x, y)
                    try:
                        r, _ = cx.app(it, f, v, M({}))
                    except Undef:
                        r = 'panic'
                    if k in ('Constraint', 'WithPenalty'):
                        w = a
                    elif k == 'Add':
                        w = None if a is None or b is None else a + b
                    else:
                        w = a * b if a is not None and b is not None else 0 if a == 0 or b == 0 else None
                    n += 1
                    if not same(r, S_(w)):
                        bad = bad or f'parts worth {S_(a)!r} and {S_(b)!r}: the code computes {r!r}, the property requires {S_(w)!r}'
            elif k in ('Binary', 'Spin'):
                for m in ({}, {1: 0}, {1: 1}, {2: 1}):
                    it = cx.interp(0)
                    r, _ = cx.app(it, f, E(k, 1), M(m))
                    n += 1
                    if not same(r, S_(partial_val(E(k, 1), m))):
                        bad = bad or f'assignment {m!r}: the code computes {r!r}'
            else:
                for v in (0, 1, -2, F(1, 3)):
                    it = cx.interp(0)
                    r, _ = cx.app(it, f, E(k, v), M({v: 1}))
                    n += 1
                    if not same(r, S_(partial_val(E(k, v), {}))):
                        bad = bad or f'{v!r}: the code computes {r!r}'
            cx.ob(f'evaluation: {k}', f, 'refuted' if bad else 'identical',
                  bad or f'{n} cases', rule='case analysis on known and unknown parts')
        cx.attempt(f'evaluation: {k}', ind)
        cx.test(f'evaluation at partial assignments: {k}', f,
                [('value', lambda it, e: cx.app(it, f, e['#e'], e['#m'])[0], lambda it, e: S_(partial_val(e['#e'], e['#m'].d)))],
                lambda rng, k=k: {'#e': gexpr_k(rng, k), '#m': M({i: rng.randrange(2) for i in range(4) if rng.random() < .75})}, rule=IND)

    def judge():
        g = cx.fn('is_satisfied', self_adt='Constraint')
        eps = F(1, 10000)
        rj = cx.run(g, opaque_fns={f['id']})
        for v, n in itertools.product((None, 0, eps, -eps, eps / 2, -eps / 2, eps - F(1, 10 ** 7), -eps + F(1, 10 ** 7), eps * 2, -eps * 2, 1, -1, F(1, 2), F(-1, 2), -3, 10 ** 6, -10 ** 6,
                                       eps + F(1, 10 ** 7), -eps - F(1, 10 ** 7), F(1, 1000), F(3, 10000)), (0, 1, 4, 30)):
            it = cx.interp(0, {f['id']: lambda it, z, m, v=v: S_(v)})
            r = it.run(rj['ret'], cx.bind(rj, R('Constraint', label=SOME(1), expr=Opq(5), placeholder=NONEV), M({QB(i): i & 1 for i in range(n)})))
            w = v is None or abs(v) < eps
            if v is not None and abs(v) == eps:
                continue
            cx.ob(f'judgement of a residual of {v} with {n} variables assigned', g, 'identical' if bool(r) == w else 'refuted',
                  '' if bool(r) == w else f'the code answers {bool(r)}, the property requires {w}', rule='value-graph evaluation at the critical points')
    cx.attempt('judgement', judge)

    def report():
        g = cx.fn('get_unsatisfied_constraints', self_adt='CompiledModel')
        judged = cx.fn('is_satisfied', self_adt='Constraint')

        def env(rng):
            cs_ = [gcons(rng, rng.random() < .3) for _ in range(rng.randrange(0, 5))]
            names = [QB(i) for i in range(4)] + [ANC(i) for i in range(4)]
            return {'#c': cmodel(M({}), cs_), '#m': M({q: rng.randrange(2) for q in names if rng.random() < .9})}

        def want(it, e):
            out = []
            for c in e['#c'].get('constraints'):
                v = partial_val(c.get('expr'), e['#m'].d)
                if v is not None and abs(v) >= F(1, 10000):
                    out.append(c)
            return tuple(out)
        cx.test('exactly the unsatisfied constraints are reported, once each', g,
                [('constraints', lambda it, e: tuple(sorted(cx.app(it, g, e['#c'], e['#m'])[0], key=I.okey)),
                  lambda it, e: tuple(sorted(want(it, e), key=I.okey)))], env, trials=80)

        def one_(rng):
            return {'#c': gcons(rng, rng.random() < .3), '#m': M({q: rng.randrange(2) for q in [QB(i) for i in range(4)] + [ANC(i) for i in range(4)]})}
        cx.test('a constraint is judged by its own expression', judged,
                [('satisfied', lambda it, e: int(cx.app(it, judged, e['#c'], e['#m'])[0]),
                  lambda it, e: int((lambda v: v is None or abs(v) < F(1, 10000))(partial_val(e['#c'].get('expr'), e['#m'].d))))], one_, trials=80)
    cx.attempt('report', report)
