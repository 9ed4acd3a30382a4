"""The meaning of expressions: reference semantics of values and of value graphs.

StaticExpr   coefficient: number, placeholder, sum, product
Expr         value V, attached penalties P, labelled constraints
Expanded     polynomial: map from sets of variables to coefficients
"""
from core import *


# ------------------------------------------------------------ values
def sv(e, ph):
    """value of a coefficient"""
    k = e.v.split('.')[-1]
    if k == 'Number':
        return e.f[0]
    if k == 'Placeholder':
        return ph(e.f[0])
    r = 0 if k == 'Add' else 1
    for x in e.f[0]:
        y = sv(x, ph)
        r = r + y if k == 'Add' else r * y
    return r


def xv(e, ph, q, cons=None):
    """value of an expression; a labelled constraint is multiplied by its strength"""
    k = e.v.split('.')[-1]
    f = e.f
    if k == 'Number':
        return f[0]
    if k == 'Placeholder':
        return ph(f[0])
    if k == 'Add':
        return xv(f[0], ph, q, cons) + xv(f[1], ph, q, cons)
    if k == 'Mul':
        return xv(f[0], ph, q, cons) * xv(f[1], ph, q, cons)
    if k == 'Binary':
        return q(f[0])
    if k == 'Spin':
        return 2 * q(f[0]) - 1
    if k == 'Constraint':
        v = xv(f[1], ph, q, cons)
        return v if cons is None else v * cons(f[0])
    if k == 'WithPenalty':
        return xv(f[0], ph, q, cons)
    raise NoVal(k)


def xp(e, ph, q, cons=None):
    """attached penalties of an expression"""
    k = e.v.split('.')[-1]
    f = e.f
    if k in ('Add', 'Mul'):
        return xp(f[0], ph, q, cons) + xp(f[1], ph, q, cons)
    if k == 'Constraint':
        return xp(f[1], ph, q, cons)
    if k == 'WithPenalty':
        return xp(f[0], ph, q, cons) + xp(f[1], ph, q, cons) + xv(f[1], ph, q, cons)
    return 0


def xcons(e):
    """labelled constraints (label, expression) in an expression"""
    k = e.v.split('.')[-1]
    f = e.f
    if k in ('Add', 'Mul', 'WithPenalty'):
        return xcons(f[0]) + xcons(f[1])
    if k == 'Constraint':
        return [(f[0], f[1])]
    return []


def mv(m, ph, q):
    """value of a polynomial (map from variable sets to coefficients)"""
    if isinstance(m, R):
        m = m.get('0')
    t = 0
    for s, c in m.d.items():
        p = sv(c, ph)
        for x in s:
            p *= q(x)
        t += p
    return t


# ------------------------------------------------------------ generators
E = lambda k, *f: C('Expr.' + k, *f)
S = lambda k, *f: C('StaticExpr.' + k, *f)
QB = lambda n: C('Qubit.Qubit', n)
ANC = lambda n: C('Qubit.Ancilla', n)
PPH = lambda n: C('Placeholder.Placeholder', n)
PCO = lambda n: C('Placeholder.Constraint', n)
INTS_ = (-3, -2, -1, 0, 1, 1, 2, 3, 5) * 4 + ((1 << 55) + 1,)     # the last one is not a double
NUMS = INTS_ + (F(1, 3), F(-1, 10), F(1, 1000), F(-1, 10 ** 11))


def gnum(rng, ints=False):
    return rng.choice(INTS_ if ints else NUMS)


def gnumbers(rng):
    """numbers only, often the same one again"""
    n = rng.choice((2, 2, 3))
    if rng.random() < .5:
        return (S('Number', rng.choice((-1, -1, -2, 0, 1, 2, 3))),) * n
    return tuple(S('Number', rng.choice((-1, -1, 0, 1, 2, 3))) for _ in range(n))


def gstatic(rng, d=3, ph=lambda r: PPH(r.randrange(4))):
    if d <= 0 or rng.random() < .35:
        return S('Number', gnum(rng)) if rng.random() < .5 else S('Placeholder', ph(rng))
    if rng.random() < .12:
        return S(rng.choice(('Add', 'Mul')), gnumbers(rng))
    return S(rng.choice(('Add', 'Mul')), tuple(gstatic(rng, d - 1, ph) for _ in range(rng.choice((0, 1, 1, 2, 2, 3)))))


def gexpr(rng, d=3, wrap=True, ph=lambda r: r.randrange(4), q=lambda r: r.randrange(4), lab=lambda r: r.randrange(3), phs=True):
    if d <= 0 or rng.random() < .2:
        k = rng.randrange(8)
        if k < 2:
            return E('Number', gnum(rng))
        if k == 2 and phs:
            return E('Placeholder', ph(rng))
        return E('Binary' if k < 5 else 'Spin', q(rng))
    k = rng.randrange(10)
    rec = lambda w=wrap: gexpr(rng, d - 1, w, ph, q, lab, phs)
    if wrap and k == 0:
        return E('Constraint', lab(rng), gexpr(rng, d - 1, False, ph, q, lab, phs))
    if wrap and k == 1:
        return E('WithPenalty', rec(), rec())
    return E('Add' if k < 6 else 'Mul', rec(), rec())


def gpoly(rng, n=5, terms=4, order=3, co=None, q=QB, names=None):
    """polynomial: M frozenset of qubits -> coefficient, in random order"""
    co = co or (lambda r: gstatic(r, 2))
    d = {}
    names = names or [q(i) for i in range(n)]
    for _ in range(rng.randrange(0, terms + 1)):
        k = rng.randrange(0, min(order, len(names)) + 1)
        d[frozenset(rng.sample(names, k))] = co(rng)
    l = list(d.items())
    rng.shuffle(l)
    return M(dict(l))


def memo(seed, vals):
    """a fixed random function"""
    def f(x):
        return vals[I.hsh(seed, I.okey(x)) % len(vals)]
    return f


def gph(rng, pos=True):
    return memo(rng.randrange(1 << 30), (0, 1, 2, 3, 5, 7, F(1, 3), F(1, 10 ** 11)) if pos else NUMS)


def gq(rng):
    return memo(rng.randrange(1 << 30), (0, 1))


# ------------------------------------------------------------ value graphs
def X(k, *f):
    return raw('ctor', 'Expr', 'Expr.' + k, *f)


def SX(k, *f):
    return raw('ctor', 'StaticExpr', 'StaticExpr.' + k, *f)


class Den:
    """denotation of a graph of expression type, as a graph of number type.

    `ih` maps the recursive calls to their denotation (the induction hypothesis)."""

    def __init__(self, ih=None, q='q', ph='ph', v='V', cons=None):
        self.ih = ih or {}
        self.q, self.ph, self.v = (raw('sym', x, '') for x in (q, ph, v))
        self.cons = cons

    # sums and products over sequences; `seqs` holds what is known of sequences made by calls:
    # name -> (kind, function of the arguments), kind 'sum' | 'prod' | 'sumprod'
    seqs = {}

    def whole(self, dom, x, body):
        """(call, wrapper) when the part runs over all the elements of a call's result"""
        if dom.op != 'range' or const_of(dom.a[0]) != 0 or dom.a[1].op != 'len':
            return None
        c = dom.a[1].a[0]
        if c.op != 'call' or c.a[0] not in self.seqs or len(body.a[0]) != 1:
            return None
        p = body.a[0][0]
        if p.op != 'one' or const_of(p.a[0]) != 1:
            return None
        e = p.a[1]
        if e.op == 'idx' and e.a[0] is c and e.a[1] is x:
            return c, None
        if e.op == 'ctor' and len(e.a) == 3 and e.a[2].op == 'idx' and e.a[2].a[0] is c and e.a[2].a[1] is x:
            return c, e.a[1]
        return None

    def sums(self, s):
        r = []
        for p in s.a[0]:
            if p.op == 'one':
                r.append(mul(p.a[0], self.V(p.a[1])))
                continue
            dom, x, _, body = open_(p)
            w = self.whole(dom, x, body)
            if w:
                c, wrap = w
                kind, fn = self.seqs[c.a[0]]
                if wrap is None and kind == 'sum' or wrap == 'StaticExpr.Mul' and kind == 'sumprod':
                    r.append(fn(*c.a[1:]))
                    continue
            r.append(mk_sum(dom, x, self.sums(body)))
        return add(ZERO, *r)

    def prods(self, s):
        r = ONE
        for p in s.a[0]:
            if p.op == 'one':
                r = mul(r, add(not_(p.a[0]), mul(p.a[0], self.V(p.a[1]))))
                continue
            dom, x, _, body = open_(p)
            w = self.whole(dom, x, body)
            if w and w[1] is None and self.seqs[w[0].a[0]][0] == 'prod':
                r = mul(r, self.seqs[w[0].a[0]][1](*w[0].a[1:]))
                continue
            r = mul(r, TM.mk_prod(dom, x, self.prods(body)))
        return r

    def atom(self, t):
        return add(raw('app', self.v, t))

    def V(self, t):
        if t.op == 'ctor':
            k = t.a[1].split('.')[-1]
            f = t.a[2:]
            st = t.a[1].startswith('StaticExpr')
            if k == 'Number':
                return add(f[0])
            if k == 'Placeholder':
                return add(raw('app', self.ph, f[0]))
            if k in ('Add', 'Mul'):
                if st:
                    s = TM.vec_seq(f[0])
                    return self.sums(s) if k == 'Add' else self.prods(s)
                return add(self.V(f[0]), self.V(f[1])) if k == 'Add' else mul(self.V(f[0]), self.V(f[1]))
            if k == 'Binary':
                return add(raw('app', self.q, f[0]))
            if k == 'Spin':
                return sub(scale(raw('app', self.q, f[0]), 2), ONE)
            if k == 'Constraint':
                return self.V(f[1])
            if k == 'WithPenalty':
                return self.V(f[0])
        if t.op == 'ite':
            c = t.a[0]
            return add(mul(c, self.V(t.a[1])), mul(not_(c), self.V(t.a[2])))
        if t.op == 'call' and t.a[0] in self.ih:
            return self.ih[t.a[0]](*t.a[1:])
        if t.op == 'fold' and len(t.a[1]) == 1:
            # accumulation: V(step) = V(state) * c + d with c, d free of the state
            dom, x, (s,), ini, nx = open_(t)
            sv_ = self.atom(s)
            st = self.V(nx[0])
            at = raw('app', self.v, s)
            l = TM.lin_in(st, at)
            if l is not None:
                if const_of(l[0]) == 1 and not contains(l[1], s):
                    return add(self.V(ini[0]), mk_sum(dom, x, l[1]))
            c = TM.poly_subst_top(st, {at: ONE})
            if TM.poly_subst_top(st, {at: ZERO}) is ZERO and mul(c, sv_) is st and not contains(c, s):
                return mul(self.V(ini[0]), TM.mk_prod(dom, x, c))
        if t.op in ('sym', 'vf', 'idx', 'mget', 'bv', 'field', 'app', 'bs', 'fv'):
            return self.atom(t)
        raise Unsupported('denotation of ' + t.op)


def symx(n):
    return raw('sym', n, '')


SK = ('Placeholder', 'Add', 'Mul', 'Number')


def static_ctors(cx):
    """(constructor, symbolic value) for each constructor of coefficients"""
    a = cx.p.adts[cx.adt_id('StaticExpr')]
    out = []
    for v in a['variants']:
        n = v['n']
        if n not in SK:
            raise Unsupported('coefficient constructor ' + n)
        out.append((n, SX(n, raw('sym', 'c.' + n, 'r' if n == 'Number' else ''))))
    return out


def gstat_k(rng, k, d=3, ph=lambda r: PPH(r.randrange(4))):
    if k == 'Number':
        return S(k, gnum(rng))
    if k == 'Placeholder':
        return S(k, ph(rng))
    if rng.random() < .3:
        return S(k, gnumbers(rng))
    return S(k, tuple(gstatic(rng, d - 1, ph) for _ in range(rng.choice((0, 1, 1, 2, 2, 3)))))


EF = {'Placeholder': 1, 'Add': 2, 'Mul': 2, 'Number': 1, 'Binary': 1, 'Spin': 1, 'Constraint': 2, 'WithPenalty': 2}


def expr_ctors(cx):
    a = cx.p.adts[cx.adt_id('Expr')]
    out = []
    for v in a['variants']:
        n = v['n']
        if n not in EF or len(v['f']) != EF[n]:
            raise Unsupported('expression constructor ' + n)
        out.append((n, X(n, *[raw('sym', f'c{i}.' + n, 'r' if n == 'Number' else '') for i in range(EF[n])])))
    return out


def gexpr_k(rng, k, d=3, wrap=True, **kw):
    ph, q, lab = (kw.get(n, lambda r: r.randrange(4)) for n in ('ph', 'q', 'lab'))
    if k == 'Number':
        return E(k, gnum(rng))
    if k == 'Placeholder':
        return E(k, ph(rng))
    if k in ('Binary', 'Spin'):
        return E(k, q(rng))
    if k == 'Constraint':
        return E(k, lab(rng), gexpr(rng, d - 1, False, **kw))
    return E(k, gexpr(rng, d - 1, wrap, **kw), gexpr(rng, d - 1, wrap, **kw))
