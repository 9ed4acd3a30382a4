"""Hash-consed value-graph terms and their normal forms.

Scalars (integers, reals, booleans as 0/1) are multilinear-in-indicator
polynomials with rational coefficients over atoms; every other operator is an
atom or an aggregate.  Binders are locally nameless: a binder's bound variable
is T('bv', level) with level one above every binder inside it, so alpha-equal
terms are the same object.
"""
from fractions import Fraction as F
import itertools


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class T:
    __slots__ = ('op', 'a', 'id', 'h', 'fvs', '_atoms')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = itertools.count()
LIMIT = 3_000_000
EMPTY = frozenset()


def raw(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    if len(_tab) > LIMIT:
        raise Budget('term table')
    t = T()
    t.op, t.a = op, a
    t.id = next(_cnt)
    h = 0
    fv = None
    if op == 'poly':
        for m, _ in a[0]:
            for at, _e in m:
                if at.h > h:
                    h = at.h
                if at.fvs:
                    fv = at.fvs if fv is None else (fv | at.fvs)
    else:
        st = list(a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                if x.h > h:
                    h = x.h
                if x.fvs:
                    fv = x.fvs if fv is None else (fv | x.fvs)
            elif isinstance(x, tuple):
                st.extend(x)
    if op == 'fv':
        fv = frozenset([t.id])
    if op in BINDERS:
        h = max(h, a[-1])  # the level is always the last argument; the domain may hold higher ones
    t.h, t.fvs = h, fv or EMPTY
    t._atoms = None
    _tab[k] = t
    return t


# ops that bind bv/bs of their own level; last arg is the level
BINDERS = {'sum', 'prod', 'for', 'any', 'first', 'fold', 'lam', 'maxof', 'minof'}
BOOLOPS = {'pos', 'eq', 'is', 'b', 'nb', 'contains', 'any', 'eqv', 'P', 'qb', 'bit', 'exited', 'nonempty'}


# ---------------------------------------------------------------- polynomials
def P_(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda mc: (len(mc[0]), tuple((x.id, e) for x, e in mc[0]))))
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
        if len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return raw('poly', items)


def num(n):
    n = F(n)
    return P_({(): n}) if n else raw('poly', ())


def is_poly(t):
    return t.op == 'poly'


def items(t):
    if t.op == 'poly':
        return t.a[0]
    if t.op == 'ite':
        p = add(mul(t.a[0], t.a[1]), mul(sub(ONE, t.a[0]), t.a[2]))
        return p.a[0] if p.op == 'poly' else ((((p, 1),), F(1)),)
    return ((((t, 1),), F(1)),)


def const_of(t):
    """Fraction if the scalar is a constant, else None"""
    if t.op == 'poly':
        if not t.a[0]:
            return F(0)
        if len(t.a[0]) == 1 and t.a[0][0][0] == ():
            return t.a[0][0][1]
    return None


def add(*ts):
    d = {}
    for t in ts:
        for m, c in items(t):
            d[m] = d.get(m, 0) + c
    return P_(d)


def scale(t, k):
    k = F(k)
    return P_({m: c * k for m, c in items(t)})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def isbool(at):
    return at.op in BOOLOPS


def mono_mul(m1, m2):
    """product of two monomials as a poly-dict (normalised)"""
    d = dict(m1)
    for at, e in m2:
        if isbool(at):
            d[at] = 1
        else:
            n = d.get(at, 0) + e
            if n:
                d[at] = n
            else:
                d.pop(at, None)
    # enum discriminants of the same value exclude each other
    seen = {}
    for at in d:
        if at.op == 'is':
            o = seen.get(at.a[0])
            if o is not None and o != at.a[1]:
                return None
            seen[at.a[0]] = at.a[1]
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


_mulmemo = {}


def mul(a, b):
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    d = {}
    ia, ib = items(a), items(b)
    if len(ia) * len(ib) > 20000:
        raise Budget('poly')
    extra = []
    for m1, c1 in ia:
        for m2, c2 in ib:
            m = mono_mul(m1, m2)
            if m is None:
                continue
            if len(m) > 1 and any(at.op == 'eq' for at, _ in m):
                m = divmod_eq(m)
                t = eq_reduce(m) if len(m) > 1 else None
                if t is not None:
                    extra.append(scale(t, c1 * c2))
                    continue
            d[m] = d.get(m, 0) + c1 * c2
    r = P_(d)
    if extra:
        r = add(r, *extra)
    _mulmemo[k] = r
    return r


def divmod_key(at, op):
    if at.op != 'eq':
        return None
    its = items(at.a[0])
    if len(its) == 2 and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == op for m, _ in its) \
            and its[0][1] == -its[1][1]:
        x, y = its[0][0][0][0], its[1][0][0][0]
        if x.a[1] is y.a[1]:
            return frozenset([x.a[0], y.a[0]]), x.a[1]
    return None


def divmod_eq(m):
    """x/n == y/n and x%n == y%n  iff  x == y"""
    ds = {divmod_key(at, 'idiv'): at for at, _ in m}
    ds.pop(None, None)
    if not ds:
        return m
    for at, _ in m:
        k = divmod_key(at, 'imod')
        if k in ds and len(k[0]) == 2:
            a, b = k[0]
            e = eq(a, b, True)
            drop = (at, ds[k])
            d = {o: x for o, x in m if o not in drop}
            if e.op != 'eq':
                return m
            d[e] = 1
            return tuple(sorted(d.items(), key=lambda x: x[0].id))
    return m


def muls(*ts):
    r = ONE
    for t in ts:
        r = mul(r, t)
    return r


def eq_reduce(m):
    """[p==0]*rest: replace the solved-for atom in the rest; None if nothing changes"""
    for at, _ in m:
        if at.op != 'eq':
            continue
        s = solve_eq(at.a[0])
        if s is None:
            continue
        x, e = s
        rest = [(o, ex) for o, ex in m if o is not at]
        if any(x is o or contains(o, x) for o, _ in rest):
            if len(_reducing) > 8:
                return None         # equations that keep rewriting each other
            _reducing.append(at)
            try:
                r = at
                for o, ex in rest:
                    o2 = subst(o, {x: e})
                    r2 = power(o2, ex)
                    r = mul(r, r2)
                return r
            finally:
                _reducing.pop()
    return None


_reducing = []


_solvememo = {}


def solve_eq(p):
    """p == 0 solved for its greatest linear unit-coefficient atom -> (atom, poly)"""
    if p in _solvememo:
        return _solvememo[p]
    best = None
    cnt = {}
    if any(at.op == 'bottom' for m, _ in items(p) for at, _e in m):
        _solvememo[p] = None        # nothing equals a missing value
        return None
    for m, c in items(p):
        for at, e in m:
            cnt[at] = cnt.get(at, 0) + 1
    for m, c in items(p):
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            at = m[0][0]
            if cnt[at] == 1 and not isbool(at) and not any(
                    o is not at and contains(o, at) for o in cnt):
                if best is None or rank(at) > rank(best[0]):
                    best = (at, c)
    r = None
    if best:
        at, c = best
        rest = add(p, scale(at, -c))
        r = (at, scale(rest, -1 / c))
    _solvememo[p] = r
    return r


def rank(at):
    # bound/loop variables are eliminated first
    return (at.op in ('fv', 'bv'), at.id)


def power(t, e):
    if e == 1:
        return t
    if e >= 0:
        r = ONE
        for _ in range(e):
            r = mul(r, t)
        return r
    return power(inv(t), -e)


def inv(t):
    its = items(t)
    if not its:
        return raw('inv', t)
    if len(its) == 1:
        m, c = its[0]
        if any(isbool(at) for at, _ in m):
            return raw('inv', t)
        return P_({tuple((at, -e) for at, e in m): 1 / c})
    c = its[0][1]
    if c == 1:
        return raw('inv', t)
    return scale(raw('inv', scale(t, 1 / c)), 1 / c)


def div(a, b):
    c = const_of(b)
    if c:
        return scale(a, 1 / c)
    return mul(a, inv(b))


def atoms_of(t):
    """set of all sub-terms that are atoms (deep)"""
    if t._atoms is not None:
        return t._atoms
    s = set()
    if t.op == 'poly':
        for m, _ in t.a[0]:
            for at, _e in m:
                s |= atoms_of(at)
    else:
        s.add(t)
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                s |= atoms_of(x)
            elif isinstance(x, tuple):
                st.extend(x)
    t._atoms = frozenset(s)
    return t._atoms


def contains(t, x):
    if x.op == 'fv':
        return x.id in t.fvs
    return x in atoms_of(t)


def top_atoms(t):
    s = set()
    for m, _ in items(t):
        for at, _e in m:
            s.add(at)
    return s


# ---------------------------------------------------------------- booleans
def not_(a):
    return sub(ONE, a)


def and_(*a):
    return muls(*a)


def or_(a, b):
    return sub(add(a, b), mul(a, b))


def iff(a, b):
    return add(mul(a, b), mul(not_(a), not_(b)))


def tobool(x):
    if x.op == 'poly' or isbool(x):
        return x
    if x.op == 'ite':
        return add(mul(x.a[0], tobool(x.a[1])), mul(not_(x.a[0]), tobool(x.a[2])))
    return raw('b', x)


def bool_expand(p, pred, maxb=4):
    """if p mentions top-level boolean atoms, case split pred over them"""
    bs = sorted((at for at in top_atoms(p) if isbool(at)), key=lambda t: t.id)
    if not bs or len(bs) > maxb:
        return None
    r = ZERO
    for vals in itertools.product((0, 1), repeat=len(bs)):
        sb = {b: (ONE if v else ZERO) for b, v in zip(bs, vals)}
        q = poly_subst_top(p, sb)
        g = ONE
        for b, v in zip(bs, vals):
            g = mul(g, b if v else not_(b))
        r = add(r, mul(g, pred(q)))
    return r


def poly_subst_top(p, sb):
    r = []
    for m, c in items(p):
        t = num(c)
        for at, e in m:
            t = mul(t, power(sb[at], e) if at in sb else P_({((at, e),): F(1)}))
        r.append(t)
    return add(*r) if r else ZERO


def lead(p):
    for m, c in items(p):
        if m:
            return c
    return None


def split_const(p):
    c0 = F(0)
    d = {}
    for m, c in items(p):
        if m == ():
            c0 = c
        else:
            d[m] = c
    return P_(d), c0


def nonneg(t):
    """t >= 0 for certain"""
    if t.op == 'poly':
        return all(c >= 0 and all(nonneg(at) or e % 2 == 0 for at, e in m) for m, c in t.a[0])
    if t.op in ('len', 'card', 'imod', 'abs', 'occ', 'pow2') or isbool(t):
        return True
    if t.op in ('sym', 'fv'):
        return len(t.a) > 1 and t.a[1] == 'u'
    if t.op == 'sum':
        return nonneg(t.a[1])
    if t.op == 'idiv':
        return nonneg(t.a[0])
    if t.op == 'umax':
        return True
    return False


def gcd_norm(p, integer):
    q, c0 = split_const(p)
    its = items(q)
    if not its:
        return p
    if integer:
        from math import gcd
        dens = 1
        for _, c in its:
            dens = dens * c.denominator // gcd(dens, c.denominator)
        dens = dens * c0.denominator // gcd(dens, c0.denominator)
        g = 0
        for _, c in its:
            g = gcd(g, int(abs(c * dens)))
        k = F(dens, g)
        if (c0 * k).denominator == 1:
            return scale(p, k)
        return scale(p, dens)
    return scale(p, 1 / abs(its[0][1]))


def pos(p, integer):
    """p > 0"""
    c = const_of(p)
    if c is not None:
        return ONE if c > 0 else ZERO
    r = bool_expand(p, lambda q: pos(q, integer))
    if r is not None:
        return r
    r = strip_tof(p)
    if r is not None:
        return pos(r, integer)
    p = gcd_norm(p, integer)
    if integer and nonneg(neg(p)):
        return ZERO
    q, c0 = split_const(p)
    if lead(q) < 0:
        # p>0  <=>  not(-p>0) and p!=0
        return sub(sub(ONE, pos(neg(p), integer)), eq0(p, integer))
    if integer and c0 and abs(c0) <= 3:
        r = pos(q, True)
        if c0 > 0:
            for k in range(int(c0)):
                r = add(r, eq0(add(q, num(k)), True))
        else:
            for k in range(1, int(-c0) + 1):
                r = sub(r, eq0(sub(q, num(k)), True))
        return r
    if nonneg(q) and c0 > 0:
        return ONE
    if nonneg(q) and c0 == 0:
        return sub(ONE, eq0(q, integer))
    return raw('pos', p, 'i' if integer else 'r')


def eq0(p, integer=False):
    c = const_of(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if integer and len(items(p)) == 1 and len(items(p)[0][0]) > 1 or len(items(p)) == 1 and any(
            at.op == 'pow2' for at, _ in items(p)[0][0]):
        # a product vanishes iff a factor does
        its = items(p)[0][0]
        if any(at.op == 'pow2' for at, _ in its):
            r = ZERO
            for at, _ in its:
                if at.op != 'pow2':
                    r = or_(r, eq0(at, integer) if not isbool(at) else not_(at))
            return r
    r = bool_expand(p, lambda q: eq0(q, integer))
    if r is not None:
        return r
    r = strip_tof(p)
    if r is not None:
        return eq0(r, integer)
    p = gcd_norm(p, integer)
    q, c0 = split_const(p)
    if lead(q) < 0:
        return eq0(neg(p), integer)
    if nonneg(q) and c0 > 0:
        return ZERO
    its = items(q)
    if integer and len(its) == 1 and len(its[0][0]) == 1 and its[0][0][0][1] == 1 and its[0][1] != 1:
        v = -c0 / its[0][1]
        if v.denominator != 1:
            return ZERO
    return raw('eq', p)


def lt(a, b, integer):
    return pos(sub(b, a), integer)


def le(a, b, integer):
    return not_(lt(b, a, integer))


def eq(a, b, integer=False):
    return eq0(sub(a, b), integer)


# ---------------------------------------------------------------- generic rebuild
SMART = {}


def smart(op):
    def d(f):
        SMART[op] = f
        return f
    return d


def mk(op, *a):
    f = SMART.get(op)
    if f:
        return f(*a)
    return raw(op, *a)


_fresh = itertools.count()
DOM = {}      # loop variable -> the domain it ranges over
STATE = {}    # loop state symbol -> [initial value, next value]


def fresh(tag='', base='x'):
    return raw('fv', f'{base}{next(_fresh)}', tag)


def replace_bound(t, lvl, x, states=None):
    """open a binder body: bv(lvl) -> x, bs(lvl,i) -> states[i]"""
    sb = {raw('bv', lvl): x}
    if states:
        for i, s in enumerate(states):
            sb[raw('bs', lvl, i)] = s
    return subst(t, sb)


def close(t, x, lvl, states=None):
    sb = {x: raw('bv', lvl)}
    if states:
        for i, s in enumerate(states):
            sb[s] = raw('bs', lvl, i)
    return subst(t, sb, False)


def subst(t, sb, norm=True):
    memo = {}
    keys_fv = all(k.op == 'fv' for k in sb)
    ids = frozenset(k.id for k in sb)

    def go(t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(go(x) for x in t)
            return t
        r = sb.get(t)
        if r is not None:
            return r
        if keys_fv:
            if not (t.fvs & ids):
                return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'poly':
            out = []
            ch = False
            for m, c in t.a[0]:
                for at, _ in m:
                    if go(at) is not at:
                        ch = True
            if not ch:
                memo[t] = t
                return t
            for m, c in t.a[0]:
                q = num(c)
                for at, e in m:
                    q = mul(q, power(go(at), e))
                out.append(q)
            r = add(*out) if out else ZERO
        elif t.op in ('sym', 'fv', 'bv', 'bs'):
            r = t
        elif t.op in BINDERS:
            r = rebind(t, go, norm)
        else:
            na = tuple(go(x) for x in t.a)
            r = t if all(x is y for x, y in zip(na, t.a)) and na == t.a else (mk(t.op, *na))
        memo[t] = r
        return r
    return go(t)


def rebind(t, go, norm):
    na = tuple(go(x) for x in t.a[:-1])
    if na == t.a[:-1]:
        return t
    if not norm:
        # level may have to grow if the body now contains deeper binders
        return relevel(t.op, t.a[-1], na)
    return reclose(t.op, t.a[-1], na)


def body_h(args):
    h = 0
    st = list(args)
    while st:
        x = st.pop()
        if isinstance(x, T):
            h = max(h, x.h)
        elif isinstance(x, tuple):
            st.extend(x)
    return h


def relevel(op, lvl, na):
    h = body_h(na)
    if h < lvl:
        return raw(op, *na, lvl)
    return reclose(op, lvl, na)


def reclose(op, lvl, na):
    """re-normalise a binder node whose arguments changed"""
    dom = na[0]
    tag = 'u' if isinstance(dom, T) and dom.op == 'range' else ''
    x = fresh(tag)
    nst = 0
    if op == 'fold':
        nst = len(na[1])
    sts = [fresh('', 's') for _ in range(nst)]
    sb = {raw('bv', lvl): x}
    for i, s in enumerate(sts):
        sb[raw('bs', lvl, i)] = s

    def op_(y):
        if isinstance(y, T):
            return subst(y, sb)
        if isinstance(y, tuple):
            return tuple(op_(z) for z in y)
        return y
    args = (dom,) + tuple(op_(y) for y in na[1:])
    return bind(op, x, sts, *args)


def bind(op, x, sts, *args):
    """build a binder node over open arguments (args[0] is the domain)"""
    if op == 'sum':
        return mk_sum(args[0], x, args[1])
    if op == 'any':
        return mk_any(args[0], x, args[1])
    if op == 'for':
        return mk_for(args[0], x, args[1])
    if op == 'prod':
        return mk_prod(args[0], x, args[1])
    return bind_raw(op, x, sts, *args)


def bind_raw(op, x, sts, *args):
    lvl = body_h(args[1:]) + 1
    sb = {x: raw('bv', lvl)}
    for i, s in enumerate(sts):
        sb[s] = raw('bs', lvl, i)

    def cl(y):
        if isinstance(y, T):
            return subst(y, sb, False)
        if isinstance(y, tuple):
            return tuple(cl(z) for z in y)
        return y
    rest = tuple(cl(y) for y in args[1:])
    # closing may deepen nested binders only through renormalisation; keep level safe
    l2 = body_h(rest)
    if l2 > lvl:
        lvl2 = l2 + 1
        sb2 = {raw('bv', lvl): raw('bv', lvl2)}
        for i, s in enumerate(sts):
            sb2[raw('bs', lvl, i)] = raw('bs', lvl2, i)
        rest = tuple(subst(y, sb2, False) if isinstance(y, T) else y for y in rest)
        lvl = lvl2
    return raw(op, args[0], *rest, lvl)


def open_(t):
    """(dom, fresh var, opened args...) of a binder node"""
    dom = t.a[0]
    x = fresh('u' if isinstance(dom, T) and dom.op == 'range' else '')
    DOM[x] = dom
    lvl = t.a[-1]
    sb = {raw('bv', lvl): x}
    sts = []
    if t.op == 'fold':
        sts = [fresh('', 's') for _ in t.a[1]]
        for i, s in enumerate(sts):
            sb[raw('bs', lvl, i)] = s

    def op_(y):
        if isinstance(y, T):
            return subst(y, sb)
        if isinstance(y, tuple):
            return tuple(op_(z) for z in y)
        return y
    return (dom, x, sts) + tuple(op_(y) for y in t.a[1:-1])


# ---------------------------------------------------------------- domains & sums
def rng(lo, hi):
    return raw('range', lo, hi)


def in_dom(dom, e):
    if dom.op == 'range':
        return mul(le(dom.a[0], e, True), lt(e, dom.a[1], True))
    if dom.op == 'elems':
        return mk('contains', dom.a[0], e)
    return raw('contains', dom, e)


def card(dom):
    if dom.op == 'range':
        d = sub(dom.a[1], dom.a[0])
        if nonneg(d):
            return d
        return raw('card', dom)
    if dom.op == 'elems':
        return mk('len', dom.a[0])
    return raw('card', dom)


def mk_sum(dom, x, body):
    if dom.op == 'range':
        lo, hi = const_of(dom.a[0]), const_of(dom.a[1])
        if lo is not None and hi is not None and hi - lo <= 16:
            return add(ZERO, *[subst(body, {x: num(k)}) for k in range(int(lo), int(hi))])
    out = []
    for m, c in items(body):
        dep = [(at, e) for at, e in m if x.id in at.fvs]
        inv_ = [(at, e) for at, e in m if x.id not in at.fvs]
        coef = P_({tuple(inv_): c})
        if not dep:
            out.append(mul(coef, card(dom)))
            continue
        # delta elimination
        done = None
        for at, e in dep:
            if at.op == 'eq':
                q = at.a[0]
                lin = lin_in(q, x)
                if lin is not None and abs(lin[0]) == 1:
                    val = scale(lin[1], -1 / lin[0])
                    rest = ONE
                    for o, ex in dep:
                        if o is not at:
                            rest = mul(rest, power(o, ex))
                    done = mul(in_dom(dom, val), subst(rest, {x: val}))
                    break
            if at.op == 'eqv' and (at.a[0] is x or at.a[1] is x):
                val = at.a[1] if at.a[0] is x else at.a[0]
                if x.id not in val.fvs:
                    rest = ONE
                    for o, ex in dep:
                        if o is not at:
                            rest = mul(rest, power(o, ex))
                    done = mul(in_dom(dom, val), subst(rest, {x: val}))
                    break
        if done is not None:
            out.append(mul(coef, done))
            continue
        b = P_({tuple(dep): F(1)})
        s = canon_sum(dom, x, b)
        out.append(mul(coef, s))
    return add(ZERO, *out) if out else ZERO


def canon_sum(dom, x, b):
    """Sum over dom of one monomial; prefers element domains over index ranges"""
    if dom.op == 'range' and const_of(dom.a[0]) == 0:
        hi = dom.a[1]
        if hi.op in ('len',):
            s = hi.a[0]
            nth = mk('nth', s, x)
            if nth.op == 'nth' and only_inside(b, x, nth):
                y = fresh('')
                b2 = subst(b, {nth: y})
                return mk_sum(raw('elems', s), y, b2)
    return bind_raw('sum', x, [], dom, b)


def only_inside(t, x, wrap):
    y = fresh('')
    t2 = subst(t, {wrap: y})
    return x.id not in t2.fvs


def lin_in(q, x):
    """q = k*x + r with r free of x -> (k, r)"""
    k = F(0)
    r = {}
    for m, c in items(q):
        if any(x.id in at.fvs for at, _ in m):
            if len(m) == 1 and m[0][0] is x and m[0][1] == 1:
                k += c
            else:
                return None
        else:
            r[m] = c
    if k == 0:
        return None
    return k, P_(r)


def mk_any(dom, x, body):
    if x.id not in body.fvs:
        if const_of(body) == 0:
            return ZERO
        return mul(body, nonempty(dom))
    # any(c & f(x)) with invariant factor
    its = items(body)
    if dom.op == 'range':
        lo, hi = const_of(dom.a[0]), const_of(dom.a[1])
        if lo is not None and hi is not None and hi - lo <= 8:
            r = ZERO
            for k in range(int(lo), int(hi)):
                r = or_(r, subst(body, {x: num(k)}))
            return r
    if len(its) == 1:
        m, c = its[0]
        dep = tuple((at, e) for at, e in m if x.id in at.fvs)
        inv_ = tuple((at, e) for at, e in m if x.id not in at.fvs)
        if inv_ and c == 1:
            return mul(P_({inv_: F(1)}), mk_any(dom, x, P_({dep: F(1)})))
        for at, e in dep:
            val = None
            if at.op == 'eq':
                lin = lin_in(at.a[0], x)
                if lin is not None and abs(lin[0]) == 1:
                    val = scale(lin[1], -1 / lin[0])
            elif at.op == 'eqv' and (at.a[0] is x or at.a[1] is x):
                val = at.a[1] if at.a[0] is x else at.a[0]
                if x.id in val.fvs:
                    val = None
            if val is not None:
                rest = ONE
                for o, ex in dep:
                    if o is not at:
                        rest = mul(rest, power(o, ex))
                return mul(in_dom(dom, val), subst(rest, {x: val}))
    if dom.op == 'range' and const_of(dom.a[0]) == 0 and dom.a[1].op == 'len':
        s = dom.a[1].a[0]
        nth = mk('nth', s, x)
        if nth.op == 'nth' and only_inside(body, x, nth):
            y = fresh('')
            return mk_any(raw('elems', s), y, subst(body, {nth: y}))
    return bind_raw('any', x, [], dom, body)


def nonempty(dom):
    if dom.op == 'range':
        return lt(dom.a[0], dom.a[1], True)
    return not_(eq0(card(dom), True))


def mk_prod(dom, x, body):
    if const_of(body) == 1:
        return ONE
    if dom.op == 'range':
        lo, hi = const_of(dom.a[0]), const_of(dom.a[1])
        if lo is not None and hi is not None and hi - lo <= 16:
            return muls(*[subst(body, {x: num(k)}) for k in range(int(lo), int(hi))])
        if lo == 0 and dom.a[1].op == 'len':
            s = dom.a[1].a[0]
            nth = mk('nth', s, x)
            if nth.op == 'nth' and only_inside(body, x, nth):
                y = fresh('')
                return mk_prod(raw('elems', s), y, subst(body, {nth: y}))
    return bind_raw('prod', x, [], dom, body)


# ---------------------------------------------------------------- sequences
# seq = raw('seq', parts); part = ('one', guard, elem) or a raw('for', dom, seq, lvl)
def seq(parts):
    out = []
    for p in parts:
        if p.op == 'one' and const_of(p.a[0]) == 0:
            continue
        if p.op == 'for' and not p.a[1].a[0]:
            continue
        out.append(p)
    return raw('seq', tuple(out))


def one(g, e):
    return raw('one', g, e)


def mk_for(dom, x, s):
    parts = s.a[0]
    if not parts:
        return raw('for', dom, s, 1)
    if dom.op == 'range':
        lo, hi = const_of(dom.a[0]), const_of(dom.a[1])
        if dom.a[0] is dom.a[1] or (lo is not None and hi is not None and hi <= lo):
            return raw('for', dom, raw('seq', ()), 1)
    if dom.op == 'range' and const_of(dom.a[0]) == 0 and dom.a[1].op == 'len':
        sset = dom.a[1].a[0]
        nth = mk('nth', sset, x)
        if nth.op == 'nth' and only_inside(s, x, nth):
            y = fresh('')
            return mk_for(raw('elems', sset), y, subst(s, {nth: y}))
    return bind_raw('for', x, [], dom, s)


def seq_for(dom, x, s):
    """sequence of for-part, unrolling constant ranges"""
    if dom.op == 'range':
        lo, hi = const_of(dom.a[0]), const_of(dom.a[1])
        if lo is not None and hi is not None and hi - lo <= 16:
            ps = []
            for k in range(int(lo), int(hi)):
                ps.extend(subst(s, {x: num(k)}).a[0])
            return seq(ps)
    return seq([mk_for(dom, x, s)])


@smart('seq')
def _seq(parts):
    return seq(parts)


def seq_cat(*ss):
    ps = []
    for s in ss:
        ps.extend(s.a[0])
    return seq(ps)


def seq_guard(g, s):
    if const_of(g) == 1:
        return s
    ps = []
    for p in s.a[0]:
        if p.op == 'one':
            ps.append(one(mul(g, p.a[0]), p.a[1]))
        else:
            dom, x, _, body = open_(p)
            ps.append(mk_for(dom, x, seq_guard(g, body)))
    return seq(ps)


def seq_map(s, f):
    ps = []
    for p in s.a[0]:
        if p.op == 'one':
            ps.append(one(p.a[0], f(p.a[1])))
        else:
            dom, x, _, body = open_(p)
            ps.append(mk_for(dom, x, seq_map(body, f)))
    return seq(ps)


def seq_sum(s, f):
    r = []
    for p in s.a[0]:
        if p.op == 'one':
            r.append(mul(p.a[0], f(p.a[1])))
        else:
            dom, x, _, body = open_(p)
            r.append(mk_sum(dom, x, seq_sum(body, f)))
    return add(ZERO, *r)


def seq_any(s, f):
    r = ZERO
    for p in s.a[0]:
        if p.op == 'one':
            r = or_(r, mul(p.a[0], f(p.a[1])))
        else:
            dom, x, _, body = open_(p)
            r = or_(r, mk_any(dom, x, seq_any(body, f)))
    return r


def seq_prod(s, f):
    r = ONE
    for p in s.a[0]:
        if p.op == 'one':
            r = mul(r, add(not_(p.a[0]), mul(p.a[0], f(p.a[1]))))
        else:
            dom, x, _, body = open_(p)
            r = mul(r, mk_prod(dom, x, seq_prod(body, f)))
    return r


def seq_len(s):
    return seq_sum(s, lambda e: ONE)


# ---------------------------------------------------------------- collections
@smart('len')
def mk_len(v):
    if v.op in ('vec',):
        return seq_len(v.a[0])
    if v.op in ('scat', 'upd', 'mupd'):
        return mk_len(v.a[0])
    if v.op == 'ite':
        return add(mul(v.a[0], mk_len(v.a[1])), mul(not_(v.a[0]), mk_len(v.a[2])))
    if v.op == 'set':
        # a set literal of one element, or a set built from distinct elements
        s = v.a[0]
        if len(s.a[0]) == 0:
            return ZERO
        if inj_seq(s):
            return seq_len(s)
    if v.op == 'map' and inj_seq(v.a[0], True):
        return seq_len(v.a[0])
    if v.op == 'array':
        return num(len(v.a[0]))
    return raw('len', v)


def inj_seq(s, pair=False):
    """the (keys of the) elements are pairwise distinct for certain"""
    if len(s.a[0]) == 1:
        p = s.a[0][0]
        if p.op == 'one':
            return True
        dom, x, _, body = open_(p)
        if len(body.a[0]) == 1 and body.a[0][0].op == 'one':
            e = body.a[0][0].a[1]
            if pair:
                if e.op != 'tuple':
                    return False
                e = e.a[0]
            return inj_elem(e, x, dom)
    return False


def inj_elem(e, x, dom):
    """injective in x over dom"""
    if e is x:
        return True
    if e.op == 'nth' and e.a[1] is x and x.id not in e.a[0].fvs:
        return True
    if e.op == 'ctor' and len(e.a) == 3:
        return inj_elem(e.a[2], x, dom)
    if e.op == 'ctor' and len(e.a) == 4:
        return any(inj_elem(z, x, dom) for z in e.a[2:])
    if e.op == 'tuple':
        return any(inj_elem(z, x, dom) for z in e.a)
    if e.op == 'rec':
        return any(inj_elem(z, x, dom) for z in e.a[2])
    l = lin_in(e, x) if (e.op == 'poly') else None
    return l is not None


@smart('idx')
def mk_idx(v, i):
    if v.op == 'vec':
        return seq_idx(v.a[0], i)
    if v.op == 'array':
        c = const_of(i)
        if c is not None and 0 <= c < len(v.a[0]):
            return v.a[0][int(c)]
        vals = [const_of(x) for x in v.a[0]]
        if vals and all(x is not None and x == 2 ** k for k, x in enumerate(vals)):
            return mk('pow2', i)
        return raw('idx', v, i)
    if v.op == 'scat':
        return add(mk_idx(v.a[0], i), seq_sum(v.a[1], lambda e: mul(eq(e.a[0], i, True), e.a[1])))
    if v.op == 'upd':
        return ite(eq(v.a[1], i, True), v.a[2], mk_idx(v.a[0], i))
    if v.op == 'ite':
        return ite(v.a[0], mk_idx(v.a[1], i), mk_idx(v.a[2], i))
    return raw('idx', v, i)


def seq_idx(s, i):
    ps = s.a[0]
    if len(ps) == 1 and ps[0].op == 'for':
        dom, x, _, body = open_(ps[0])
        if len(body.a[0]) == 1 and body.a[0][0].op == 'one' and const_of(body.a[0][0].a[0]) == 1:
            e = body.a[0][0].a[1]
            if dom.op == 'range':
                return subst(e, {x: add(dom.a[0], i)})
            if dom.op == 'elems':
                return subst(e, {x: mk('nth', dom.a[0], i)})
    c = const_of(i)
    if c is not None and all(p.op == 'one' and const_of(p.a[0]) == 1 for p in ps[:int(c) + 1]) and len(ps) > c >= 0:
        return ps[int(c)].a[1]
    return raw('idx', raw('vec', s), i)


@smart('scat')
def mk_scat(v, s):
    if not s.a[0]:
        return v
    if v.op == 'scat':
        return mk_scat(v.a[0], seq_cat(v.a[1], s))
    if v.op == 'vec' and all(p.op == 'one' and const_of(p.a[0]) == 1 for p in v.a[0].a[0]):
        ps = list(v.a[0].a[0])
        todo = list(s.a[0])
        while todo:
            p = todo[0]
            if p.op != 'one' or p.a[1].op != 'tuple' or len(p.a[1].a) != 2:
                break
            k = const_of(p.a[1].a[0])
            if k is None or not 0 <= k < len(ps):
                break
            k = int(k)
            ps[k] = one(ONE, add(ps[k].a[1], mul(p.a[0], p.a[1].a[1])))
            todo.pop(0)
        if len(todo) < len(s.a[0]):
            return mk_scat(mk_vec(seq(ps)), seq(todo))
    return raw('scat', v, s)


@smart('upd')
def mk_upd(v, i, x):
    if v.op == 'upd' and v.a[1] is i:
        return mk_upd(v.a[0], i, x)
    if mk_idx(v, i) is x:
        return v
    if v.op == 'array' and const_of(i) is not None:
        k = int(const_of(i))
        l = list(v.a[0])
        l[k] = x
        return raw('array', tuple(l))
    if v.op == 'vec' and const_of(i) is not None:
        k = int(const_of(i))
        ps = list(v.a[0].a[0])
        if k < len(ps) and all(p.op == 'one' and const_of(p.a[0]) == 1 for p in ps[:k + 1]):
            ps[k] = one(ONE, x)
            return mk_vec(seq(ps))
    return raw('upd', v, i, x)


@smart('vec')
def mk_vec(s):
    # eta: the elements of v in index order are v
    if len(s.a[0]) == 1 and s.a[0][0].op == 'for':
        p = s.a[0][0]
        dom = p.a[0]
        if dom.op == 'range' and const_of(dom.a[0]) == 0 and dom.a[1].op == 'len':
            _, x, _, body = open_(p)
            if len(body.a[0]) == 1 and body.a[0][0].op == 'one' and const_of(body.a[0][0].a[0]) == 1:
                e = body.a[0][0].a[1]
                v = dom.a[1].a[0]
                if e.op == 'idx' and e.a[1] is x and e.a[0] is v:
                    return v
    return raw('vec', s)


def vec_seq(v):
    """elements of a vector value as a sequence"""
    if v.op == 'vec':
        return v.a[0]
    if v.op == 'array':
        return seq([one(ONE, x) for x in v.a[0]])
    if v.op == 'ite':
        return seq_cat(seq_guard(v.a[0], vec_seq(v.a[1])), seq_guard(not_(v.a[0]), vec_seq(v.a[2])))
    x = fresh('u')
    return seq([mk_for(rng(ZERO, mk_len(v)), x, seq([one(ONE, mk_idx(v, x))]))])


def seq_filt(s, f):
    ps = []
    for p in s.a[0]:
        if p.op == 'one':
            ps.append(one(mul(p.a[0], f(p.a[1])), p.a[1]))
        else:
            dom, x, _, body = open_(p)
            ps.append(mk_for(dom, x, seq_filt(body, f)))
    return seq(ps)


def set_seq(v):
    if v.op == 'sremove':
        return seq_filt(set_seq(v.a[0]), lambda e: not_(eqv(e, v.a[1])))
    if v.op == 'set' and inj_seq(v.a[0]):
        return v.a[0]
    if v.op == 'set' and not v.a[0].a[0]:
        return v.a[0]
    if v.op == 'ite':
        return seq_cat(seq_guard(v.a[0], set_seq(v.a[1])), seq_guard(not_(v.a[0]), set_seq(v.a[2])))
    x = fresh('')
    return seq([mk_for(raw('elems', v), x, seq([one(ONE, x)]))])


def map_seq(v):
    """(key, value) pairs of a map"""
    if v.op == 'map' and (inj_seq(v.a[0], True) or not v.a[0].a[0]):
        return v.a[0]
    if v.op == 'ite':
        return seq_cat(seq_guard(v.a[0], map_seq(v.a[1])), seq_guard(not_(v.a[0]), map_seq(v.a[2])))
    if v.op in ('minsert', 'mremove'):
        k = v.a[1]
        rest = seq_filt(map_seq(v.a[0]), lambda e: not_(eqv(e.a[0], k)))
        if v.op == 'mremove':
            return rest
        return seq_cat(seq([one(ONE, raw('tuple', k, v.a[2]))]), rest)
    x = fresh('')
    return seq([mk_for(raw('elems', v), x, seq([one(ONE, raw('tuple', x, mk('mget', v, x)))]))])


@smart('set')
def mk_set(s):
    if len(s.a[0]) == 1 and s.a[0][0].op == 'for':
        p = s.a[0][0]
        if p.a[0].op == 'elems':
            dom, x, _, body = open_(p)
            if len(body.a[0]) == 1 and body.a[0][0].op == 'one' and const_of(body.a[0][0].a[0]) == 1 \
                    and body.a[0][0].a[1] is x:
                return dom.a[0] if dom.a[0].op != 'vec' else raw('set', s)
    # canonical order of the parts of a union of singletons
    ps = s.a[0]
    uniq = []
    for p in ps:
        if p not in uniq:
            uniq.append(p)
    uniq.sort(key=lambda t: t.id)
    return raw('set', seq(uniq))


@smart('map')
def mk_map(s):
    if len(s.a[0]) == 1 and s.a[0][0].op == 'for' and s.a[0][0].a[0].op == 'elems':
        dom, x, _, body = open_(s.a[0][0])
        if len(body.a[0]) == 1 and body.a[0][0].op == 'one' and const_of(body.a[0][0].a[0]) == 1:
            e = body.a[0][0].a[1]
            if e.op == 'tuple' and e.a[0] is x and e.a[1] is mk('mget', dom.a[0], x):
                return dom.a[0]
    return raw('map', s)


@smart('contains')
def mk_contains(c, e):
    if c.op == 'set':
        return seq_any(c.a[0], lambda y: eqv(y, e))
    if c.op == 'map':
        return seq_any(c.a[0], lambda y: eqv(y.a[0], e) if y.op == 'tuple' else raw('contains', c, e))
    if c.op == 'minsert':
        return or_(eqv(c.a[1], e), mk_contains(c.a[0], e))
    if c.op in ('mremove', 'sremove'):
        return mul(not_(eqv(c.a[1], e)), mk_contains(c.a[0], e))
    if c.op == 'ite':
        return add(mul(c.a[0], mk_contains(c.a[1], e)), mul(not_(c.a[0]), mk_contains(c.a[2], e)))
    if e.op == 'ite':
        return add(mul(e.a[0], mk_contains(c, e.a[1])), mul(not_(e.a[0]), mk_contains(c, e.a[2])))
    if e.op == 'nth' and e.a[0] is c:
        return ONE
    return raw('contains', c, e)


@smart('mget')
def mk_mget(m, k):
    if m.op == 'minsert':
        return ite(eqv(m.a[1], k), m.a[2], mk_mget(m.a[0], k))
    if m.op == 'mremove':
        return mk_mget(m.a[0], k)
    if m.op == 'ite':
        return ite(m.a[0], mk_mget(m.a[1], k), mk_mget(m.a[2], k))
    if m.op == 'map':
        s = m.a[0]
        if len(s.a[0]) > 1 and s.a[0][-1].op == 'one' and s.a[0][-1].a[1].op == 'tuple':
            # the last insertion of a key wins
            p = s.a[0][-1]
            return ite(mul(p.a[0], eqv(p.a[1].a[0], k)), p.a[1].a[1], mk_mget(mk_map(seq(s.a[0][:-1])), k))
        # {f(x): g(x)} at f(x0): solve when the key is the bound variable itself
        if len(s.a[0]) == 1:
            p = s.a[0][0]
            if p.op == 'one' and p.a[1].op == 'tuple' and const_of(p.a[0]) == 1 and p.a[1].a[0] is k:
                return p.a[1].a[1]
            if p.op == 'for':
                dom, x, _, body = open_(p)
                if len(body.a[0]) == 1 and body.a[0][0].op == 'one' and body.a[0][0].a[1].op == 'tuple':
                    kk, vv = body.a[0][0].a[1].a
                    sol = match_key(kk, k, x)
                    if sol is not None and inj_elem(kk, x, dom):
                        return subst(vv, {x: sol})
    return raw('mget', m, k)


def match_key(pat, k, x):
    """x such that pat(x) == k, when it can be read off"""
    if pat is x:
        return k
    if pat.op == k.op and pat.op == 'ctor' and len(pat.a) == len(k.a) == 3 and pat.a[:2] == k.a[:2]:
        return match_key(pat.a[2], k.a[2], x)
    if pat.op == 'nth' and pat.a[1] is x:
        if k.op == 'nth' and k.a[0] is pat.a[0]:
            return k.a[1]
        return mk('occ', pat.a[0], k)
    if pat.op == 'poly':
        l = lin_in(sub(pat, k), x)
        if l:
            return scale(l[1], -1 / l[0])
    return None


@smart('minsert')
def mk_minsert(m, k, v):
    if m.op in ('minsert', 'mremove') and m.a[1] is k:
        return mk_minsert(m.a[0], k, v)
    if m.op == 'ite':
        a, b = mk_minsert(m.a[1], k, v), mk_minsert(m.a[2], k, v)
        return ite(m.a[0], a, b)
    if m.op == 'map' and not m.a[0].a[0]:
        return raw('map', seq([one(ONE, raw('tuple', k, v))]))
    if m.op not in ('map',) and mk_mget(m, k) is v and const_of(mk_contains(m, k)) == 1:
        return m
    return raw('minsert', m, k, v)


@smart('mremove')
def mk_mremove(m, k):
    if m.op == 'minsert' and m.a[1] is k:
        return mk_mremove(m.a[0], k)
    if m.op == 'ite':
        return ite(m.a[0], mk_mremove(m.a[1], k), mk_mremove(m.a[2], k))
    return raw('mremove', m, k)


@smart('nth')
def mk_nth(s, i):
    if s.op == 'set' and len(s.a[0].a[0]) == 1 and s.a[0].a[0][0].op == 'one' and const_of(i) == 0:
        return s.a[0].a[0][0].a[1]
    if i.op == 'occ' and i.a[0] is s:
        return i.a[1]
    if s.op in ('vec', 'array'):
        return mk_idx(s, i)
    return raw('nth', s, i)


@smart('occ')
def mk_occ(s, e):
    if e.op == 'nth' and e.a[0] is s:
        return e.a[1]
    return raw('occ', s, e)


def eqv(a, b):
    """equality of two non-numeric values"""
    if a is b:
        return ONE
    if a.op == 'poly' or b.op == 'poly':
        return eq(a, b, True)
    if a.op == 'ite':
        return add(mul(a.a[0], eqv(a.a[1], b)), mul(not_(a.a[0]), eqv(a.a[2], b)))
    if b.op == 'ite':
        return eqv(b, a)
    if a.op == 'ctor' and b.op == 'ctor' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return ZERO
        return muls(ONE, *[eqv(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == 'tuple' and b.op == 'tuple':
        return muls(ONE, *[eqv(x, y) for x, y in zip(a.a, b.a)])
    if a.op == 'nth' and b.op == 'nth' and a.a[0] is b.a[0]:
        return eq(a.a[1], b.a[1], True)
    if (a.op in ('sym', 'fv') and len(a.a) > 1 and a.a[1] in ('u', 'i')) and \
            (b.op in ('sym', 'fv') and len(b.a) > 1 and b.a[1] in ('u', 'i')):
        return eq(a, b, True)
    if a.id > b.id:
        a, b = b, a
    return raw('eqv', a, b)


SMART['eqv'] = eqv


# ---------------------------------------------------------------- ite on any value
AGG = {'ctor', 'rec', 'tuple', 'vec', 'set', 'map', 'array', 'closure', 'ref', 'lazy', 'ite', 'minsert',
       'mremove', 'sremove', 'scat', 'upd', 'str', 'seq', 'bottom', 'entry', 'fnitem', 'fupd', 'vupd', 'sorted'}
SCAL = {'poly', 'pos', 'eq', 'is', 'b', 'nb', 'contains', 'any', 'eqv', 'P', 'sum', 'prod', 'inv', 'len', 'card', 'idiv',
        'imod', 'pow2', 'exp', 'ln', 'num', 'abs', 'bit', 'bor', 'band', 'bxor', 'bnot', 'qb', 'max', 'min', 'sign',
        'fn', 'fromf', 'rdiv', 'trunc', 'nanor', 'shr'}


def scalar(t):
    if t.op in SCAL:
        return True
    return t.op in ('sym', 'fv') and len(t.a) > 1 and t.a[1] in ('u', 'i', 'r')


DROP = [False]   # branches without a value are left out


def ite(c, x, y):
    if x is y:
        return x
    k = const_of(c)
    if k is not None:
        return x if k else y
    if DROP[0]:
        if x.op == 'bottom':
            return y
        if y.op == 'bottom':
            return x
    if (scalar(x) and y.op not in AGG) or (scalar(y) and x.op not in AGG) or (scalar(x) and scalar(y)):
        return add(mul(c, x), mul(not_(c), y))
    if x.op == y.op and x.op == 'ctor' and x.a[:2] == y.a[:2] and len(x.a) == len(y.a):
        return ctor(x.a[0], x.a[1], *[ite(c, p, q) for p, q in zip(x.a[2:], y.a[2:])])
    if x.op == y.op == 'tuple' and len(x.a) == len(y.a):
        return raw('tuple', *[ite(c, p, q) for p, q in zip(x.a, y.a)])
    if x.op == y.op == 'rec' and x.a[0] == y.a[0]:
        return raw('rec', x.a[0], x.a[1], tuple(ite(c, p, q) for p, q in zip(x.a[2], y.a[2])))
    if x.op == 'rec' and y.op not in AGG:
        return raw('rec', x.a[0], x.a[1], tuple(ite(c, p, raw('field', y, n)) for n, p in zip(x.a[1], x.a[2])))
    if y.op == 'rec' and x.op not in AGG:
        return ite(not_(c), y, x)
    if x.op == y.op == 'array' and len(x.a[0]) == len(y.a[0]):
        return raw('array', tuple(ite(c, p, q) for p, q in zip(x.a[0], y.a[0])))
    if x.op == y.op and x.op in ('vec', 'set'):
        a, b = x.a[0].a[0], y.a[0].a[0]
        n = 0
        if x.op == 'vec':
            while n < len(a) and n < len(b) and a[n] is b[n]:
                n += 1
            return mk_vec(seq_cat(seq(a[:n]), seq_guard(c, seq(a[n:])), seq_guard(not_(c), seq(b[n:]))))
        ca = [p for p in a if p in b]
        return mk_set(seq_cat(seq(ca), seq_guard(c, seq([p for p in a if p not in ca])),
                              seq_guard(not_(c), seq([p for p in b if p not in ca]))))
    if x.op in ('vec', 'set') and y.op not in AGG and y.op != 'post' or y.op in ('vec', 'set') and x.op not in AGG:
        v, o = (x, y) if x.op in ('vec', 'set') else (y, x)
        h = vec_seq(o).a[0] if v.op == 'vec' else set_seq(o).a[0]
        ps = v.a[0].a[0]
        if h[0] in ps:
            g = c if v is x else not_(c)
            rest = [p for p in ps if p is not h[0]]
            if v.op == 'set':
                return mk_set(seq_cat(seq(h), seq_guard(g, seq(rest))))
            if ps[0] is h[0]:
                return mk_vec(seq_cat(seq(h), seq_guard(g, seq(ps[1:]))))
    if x.op == 'scat' or y.op == 'scat':
        bx = x.a[0] if x.op == 'scat' else x
        by = y.a[0] if y.op == 'scat' else y
        if bx is by:
            sx = x.a[1] if x.op == 'scat' else seq([])
            sy = y.a[1] if y.op == 'scat' else seq([])
            a, b = sx.a[0], sy.a[0]
            n = 0
            while n < len(a) and n < len(b) and a[n] is b[n]:
                n += 1
            return mk_scat(bx, seq_cat(seq(a[:n]), seq_guard(c, seq(a[n:])), seq_guard(not_(c), seq(b[n:]))))
    if c.op == 'is' and y.op == 'ctor' and len(y.a) == 2 and x is c.a[0] and y.a[0] in ('Option',):
        return x
    # Shannon expansion on the least atom
    ats = sorted((a for a in top_atoms(c)), key=lambda t: t.id)
    roots = [t.a[0] for t in (x, y) if t.op == 'ite']
    top = min([ats[0]] + roots, key=lambda t: t.id)
    hi = ite(restrict(c, top, 1), restrict_v(x, top, 1), restrict_v(y, top, 1))
    lo = ite(restrict(c, top, 0), restrict_v(x, top, 0), restrict_v(y, top, 0))
    if hi is lo:
        return hi
    return raw('ite', top, hi, lo)


def _ite_smart(c, x, y):
    return ite(tobool(c), x, y)


SMART['ite'] = _ite_smart


def restrict(c, at, v):
    sb = {at: ONE if v else ZERO}
    if v and at.op == 'is':
        for o in top_atoms(c):
            if o.op == 'is' and o is not at and o.a[0] is at.a[0]:
                sb[o] = ZERO
    if v and at.op == 'eq':
        return subst(mul(at, c), sb)
    return poly_subst_top(c, sb)


def restrict_v(x, at, v):
    if x.op == 'ite':
        if x.a[0] is at:
            return x.a[1] if v else x.a[2]
        if v and at.op == 'is' and x.a[0].op == 'is' and x.a[0].a[0] is at.a[0]:
            return restrict_v(x.a[2], at, v)
        return x
    if x.op == 'poly' or x is at:
        return poly_subst_top(x, {at: ONE if v else ZERO}) if at in top_atoms(x) else x
    return x


# ---------------------------------------------------------------- enums, fields
VARIANTS = {}  # adt -> tuple of variant names


@smart('is')
def mk_is(x, v):
    if x.op == 'entry':
        return x.a[2] if v == 'Occupied' else not_(x.a[2])
    if x.op == 'ctor':
        return ONE if x.a[1] == v else ZERO
    if x.op == 'ite':
        return add(mul(x.a[0], mk_is(x.a[1], v)), mul(not_(x.a[0]), mk_is(x.a[2], v)))
    if v == 'None':
        return not_(mk_is(x, 'Some'))
    if v == 'Err':
        return not_(mk_is(x, 'Ok'))
    if v == 'Break':
        return not_(mk_is(x, 'Continue'))
    for adt, vs in VARIANTS.items():
        if len(vs) > 1 and v == vs[-1]:
            return sub(ONE, add(*[mk_is(x, o) for o in vs[:-1]]))
    return raw('is', x, v)


@smart('vf')
def mk_vf(x, v, i):
    if x.op == 'entry':
        return x
    if x.op == 'ctor':
        if x.a[1] == v:
            return x.a[2 + i]
        return raw('bottom')
    if x.op == 'ite':
        a, b = mk_vf(x.a[1], v, i), mk_vf(x.a[2], v, i)
        for y, g, o in ((x.a[1], x.a[0], b), (x.a[2], not_(x.a[0]), a)):
            # the branch cannot be of this variant
            if y.op not in ('ctor', 'ite', 'bottom') and const_of(mul(g, mk_is(y, v))) == 0:
                return o
        if a.op == 'bottom':
            return b
        if b.op == 'bottom':
            return a
        return ite(x.a[0], a, b)
    return raw('vf', x, v, i)


@smart('field')
def mk_field(x, n):
    if x.op == 'rec':
        if n in x.a[1]:
            return x.a[2][x.a[1].index(n)]
    if x.op == 'tuple' and isinstance(n, str) and n.isdigit():
        return x.a[int(n)]
    if x.op == 'ite':
        return ite(x.a[0], mk_field(x.a[1], n), mk_field(x.a[2], n))
    return raw('field', x, n)


@smart('rec')
def mk_rec(adt, names, vals):
    if vals and all(v.op == 'field' and v.a[1] == n for n, v in zip(names, vals)):
        b = vals[0].a[0]
        if all(v.a[0] is b for v in vals):
            return b
    return raw('rec', adt, names, vals)


# ---------------------------------------------------------------- integer ops
@smart('idiv')
def idiv(a, b):
    ca, cb = const_of(a), const_of(b)
    if cb:
        if ca is not None:
            q = abs(ca) // abs(cb)
            return num(q if (ca >= 0) == (cb > 0) else -q)
        if cb == 1:
            return a
        # n(n+-1)/2 is exact
        if cb == 2 and even_poly(a):
            return scale(a, F(1, 2))
        if all((c / cb).denominator == 1 for _, c in items(a)):
            return scale(a, 1 / cb)
    if a is b:
        return ONE
    return raw('idiv', a, b)


def even_poly(a):
    d = dict(items(a))
    for m, c in list(d.items()):
        if (c / 2).denominator == 1:
            d[m] = 0
    odd = {m: c for m, c in d.items() if c}
    # pairs x^2 and x with odd coefficients
    for m, c in odd.items():
        if len(m) == 1 and m[0][1] == 2:
            l = ((m[0][0], 1),)
            if l not in odd:
                return False
        elif len(m) == 1 and m[0][1] == 1:
            q = ((m[0][0], 2),)
            if q not in odd:
                return False
        else:
            return False
        if c.denominator != 1:
            return False
    return True


@smart('imod')
def imod(a, b):
    ca, cb = const_of(a), const_of(b)
    if cb:
        if ca is not None:
            import math
            return num(math.fmod(int(ca), int(cb)).__int__())
        if cb == 1:
            return ZERO
        if all(c.denominator == 1 and c % cb == 0 for _, c in items(a)):
            return ZERO
    return raw('imod', a, b)


@smart('pow2')
def pow2(k):
    c = const_of(k)
    if c is not None and 0 <= c < 200:
        return num(2 ** int(c))
    return raw('pow2', k)


# bits of bytes: a byte is seen through bit(a, m), m in 0..8
@smart('band')
def band(a, b):
    if a.op == 'pow2' or (const_of(a) is not None and const_of(b) is None):
        a, b = b, a
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return num(int(ca) & int(cb))
    if cb == 0:
        return ZERO
    if b.op == 'pow2':
        return mul(b, mk('bit', a, b.a[0]))
    if cb is not None and int(cb) & (int(cb) - 1) == 0:
        return scale(mk('bit', a, num(int(cb).bit_length() - 1)), cb)
    if cb is not None and int(cb) & (int(cb) + 1) == 0:
        return imod(a, num(cb + 1))
    return raw('band', a, b) if a.id < b.id else raw('band', b, a)


def _bitop(n):
    def f(a, b):
        if const_of(b) == 0:
            return a
        if const_of(a) == 0:
            return b
        if a is b:
            return a if n == 'bor' else ZERO
        if n == 'bxor':
            for p, q in ((a, b), (b, a)):
                if q.op == 'bxor' and p in q.a:
                    return q.a[1] if q.a[0] is p else q.a[0]
        return raw(n, a, b) if a.id < b.id else raw(n, b, a)
    return f


SMART['bor'] = _bitop('bor')
SMART['bxor'] = _bitop('bxor')


@smart('bnot')
def bnot(a):
    return a.a[0] if a.op == 'bnot' else raw('bnot', a)


@smart('shr')
def shr(a, k):
    return a if const_of(k) == 0 else raw('shr', a, k)


@smart('bit')
def bit(a, m):
    cm = const_of(m)
    if a.op == 'pow2':
        return eq(a.a[0], m, True)
    c = const_of(a)
    if c is not None and cm is not None:
        return num((int(c) >> int(cm)) & 1)
    if c is not None and c >= 0:
        r = ZERO
        for k in range(int(c).bit_length()):
            if int(c) >> k & 1:
                r = add(r, eq(m, num(k), True))
        return r
    if a.op == 'bor':
        return or_(bit(a.a[0], m), bit(a.a[1], m))
    if a.op == 'band':
        return mul(bit(a.a[0], m), bit(a.a[1], m))
    if a.op == 'bxor':
        x, y = bit(a.a[0], m), bit(a.a[1], m)
        return sub(add(x, y), scale(mul(x, y), 2))
    if a.op == 'bnot':
        return not_(bit(a.a[0], m))
    if a.op == 'shr':
        return bit(a.a[0], add(a.a[1], m))
    if a.op == 'poly':
        # [c]*x + [!c]*y picks one of two bytes
        bs = [t for t in top_atoms(a) if isbool(t)]
        if bs:
            b = min(bs, key=lambda t: t.id)
            x, y = restrict_v(a, b, 1), restrict_v(a, b, 0)
            return add(mul(b, bit(x, m)), mul(not_(b), bit(y, m)))
    if a.op == 'ite':
        return add(mul(a.a[0], bit(a.a[1], m)), mul(not_(a.a[0]), bit(a.a[2], m)))
    return raw('bit', a, m)


@smart('trunc')
def trunc(a):
    c = const_of(a)
    if c is not None:
        return num(int(c))
    return raw('trunc', a)


@smart('tof')
def tof(a):
    """a number of the coefficient type as a double: whole numbers beyond 2^53 are rounded"""
    c = const_of(a)
    if c is not None:
        return a if abs(c) < 2 ** 53 else raw('tof', a)
    if a.op == 'tof' or isbool(a):
        return a
    r = bool_expand(a, tof)
    if r is not None:
        return r
    if is_poly(a) and lead(a) < 0:
        return neg(tof(neg(a)))
    if a.op == 'abs' and a.a[0].op == 'tof':
        return a
    return raw('tof', a)


def strip_tof(p):
    """c*tof(x)+k has the sign of c*x+k, when k/c is small: rounding is monotone and keeps small numbers"""
    q, c0 = split_const(p)
    its = items(q)
    if len(its) == 1 and len(its[0][0]) == 1:
        (at, e), c = its[0][0][0], its[0][1]
        if e == 1 and abs(c0 / c) < 2 ** 53 and (at.op == 'tof' or at.op == 'abs' and at.a[0].op == 'tof'):
            x = at.a[0] if at.op == 'tof' else abs_(at.a[0].a[0])
            return add(scale(x, c), num(c0))
    return None


@smart('rdiv')
def rdiv(a, b):
    """division in a generic numeric type: exact or truncating, so only x/1 simplifies"""
    if const_of(b) == 1:
        return a
    if const_of(a) == 0:
        return ZERO
    return raw('rdiv', a, b)


@smart('abs')
def abs_(a):
    c = const_of(a)
    if c is not None:
        return num(abs(c))
    l = lead(a)
    if l is not None and l < 0:
        a = neg(a)
    if a.op == 'abs':
        return a
    return raw('abs', a)


def _comm(n):
    def f(a, b):
        x, y = const_of(a), const_of(b)
        if x is not None and y is not None:
            return num(max(x, y) if n == 'max' else min(x, y))
        if a is b:
            return a
        return raw(n, a, b) if a.id < b.id else raw(n, b, a)
    return f


SMART['max'] = _comm('max')
SMART['min'] = _comm('min')


@smart('inv')
def _inv(t):
    return inv(t)


@smart('pos')
def _pos(p, k):
    return pos(p, k == 'i')


@smart('eq')
def _eq(p):
    return eq0(p)


@smart('b')
def _b(x):
    return tobool(x)


@smart('nb')
def _nb(x):
    """a condition kept as one atom"""
    return tobool(x) if const_of(x) is not None else raw('nb', x)


@smart('card')
def _card(d):
    return card(d)


@smart('one')
def _one(g, e):
    return raw('one', tobool(g) if g.op == 'ite' else g, e)


def maxv(a, b, integer):
    g = lt(a, b, integer)
    return add(mul(g, b), mul(not_(g), a))


def minv(a, b, integer):
    g = lt(a, b, integer)
    return add(mul(g, a), mul(not_(g), b))


def call(fn, *args):
    return raw('call', fn, *args)


@smart('ctor')
def ctor(adt, v, *f):
    # eta: rebuilding a value from the fields of its own variant (downcasts are guarded)
    if f and f[0].op == 'vf' and all(x.op == 'vf' and x.a[1] == v and x.a[2] == i and x.a[0] is f[0].a[0]
                                     for i, x in enumerate(f)):
        return f[0].a[0]
    return raw('ctor', adt, v, *f)


def some(x):
    return ctor('Option', 'Some', x)


def tup(*a):
    return raw('tuple', *a)


ZERO = raw('poly', ())
ONE = raw('poly', (((), F(1)),))
NONE = raw('ctor', 'Option', 'None')
UNIT = raw('tuple')


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth - 1) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '…'
    if t.op == 'poly':
        if not t.a[0]:
            return '0'
        o = []
        for m, c in t.a[0]:
            s = '*'.join(show(at, depth - 1) + (f'^{e}' if e != 1 else '') for at, e in m)
            if not s:
                o.append(str(c))
            elif c == 1:
                o.append(s)
            elif c == -1:
                o.append('-' + s)
            else:
                o.append(f'{c}*{s}')
        return '(' + ' + '.join(o) + ')' if len(o) > 1 else o[0]
    if t.op in ('sym', 'fv'):
        return str(t.a[0])
    if t.op == 'bv':
        return f'#{t.a[0]}'
    if t.op == 'ctor':
        return t.a[1] + ('(' + ', '.join(show(x, depth - 1) for x in t.a[2:]) + ')' if len(t.a) > 2 else '')
    if t.op == 'rec':
        return t.a[0].split('::')[-1] + '{' + ', '.join(f'{n}:{show(v, depth-1)}' for n, v in zip(t.a[1], t.a[2])) + '}'
    if t.op == 'tuple':
        return '(' + ', '.join(show(x, depth - 1) for x in t.a) + ')'
    if t.op == 'field':
        return f'{show(t.a[0], depth-1)}.{t.a[1]}'
    if t.op == 'idx':
        return f'{show(t.a[0], depth-1)}[{show(t.a[1], depth-1)}]'
    if t.op == 'seq':
        return '[' + ', '.join(show(x, depth - 1) for x in t.a[0]) + ']'
    if t.op == 'one':
        return (f'{show(t.a[0], depth-1)}?' if const_of(t.a[0]) != 1 else '') + show(t.a[1], depth - 1)
    return t.op + '(' + ', '.join(show(x, depth - 1) if isinstance(x, (T, tuple)) else str(x) for x in t.a) + ')'


# ------------------------------------------------------------------ numeric casts
# value sets of the primitive numeric types: (signed bits) or mantissa bits
INTS = {'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63, 'i128': 127, 'isize': 63}
FLTS = {'f32': 24, 'f64': 53}


def lossless(a, b):
    """every value of type a is a value of type b"""
    if a == b:
        return True
    if a in INTS:
        return INTS[a] <= (INTS[b] if b in INTS else FLTS[b] if b in FLTS else -1)
    return a == 'f32' and b == 'f64'


def mk_cast(v, a, b):
    """v as b, where v has type a; casts that keep every value vanish"""
    if a == b or lossless(a, b):
        return v if a == b else v
    k = const_of(v) if v.op in ('poly', 'num') else None
    if k is not None and k.denominator == 1 and abs(k) < 128:
        return v
    if v.op == 'cast':
        c = v.a[1]
        # wrap twice = wrap once, when the first step is not the narrower one
        if c in INTS and a in INTS and b in INTS and INTS[a] >= INTS[b]:
            return raw('cast', v.a[0], c, b)
    return raw('cast', v, a, b)


NARROW = {'u8': (0, 8), 'i8': (1, 8), 'u16': (0, 16), 'i16': (1, 16), 'u32': (0, 32), 'i32': (1, 32)}
WIDTH = dict(NARROW, u64=(0, 64), i64=(1, 64), usize=(0, 64), isize=(1, 64), u128=(0, 128), i128=(1, 128))


@smart('wrap')
def wrap(v, b):
    """a whole number cut down to the integer type b"""
    c = const_of(v) if v.op in ('poly', 'num') else None
    if c is not None and c.denominator == 1:
        return num(wrapped(int(c), b))
    if isbool(v):
        return v
    if v.op == 'wrap' and WIDTH[v.a[1]][1] >= WIDTH[b][1]:
        return wrap(v.a[0], b)
    return raw('wrap', v, b)


def wrapped(v, b):
    s, k = WIDTH[b]
    v &= 2 ** k - 1
    return v - 2 ** k if s and v >> (k - 1) else v
