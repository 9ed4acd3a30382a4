"""Polynomial-identity testing of value graphs (random interpretation).

When two value graphs that should denote the same value have different normal
forms, they are compared under random valuations of their free symbols; only a
valuation that separates them is evidence of a difference (Gulwani & Necula,
"Discovering affine equalities using random interpretation").  The operands are
the extracted graphs, never the program.
"""
from fractions import Fraction as F
import bisect
import functools
import math
import hashlib
from terms import T
import terms as TM


class NoVal(Exception):
    """the graph has no value under this valuation (or no interpretation is known)"""


class Undef(NoVal):
    """partial operation outside its domain"""


class C:
    """enum value"""
    __slots__ = ('v', 'f')

    def __init__(self, v, *f):
        self.v, self.f = v, tuple(f)

    def __eq__(self, o):
        return isinstance(o, C) and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.v, self.f))

    def __repr__(self):
        return self.v.split('.')[-1] + ('(' + ', '.join(map(repr, self.f)) + ')' if self.f else '')


class R:
    """struct value"""
    __slots__ = ('t', 'd')

    def __init__(self, t, **d):
        self.t, self.d = t, d

    def __eq__(self, o):
        return isinstance(o, R) and self.t == o.t and self.d == o.d

    def __hash__(self):
        return hash((self.t, tuple(sorted((k, v) for k, v in self.d.items() if k != '_phantom'))
                     if False else tuple(self.d.items())))

    def __repr__(self):
        return self.t + '{' + ', '.join(f'{k}: {v!r}' for k, v in self.d.items() if not k.startswith('_')) + '}'

    def get(self, n):
        return self.d[n]


class M:
    """finite map; iteration order is the order of `ks`"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = dict(d)

    def __eq__(self, o):
        return isinstance(o, M) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __repr__(self):
        return '{' + ', '.join(f'{k!r}: {v!r}' for k, v in self.d.items()) + '}'


class Fn:
    """function value"""

    def __init__(self, f, name='f'):
        self.f, self.name = f, name

    def __repr__(self):
        return self.name


class Log(Fn):
    """a callback that only records its arguments"""

    def __init__(self, items=()):
        self.items = items
        self.f, self.name = (lambda *a: ()), 'log'

    def push(self, *a):
        return Log(self.items + (a,))


class Opq:
    """value of an uninterpreted operator"""
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return isinstance(o, Opq) and self.h == o.h

    def __hash__(self):
        return hash(self.h)

    def __repr__(self):
        return f'?{self.h % 9973}'


BOT = Opq(0)
SOME = lambda x: C('Some', x)
NONE = C('None')
ORDER = {}   # variant name -> position


def hsh(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'big')


def okey(v):
    """total order on values agreeing with derived Ord"""
    if isinstance(v, bool):
        return (0, int(v))
    if isinstance(v, (int, F, float)):
        return (0, v)
    if isinstance(v, str):
        return (1, v)
    if isinstance(v, tuple):
        return (2, tuple(okey(x) for x in v))
    if isinstance(v, C):
        return (3, ORDER.get(v.v, hsh(v.v)), tuple(okey(x) for x in v.f))
    if isinstance(v, R):
        return (4, tuple(okey(x) for x in v.d.values()))
    if isinstance(v, frozenset):
        return (5, tuple(sorted(okey(x) for x in v)))
    if isinstance(v, M):
        return (6, tuple(sorted((okey(k), okey(x)) for k, x in v.d.items())))
    return (9, hsh(repr(v)))


def ordered(s):
    return sorted(s, key=okey)


def bindval(t, v, env):
    """symbols of a symbolic argument take their value"""
    if t.op == 'sym':
        env[t.a[0]] = v
    elif t.op == 'b' and t.a[0].op == 'sym':
        env[t.a[0].a[0]] = int(v)
    elif t.op == 'rec':
        for n, x in zip(t.a[1], t.a[2]):
            bindval(x, v.d.get(n, ()), env)
    elif t.op == 'tuple' and isinstance(v, tuple):
        for x, y in zip(t.a, v):
            bindval(x, y, env)
    elif t.op == 'array':
        for x, y in zip(t.a[0], v):
            bindval(x, y, env)
    elif t.op == 'ctor' and isinstance(v, C):
        for x, y in zip(t.a[2:], v.f):
            bindval(x, y, env)


_free = {}


def free_levels(t):
    """levels of the bound variables that occur free in t"""
    r = _free.get(t)
    if r is not None:
        return r
    if t.op in ('bv', 'bs'):
        r = frozenset([t.a[0]])
    else:
        r = set()
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                r |= free_levels(x)
            elif isinstance(x, tuple):
                st.extend(x)
        if t.op in TM.BINDERS:
            # the domain is outside the binder
            r.discard(t.a[-1])
            r |= free_levels(t.a[0])
        r = frozenset(r)
    _free[t] = r
    return r


_cost = {}


def cost(t):
    """0 for graphs without calls and loops"""
    r = _cost.get(t)
    if r is None:
        r = 2 if t.op in ('call', 'post', 'app') else 1 if t.op in TM.BINDERS else 0
        st = list(t.a)
        while st and r < 2:
            x = st.pop()
            if isinstance(x, T):
                r = max(r, cost(x))
            elif isinstance(x, tuple):
                st.extend(x)
        _cost[t] = r
    return r


_plan = {}
_pc = {}


def pclass(at):
    r = _pc.get(at)
    if r is None:
        r = _pc[at] = 2 * cost(at) + (not TM.isbool(at))
    return r


LIMITS = {}     # comparison -> does it compare with a constant that no valuation may reach?
SEEN = {}       # comparison -> the differences seen


def big_constant(p):
    if p.op != 'poly':
        return False
    c = dict(p.a[0]).get((), 0)
    return len(p.a[0]) > 1 and 9 <= abs(c) <= 1 << 21 and c == int(c)


class Interp:
    lowered = {}

    def __init__(self, summaries=None, calls=None, seed=0, ints=False, steps=200000):
        self.summ = summaries     # fid -> run result, or None
        self.calls = calls or {}
        self.seed = seed
        self.ints = ints          # the generic number type truncates on division
        self.steps = steps
        self.fdepth = 0
        self.zdiv = False         # 1/0 is the infinity of the floats
        self.longest = 400        # of the ranges that are enumerated

    # -------------------------------------------------------------- driver
    def run(self, t, env):
        return self.ev(t, (env, {}, {}))

    def ev(self, t, cx):
        self.steps -= 1
        if self.steps < 0:
            raise NoVal('budget')
        op = t.op
        env, frames, memo = cx
        fl = free_levels(t)
        if fl:
            m = frames.get(min(fl))
            if m is None:
                raise NoVal('unbound level')
            m = m[2]
        else:
            m = memo
        r = m.get(t)
        if r is not None:
            if r.__class__ is Undef:
                raise Undef(*r.args)
            return r
        f = getattr(self, 'o_' + op, None)
        if f is None:
            raise NoVal('op ' + op)
        try:
            r = f(t, cx)
        except Undef as x:
            m[t] = Undef(*x.args)
            raise
        m[t] = r
        return r

    def n(self, t, cx):
        return self.numv(self.ev(t, cx))

    def numv(self, v):
        if isinstance(v, Opq):
            return BOT if v is BOT else F(v.h % 9 - 4)
        if isinstance(v, (tuple, C, R, M, frozenset, str)):
            raise NoVal(f'not a number: {v!r}'[:80])
        return v

    def truth(self, t, cx):
        v = self.ev(t, cx)
        if isinstance(v, Opq):
            return 0 if v is BOT else v.h & 1
        return 1 if v else 0

    # -------------------------------------------------------------- scalars
    def o_poly(self, t, cx):
        # cheap atoms first: what they gate off is never evaluated.  An atom without a value
        # stays an indeterminate; its coefficient has to vanish where it is not defined
        plan = _plan.get(t)
        if plan is None:
            cl = sorted({pclass(at) for m, _ in t.a[0] for at, _e in m})
            plan = _plan[t] = cl
        cur = {m: c for m, c in t.a[0]}
        if self.lowered:
            cur = {m: self.lowered.get(c, c) for m, c in t.a[0]}
        err, nan = None, False
        for k in plan:
            s = {}
            vals = {}
            for m, c in cur.items():
                rest = ()
                p = c
                for at, e in m:
                    if pclass(at) != k:
                        rest += ((at, e),)
                        continue
                    if (at, e) in vals:
                        v = vals[at, e]
                    else:
                        try:
                            v = self.n(at, cx)
                            if v is BOT:
                                raise Undef('bottom in arithmetic')
                            if e < 0:
                                if v == 0 and not self.zdiv:
                                    raise Undef('1/0')
                                v = float('inf') if v == 0 else F(1) / v if not isinstance(v, float) else 1 / v
                            if abs(e) != 1:
                                v = v ** abs(e)
                            if v != v:
                                nan = True
                                v = None
                        except Undef as x:
                            err = err or x
                            v = None
                        vals[at, e] = v
                    if v is None:
                        rest += ((at, e),)
                        continue
                    p = p * v
                    if p == 0:
                        break
                else:
                    s[rest] = s.get(rest, 0) + p
            cur = {m: c for m, c in s.items() if c != 0 or not m}
        if any(k for k in cur):
            if err is None and nan:
                return float('nan')
            if len(cur) > 1:
                # two atoms without a value may be the same one, written differently
                s = {}
                for m, c in cur.items():
                    k = tuple(sorted(repr((self.shape(at, cx), e)) for at, e in m))
                    s[k] = s.get(k, 0) + c
                cur = {k: c for k, c in s.items() if c != 0 or not k}
            if any(k for k in cur):
                raise err
        s = cur.get((), 0)
        if isinstance(s, F) and s.denominator == 1:
            return int(s)
        return s

    def shape(self, t, cx):
        """what an expression without a value is made of"""
        if isinstance(t, tuple):
            return tuple(self.shape(x, cx) for x in t)
        if not isinstance(t, T):
            return repr(t)
        try:
            return repr(self.ev(t, cx))
        except Undef:
            pass
        except NoVal:
            if self.steps < 0:
                raise
            return ('t', t.id)
        if t.op == 'poly':
            return ('poly',) + tuple(sorted(repr((tuple((self.shape(at, cx), e) for at, e in m), c)) for m, c in t.a[0]))
        return (t.op,) + tuple(self.shape(x, cx) for x in t.a)

    def o_sym(self, t, cx):
        n = t.a[0]
        env = cx[0]
        if n in env:
            return env[n]
        if n == 'uninit':
            return Opq(hsh(self.seed, n))
        if n == 'inf':
            raise NoVal('unbounded')
        if n.endswith('::NAN'):
            return float('nan')
        if n.endswith('INFINITY'):
            return F(10 ** 33) * (-1 if n.endswith('NEG_INFINITY') else 1)
        if n.endswith('::EPSILON'):
            return F(1, 2 ** 52)
        if n.endswith('::MAX') or n.endswith('::MIN'):
            ty = n.split('::')[0]
            if ty in ('usize', 'u64'):
                return 2 ** 64 - 1
            if ty in ('f64', 'f32', 'Real', 'R'):
                return F(10 ** 30) * (1 if n.endswith('X') else -1)
            if ty[0] in 'iu' and ty[1:].isdigit():
                b = int(ty[1:]) - (ty[0] == 'i')
                return 2 ** b - 1 if n.endswith('X') else -2 ** b
            return F(10 ** 30) * (1 if n.endswith('X') else -1)
        if n.startswith('static:') or n.startswith('const:') or n.startswith('default:'):
            return Opq(hsh(n))
        raise NoVal('no value for ' + n)

    def o_b(self, t, cx):
        return self.truth(t.a[0], cx)

    o_nb = o_b

    def o_pos(self, t, cx):
        return int(self.cmp0(self.limit(t, self.n(t.a[0], cx))) > 0)

    def limit(self, t, v):
        """comparisons with a large constant: note what was compared (see core.test)"""
        c = LIMITS.get(t)
        if c is None:
            c = LIMITS[t] = big_constant(t.a[0]) if len(t.a) == 1 or t.op == 'pos' else t.a[1].op == 'poly' and \
                9 <= (TM.const_of(t.a[1]) or 0) <= 10 ** 6 and not (t.op == 'imod' and TM.const_of(t.a[1]) in (256, 65536))
        if c and not self.lowered and not isinstance(v, Opq):
            SEEN.setdefault(t, []).append(v)
        return v

    def cmp0(self, v):
        if v is BOT:
            raise Undef('bottom compared')
        if isinstance(v, float):
            if v != v:
                raise Undef('nan')
            return 0 if abs(v) < self.eps else v
        return v

    def o_eq(self, t, cx):
        return int(self.cmp0(self.limit(t, self.n(t.a[0], cx))) == 0)

    def o_idiv(self, t, cx):
        a, b = self.n(t.a[0], cx), self.n(t.a[1], cx)
        if b == 0:
            raise Undef('/0')
        self.limit(t, a - b + 1)
        q = abs(a) // abs(b)
        return int(q if (a >= 0) == (b > 0) else -q)

    def o_imod(self, t, cx):
        a, b = self.n(t.a[0], cx), self.n(t.a[1], cx)
        if b == 0:
            raise Undef('%0')
        self.limit(t, a - b + 1)
        return int(math.fmod(a, b)) if abs(a) < 2 ** 50 else (abs(a) % abs(b)) * (1 if a >= 0 else -1)

    def o_pow2(self, t, cx):
        k = self.n(t.a[0], cx)
        if k < 0 or k > 4000:
            raise Undef('2^k')
        return 2 ** int(k)

    def o_band(self, t, cx):
        return int(self.n(t.a[0], cx)) & int(self.n(t.a[1], cx))

    def o_bor(self, t, cx):
        return int(self.n(t.a[0], cx)) | int(self.n(t.a[1], cx))

    def o_bxor(self, t, cx):
        return int(self.n(t.a[0], cx)) ^ int(self.n(t.a[1], cx))

    def o_bnot(self, t, cx):
        return int(self.n(t.a[0], cx)) ^ 255

    def o_shr(self, t, cx):
        return int(self.n(t.a[0], cx)) >> int(self.n(t.a[1], cx))

    def o_bit(self, t, cx):
        return (int(self.n(t.a[0], cx)) >> int(self.n(t.a[1], cx))) & 1

    def o_trunc(self, t, cx):
        return int(self.n(t.a[0], cx))

    def o_inv(self, t, cx):
        v = self.n(t.a[0], cx)
        if v == 0:
            if self.zdiv:
                return float('inf')
            raise Undef('1/0')
        return F(1) / v if not isinstance(v, float) else 1 / v

    def o_rdiv(self, t, cx):
        a, b = self.n(t.a[0], cx), self.n(t.a[1], cx)
        if b == 0:
            raise Undef('/0')
        self.limit(t, a - b + 1)
        if self.ints:
            q = abs(a) // abs(b)
            return int(q if (a >= 0) == (b > 0) else -q)
        return F(a) / b if not isinstance(a, float) and not isinstance(b, float) else a / b

    def o_wrap(self, t, cx):
        return TM.wrapped(int(self.n(t.a[0], cx)), t.a[1])

    def o_tof(self, t, cx):
        v = self.n(t.a[0], cx)
        if isinstance(v, (int, F)) and v.denominator == 1 and abs(v) > 2 ** 53 and abs(v) < 2 ** 1000:
            return F(float(v))
        return v

    def o_abs(self, t, cx):
        return abs(self.n(t.a[0], cx))

    def clamp(self, t, a, b):
        """a value bounded by a large constant: note the difference (see core.test)"""
        c = LIMITS.get(t)
        if c is None:
            x, y = TM.const_of(t.a[0]), TM.const_of(t.a[1])
            ok = [z is not None and 9 <= abs(z) <= 1 << 21 and z == int(z) for z in (x, y)]
            c = LIMITS[t] = 1 + ok.index(True) if any(ok) and not (x is not None and y is not None) else 0
        if c and not self.lowered and a == a and b == b:
            SEEN.setdefault(t, []).append(b - a if c == 1 else a - b)

    def o_max(self, t, cx):
        a, b = self.n(t.a[0], cx), self.n(t.a[1], cx)
        self.clamp(t, a, b)
        if a != a:
            return b
        if b != b:
            return a
        return max(a, b)

    def o_min(self, t, cx):
        a, b = self.n(t.a[0], cx), self.n(t.a[1], cx)
        self.clamp(t, a, b)
        if a != a:
            return b
        if b != b:
            return a
        return min(a, b)

    def o_nanor(self, t, cx):
        return float('nan') if not self.ints else self.n(t.a[0], cx)

    def o_finite(self, t, cx):
        v = self.n(t.a[0], cx)
        return int(not isinstance(v, float) or math.isfinite(v))

    def o_isnan(self, t, cx):
        v = self.n(t.a[0], cx)
        return int(v != v)

    def o_cast(self, t, cx):
        v, a, b = self.n(t.a[0], cx), t.a[1], t.a[2]
        if b in TM.INTS:
            k = TM.INTS[b]
            if a in TM.FLTS:
                if v != v:
                    return 0
                v = math.trunc(v) if abs(v) != math.inf else (2 ** 200 if v > 0 else -2 ** 200)
                return max(-2 ** k, min(2 ** k - 1, v))
            v = int(v) & (2 ** (k + 1) - 1)
            return v - 2 ** (k + 1) if v >> k else v
        import struct
        try:
            v = float(v)
            return F(struct.unpack('f', struct.pack('f', v))[0]) if b == 'f32' else F(v)
        except (OverflowError, ValueError):
            raise NoVal('float range')

    def o_fromf(self, t, cx):
        v = self.n(t.a[0], cx)
        return int(v) if self.ints else v

    def o_fn(self, t, cx):
        n = t.a[0]
        a = [self.n(x, cx) for x in t.a[1:]]
        try:
            if n == 'exp':
                return math.exp(a[0])
            if n == 'ln':
                return math.log(a[0])
            if n in ('sqrt', 'log2', 'log10'):
                return getattr(math, n)(a[0])
            if n in ('powf', 'powi', 'pow'):
                return a[0] ** a[1]
            if n in ('floor', 'ceil', 'trunc'):
                return F(getattr(math, n)(a[0]))
            if n == 'fract':
                return a[0] - math.trunc(a[0])
            if n == 'signum':
                return F(-1 if a[0] < 0 else 1)
            if n == 'round':
                return F(math.floor(abs(a[0]) + F(1, 2)) * (-1 if a[0] < 0 else 1))
            if n == 'count_ones':
                return bin(int(a[0])).count('1')
            if n == 'leading_zeros':
                return int(a[1]) - int(a[0]).bit_length()
            if n == 'trailing_zeros':
                return (int(a[0]) & -int(a[0])).bit_length() - 1 if a[0] else int(a[1])
            if n == 'next_power_of_two':
                return 1 << max(0, int(a[0]) - 1).bit_length()
            if n == 'exp2':
                return 2.0 ** float(a[0])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undef(n)
        return Opq(hsh(n, a))

    # -------------------------------------------------------------- data
    def o_bottom(self, t, cx):
        return BOT

    def o_unk(self, t, cx):
        raise NoVal('unknown construct')

    def o_str(self, t, cx):
        return str(t.a[0])

    def o_ctor(self, t, cx):
        return C(t.a[1], *[self.ev(x, cx) for x in t.a[2:]])

    def o_is(self, t, cx):
        v = self.ev(t.a[0], cx)
        if isinstance(v, C):
            return int(v.v == t.a[1])
        if v is BOT:
            return 0
        raise NoVal(f'variant of {v!r}'[:60])

    def o_vf(self, t, cx):
        v = self.ev(t.a[0], cx)
        if v is BOT:
            return BOT
        if isinstance(v, C):
            if v.v != t.a[1]:
                return BOT
            return v.f[t.a[2]]
        raise NoVal(f'payload of {v!r}'[:60])

    def o_field(self, t, cx):
        v = self.ev(t.a[0], cx)
        if isinstance(v, R):
            return v.d[t.a[1]]
        if isinstance(v, tuple):
            return v[int(t.a[1])]
        if v is BOT:
            return BOT
        raise NoVal(f'field {t.a[1]} of {v!r}'[:60])

    def o_rec(self, t, cx):
        r = R(t.a[0])
        for n, x in zip(t.a[1], t.a[2]):
            r.d[n] = self.ev(x, cx)
        return r

    def o_fupd(self, t, cx):
        v = self.ev(t.a[0], cx)
        r = R(v.t, **v.d)
        r.d[t.a[1]] = self.ev(t.a[2], cx)
        return r

    def o_vupd(self, t, cx):
        v = self.ev(t.a[0], cx)
        if v.v != t.a[1]:
            return v
        l = list(v.f)
        l[t.a[2]] = self.ev(t.a[3], cx)
        return C(v.v, *l)

    def o_tuple(self, t, cx):
        return tuple(self.ev(x, cx) for x in t.a)

    def o_array(self, t, cx):
        return tuple(self.ev(x, cx) for x in t.a[0])

    def o_ite(self, t, cx):
        return self.ev(t.a[1] if self.truth(t.a[0], cx) else t.a[2], cx)

    def o_eqv(self, t, cx):
        a, b = self.ev(t.a[0], cx), self.ev(t.a[1], cx)
        return int(a == b)

    def o_closure(self, t, cx):
        return Opq(hsh('closure', t.a[0]))

    def o_fnitem(self, t, cx):
        return Opq(hsh('fnitem', t.a[0]))

    # -------------------------------------------------------------- sequences
    def items(self, t, cx):
        """elements of a 'seq' term"""
        v = t
        if t.op == 'seq':
            out = []
            for p in t.a[0]:
                if p.op == 'one':
                    if self.truth(p.a[0], cx):
                        out.append(self.ev(p.a[1], cx))
                elif p.op == 'for':
                    try:
                        it = list(self.loop(p, cx))
                    except Undef:
                        if not self.off(p.a[1], cx):
                            raise
                        continue
                    for c2 in it:
                        out.extend(self.items(p.a[1], c2))
                else:
                    raise NoVal('part ' + p.op)
            return out
        if t.op == 'ite':
            return self.items(t.a[1] if self.truth(t.a[0], cx) else t.a[2], cx)
        if t.op == 'seqtail':
            return self.items(t.a[0], cx)[1:]
        if t.op == 'call' and t.a[0] in ('take', 'skip', 'rev', 'zip', 'step_by'):
            l = self.items(t.a[1], cx)
            if t.a[0] == 'rev':
                return l[::-1]
            if t.a[0] == 'zip':
                return list(zip(l, self.items(t.a[2], cx)))
            k = int(self.n(t.a[2], cx))
            return l[:k] if t.a[0] == 'take' else l[k:] if t.a[0] == 'skip' else l[::k]
        v = self.ev(t, cx)
        return self.elements(v)

    def off(self, s, cx):
        """no part is present, whatever the element"""
        for p in s.a[0]:
            if p.op == 'for':
                if not self.off(p.a[1], cx):
                    return False
                continue
            g = p.a[0]
            mons = [[(at, e) for at, e in m] for m, _ in g.a[0]] if g.op == 'poly' else [[(g, 1)]]
            for m in mons:
                for at, _e in m:
                    try:
                        if self.ev(at, cx) == 0:
                            break
                    except NoVal:
                        pass
                else:
                    return False
        return True

    def o_seq(self, t, cx):
        return tuple(self.items(t, cx))

    o_seqtail = o_seq

    def elements(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, frozenset):
            return ordered(v)
        if isinstance(v, M):
            return list(v.d)
        if isinstance(v, R) and v.t == 'Range' and v.get('end') - v.get('start') < 500:
            return list(range(v.get('start'), v.get('end')))
        if isinstance(v, R) and v.t == 'RangeFrom' and self.inf_ok:
            return list(range(v.get('start'), v.get('start') + 60))
        if isinstance(v, R) and self.walker is not None:
            return list(self.walker(self, v))
        if v is BOT:
            raise Undef('elements of bottom')
        raise NoVal(f'elements of {v!r}'[:60])

    def dom(self, d, cx):
        if d.op == 'range':
            if d.a[1].op == 'sym' and d.a[1].a[0] == 'inf':
                lo = int(self.n(d.a[0], cx))

                def g():
                    for i in range(lo, lo + 500):
                        yield i
                    raise NoVal('unbounded')
                return g()
            lo, hi = self.n(d.a[0], cx), self.n(d.a[1], cx)
            if lo is BOT or hi is BOT:
                raise Undef('bottom in a range')
            if hi - lo > self.longest:
                raise NoVal('long range')
            return range(int(lo), int(hi))
        if d.op == 'elems':
            return self.elements(self.ev(d.a[0], cx))
        if d.op == 'enum':
            return list(enumerate(self.items(d.a[0], cx)))
        if d.op == 'nat':
            def g():
                for i in range(400):
                    yield i
                raise NoVal('unbounded')
            return g()
        if d.op in ('seq', 'ite'):
            return self.items(d, cx)
        return self.elements(self.ev(d, cx))

    def loop(self, t, cx, states=None):
        env, frames, memo = cx
        lvl = t.a[-1]
        for x in self.dom(t.a[0], cx):
            fr = dict(frames)
            # an iteration invalidates what was computed for inner levels
            fr[lvl] = (x, states, {})
            yield (env, fr, memo)

    def o_bv(self, t, cx):
        return cx[1][t.a[0]][0]

    def o_bs(self, t, cx):
        s = cx[1][t.a[0]][1]
        return s[t.a[1]]

    def o_sum(self, t, cx):
        s = 0
        for c in self.loop(t, cx):
            v = self.n(t.a[1], c)
            if v is BOT:
                raise Undef('bottom')
            s += v
        return s

    def o_prod(self, t, cx):
        s = 1
        for c in self.loop(t, cx):
            v = self.n(t.a[1], c)
            if v is BOT:
                raise Undef('bottom')
            s *= v
        return s

    def o_any(self, t, cx):
        for c in self.loop(t, cx):
            if self.truth(t.a[1], c):
                return 1
        return 0

    def o_first(self, t, cx):
        for c in self.loop(t, cx):
            if self.truth(t.a[1], c):
                return self.ev(t.a[2], c)
        return BOT

    def o_fold(self, t, cx):
        dom, ini, nx, lvl = t.a
        st = tuple(self.ev(x, cx) for x in ini)
        env, frames, memo = cx
        if dom.op == 'nat':
            same = 0
            for i in range(self.longest):
                fr = dict(frames)
                fr[lvl] = (i, st, {})
                s2 = tuple(self.ev(x, (env, fr, memo)) for x in nx)
                if s2 == st:
                    return st[0]
                st = s2
            raise NoVal('unbounded loop')
        for x in self.dom(dom, cx):
            fr = dict(frames)
            fr[lvl] = (x, st, {})
            c2 = (env, fr, memo)
            st = tuple(self.alive(y, c2) for y in nx)
        return st[0]

    def alive(self, t, cx):
        """a state that has no value where the loop is left"""
        try:
            return self.ev(t, cx)
        except Undef as x:
            if 'bottom' not in str(x):
                raise
            return BOT

    def o_card(self, t, cx):
        d = t.a[0]
        if d.op == 'range':
            return max(0, int(self.n(d.a[1], cx) - self.n(d.a[0], cx)))
        return len(list(self.dom(d, cx)))

    # -------------------------------------------------------------- collections
    def o_vec(self, t, cx):
        return tuple(self.items(t.a[0], cx))

    def o_set(self, t, cx):
        return frozenset(self.items(t.a[0], cx))

    def o_map(self, t, cx):
        d = {}
        for e in self.items(t.a[0], cx):
            d[e[0]] = e[1]
        return M(d)

    def o_len(self, t, cx):
        v = self.ev(t.a[0], cx)
        if isinstance(v, M):
            return len(v.d)
        if isinstance(v, R) and v.t == 'Range':
            return max(0, v.get('end') - v.get('start'))
        if isinstance(v, R) and v.t == 'RangeFrom' and self.inf_ok:
            return 60
        if isinstance(v, (tuple, frozenset, str)):
            return len(v)
        if v is BOT:
            return 0   # on a path that is never taken
        if isinstance(v, R) and self.walker is not None:
            return len(self.elements(v))
        raise NoVal(f'length of {v!r}'[:60])

    def o_idx(self, t, cx):
        v = self.ev(t.a[0], cx)
        i = self.n(t.a[1], cx)
        if isinstance(v, Opq):
            if v is BOT:
                raise Undef('bottom')
            return hsh(v.h, int(i)) % 256
        if isinstance(v, M):
            return v.d[i]
        if isinstance(v, R) and self.walker is not None:
            v = tuple(self.elements(v))
        if not isinstance(v, tuple):
            raise NoVal('index')
        if i < 0 or i >= len(v):
            if self.lenient:
                return 0
            raise Undef('index out of range')
        return v[int(i)]

    lenient = False     # reads outside of a vector give some value

    def o_nth(self, t, cx):
        v = self.elements(self.ev(t.a[0], cx))
        i = self.n(t.a[1], cx)
        if i < 0 or i >= len(v):
            raise Undef('position out of range')
        return v[int(i)]

    def o_occ(self, t, cx):
        v = self.elements(self.ev(t.a[0], cx))
        e = self.ev(t.a[1], cx)
        if e not in v:
            raise Undef('not an element')
        return v.index(e)

    def o_scat(self, t, cx):
        v = list(self.ev(t.a[0], cx))
        for i, d in self.items(t.a[1], cx):
            if not 0 <= i < len(v):
                raise Undef('index out of range')
            v[int(i)] = self.numv(v[int(i)]) + self.numv(d)
        return tuple(v)

    def o_upd(self, t, cx):
        v = self.ev(t.a[0], cx)
        i = self.n(t.a[1], cx)
        if isinstance(v, Opq):
            raise NoVal('update of an opaque value')
        v = list(v)
        if not 0 <= i < len(v):
            raise Undef('index out of range')
        v[int(i)] = self.ev(t.a[2], cx)
        return tuple(v)

    def o_contains(self, t, cx):
        v = self.ev(t.a[0], cx)
        e = self.ev(t.a[1], cx)
        if isinstance(v, M):
            return int(e in v.d)
        if isinstance(v, (frozenset, tuple)):
            return int(e in v)
        raise NoVal('contains')

    def o_mget(self, t, cx):
        v = self.ev(t.a[0], cx)
        if v is BOT:
            return BOT
        return v.d.get(self.ev(t.a[1], cx), BOT)

    def o_minsert(self, t, cx):
        v = self.ev(t.a[0], cx)
        d = dict(v.d)
        d[self.ev(t.a[1], cx)] = self.ev(t.a[2], cx)
        return M(d)

    def o_mremove(self, t, cx):
        v = self.ev(t.a[0], cx)
        d = dict(v.d)
        d.pop(self.ev(t.a[1], cx), None)
        return M(d)

    def o_sremove(self, t, cx):
        return self.ev(t.a[0], cx) - {self.ev(t.a[1], cx)}

    def o_sorted(self, t, cx):
        return tuple(ordered(self.ev(t.a[0], cx)))

    def ext(self, t, cx, f):
        l = self.items(t.a[0], cx)
        if not l:
            return BOT
        r = l[0]
        for x in l[1:]:
            if (okey(x) >= okey(r)) if f == 'max' else (okey(x) < okey(r)):
                r = x
        return r

    def o_smax(self, t, cx):
        return self.ext(t, cx, 'max')

    def o_smin(self, t, cx):
        return self.ext(t, cx, 'min')

    def o_elems(self, t, cx):
        return self.ev(t.a[0], cx)

    def o_range(self, t, cx):
        return tuple(self.dom(t, cx))

    def o_enum(self, t, cx):
        return tuple(enumerate(self.items(t.a[0], cx)))

    # -------------------------------------------------------------- calls
    def o_app(self, t, cx):
        f = self.ev(t.a[0], cx)
        args = [self.ev(x, cx) for x in t.a[1:]]
        if isinstance(f, Fn):
            return f.f(*args)
        raise NoVal('application')

    def o_call(self, t, cx):
        return self.docall(t, cx)[0]

    def o_post(self, t, cx):
        c = t.a[0]
        if c.op == 'app':
            if t.a[1] == -1:
                f = self.ev(c.a[0], cx)
                return f.push(*[self.ev(x, cx) for x in c.a[1:]]) if isinstance(f, Log) else f
            return self.ev(c.a[t.a[1] + 1] if t.a[1] + 1 < len(c.a) else c.a[0], cx)
        r = self.docall(c, cx)[1]
        if r is None:
            return Opq(hsh('post', self.uargs(c, cx), t.a[1]))
        return r(t.a[1])

    def uargs(self, c, cx):
        return (c.a[0],) + tuple(okey(self.ev(x, cx)) if isinstance(x, T) else x for x in c.a[1:])

    def docall(self, c, cx):
        """(value, after-state getter)"""
        name = c.a[0]
        if name in ('take', 'skip', 'rev', 'zip', 'step_by') and c.a[1].op in ('seq', 'call', 'ite', 'seqtail'):
            return tuple(self.items(c, cx)), None
        h = self.calls.get(name)
        if h is not None:
            args = [self.ev(x, cx) for x in c.a[1:]]
            r = h(self, *args)
            if r is not NotImplemented:
                if isinstance(r, After):
                    return r.ret, lambda i: r.after[i]
                return r, lambda i: args[i]
        if self.summ is not None:
            args = s = None
            if self.spec is not None:
                args = [self.ev(x, cx) for x in c.a[1:]]
                s = self.spec(name, args)
            s = s or self.summ(name)
            if s is not None:
                args = args or [self.ev(x, cx) for x in c.a[1:]]
                env = {}
                for k in self.passenv:
                    if k in cx[0]:
                        env[k] = cx[0][k]
                for (i, p), v in zip(s['args'].items(), args):
                    bindval(p, v, env)
                if self.fdepth > 60:
                    raise NoVal('recursion')
                c2 = (env, {}, {})
                self.fdepth += 1
                try:
                    for a in s['st'].asserts:
                        if not self.truth(a, c2):
                            raise Undef('refused')
                    r = self.ev(s['ret'], c2)
                finally:
                    self.fdepth -= 1
                return r, lambda i: self.ev(s['after'][i], c2)
        if name == 'discr':
            v = self.ev(c.a[1], cx)
            if isinstance(v, C) and v.v in ORDER:
                return ORDER[v.v], None
        if name in ('rand',):
            return F(hsh(self.seed, self.uargs(c, cx)) % 997, 997), None
        if name == 'cmp' or name == 'partial_cmp':
            a, b = okey(self.ev(c.a[1], cx)), okey(self.ev(c.a[2], cx))
            r = C('Less') if a < b else C('Equal') if a == b else C('Greater')
            return (r if name == 'cmp' else SOME(r)), None
        if name.startswith('rel.'):
            a, b = okey(self.ev(c.a[1], cx)), okey(self.ev(c.a[2], cx))
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}.get(name[4:], False)), None
        if name in ('sort_by', 'sort_by_key', 'starts_with', 'ends_with', 'binary_search'):
            return self.onvec(name, *[self.ev(x, cx) for x in c.a[1:]]), None
        if name.startswith('?'):
            raise NoVal('call ' + name)
        return Opq(hsh(self.seed, self.uargs(c, cx))), None

    def onvec(self, name, v, w):
        if not isinstance(v, tuple) or not isinstance(w, tuple) and name != 'binary_search':
            raise NoVal(f'{name} of {v!r}'[:60])
        if name == 'sort_by_key':
            return tuple(v[i] for i in sorted(range(len(v)), key=lambda i: okey(w[i])))
        if name == 'sort_by':
            n = len(v)
            sign = {'Less': -1, 'Equal': 0, 'Greater': 1}
            cmp = [[sign[w[i * n + j].v] for j in range(n)] for i in range(n)]
            return tuple(v[i] for i in sorted(range(n), key=functools.cmp_to_key(lambda i, j: cmp[i][j])))
        if name == 'starts_with':
            return int(v[:len(w)] == w)
        if name == 'ends_with':
            return int(not w or v[-len(w):] == w)
        ks = [okey(x) for x in v]
        k = okey(w)
        if k in ks:
            if ks.count(k) > 1:
                raise NoVal('several of them')
            return C('Ok', ks.index(k))
        return C('Err', bisect.bisect_left(ks, k))

    passenv = ()
    spec = None
    walker = None
    inf_ok = False   # an unbounded range stands for its first 60 items
    eps = 1e-12


class After:
    def __init__(self, ret, *after):
        self.ret, self.after = ret, after
