"""Models of the standard-library and dependency functions the crates call."""
from terms import *
import terms as TM
from load import short, tshow

REAL = 'variable::Real'


def last2(s):
    if s.startswith('<'):
        # <T as Trait>::m
        i = s.rfind('>::')
        inner = s[1:i]
        m = s[i + 3:]
        o = inner.split(' as ')[-1] if ' as ' in inner else inner
        import re
        o = re.sub(r'<.*', '', o)
        return short(o), m
    p = s.split('::')
    return (p[-2] if len(p) > 1 else ''), p[-1]


def unref(t):
    while t is not None and t[0] == 'ref':
        t = t[2]
    return t


def elemty(ev, t):
    """element type of a container or iterator type, when it shows"""
    t = unref(t)
    if t is None:
        return None
    if t[0] in ('slice', 'array'):
        return t[1]
    if t[0] == 'adt':
        n = short(t[1])
        if n in ('Vec', 'BTreeSet', 'HashSet', 'Option', 'VecDeque') and t[2]:
            return t[2][0]
        if n in ('HashMap', 'BTreeMap'):
            return ('tuple', (t[2][0], t[2][1]))
        if n == 'Range' and t[2]:
            return t[2][0]
        if n in ('Cloned', 'Copied', 'Rev', 'Take', 'Skip', 'Peekable', 'StepBy') and t[2]:
            return elemty(ev, t[2][0])
        if n in ('Iter', 'IntoIter', 'IterMut', 'Union') and t[2]:
            if 'hash' in t[1] and 'map' in t[1] and len([x for x in t[2]]) > 1:
                return ('tuple', tuple(t[2][-2:]))
            return t[2][-1] if 'Union' != n else t[2][0]
        if n == 'Enumerate' and t[2]:
            e = elemty(ev, t[2][0])
            return ('tuple', (('prim', 'usize'), e)) if e else None
    return None


def b2v(b):
    return b


class M:
    """one call"""

    def __init__(self, ev, e, args, ga, st, fr, rt, ats):
        self.ev, self.e, self.args, self.ga, self.st, self.fr, self.rt, self.ats = ev, e, args, ga, st, fr, rt, ats

    def v(self, i):
        return self.ev.val(self.args[i], self.st)

    def pl(self, i):
        """the place behind a &mut argument"""
        ev, st = self.ev, self.st
        a = self.args[i]
        p = ev.refplace(a)
        n = 0
        while p is not None and n < 6:
            v = ev.read(p, st)
            q = ev.refplace(v)
            if q is None:
                return p
            p = q
            n += 1
        return p

    def put(self, i, v):
        p = self.pl(i)
        if p is None:
            self.ev.unk('mutating call on a value', self.e.get('sp', ''))
            return
        self.ev.write(p, v, self.st)

    def at(self, i):
        return unref(self.ats[i]) if i < len(self.ats) and self.ats[i] is not None else None

    def seq(self, i):
        return self.ev.iterseq(self.args[i], self.ats[i] if i < len(self.ats) else None, self.st)

    def et(self, i=0):
        return elemty(self.ev, self.at(i))

    def app(self, f, *xs, st=None):
        return self.ev.apply(f, list(xs), st or self.st, self.fr, self.e.get('sp', ''))

    def kind(self, t):
        return self.ev.kind(t) if t is not None else 'o'

    def isint(self, t):
        return t is not None and self.ev.isint(t)


FN = {}


def fn(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


def model(ev, e, args, ga, st, fr, rt, ats):
    from eval import strip
    s = strip(e['fn'])
    o, m = last2(s)
    c = M(ev, e, args, ga, st, fr, rt, ats)
    if e.get('trait', '').endswith(REAL):
        r = real(c, m)
        if r is not NotImplemented:
            return r
    for k in (f'{o}::{m}', m):
        f = FN.get(k)
        if f:
            r = f(c)
            if r is not NotImplemented:
                return r
    if s.startswith('core::fmt') or s.startswith('std::fmt'):
        return raw('str', 'fmt')
    return NotImplemented


# ---------------------------------------------------------------- numbers
def real(c, m):
    if c.ga and c.ga[0][0] == 'prim':
        return NotImplemented
    if m in ('from_i32', 'from_f64'):
        return c.v(0)
    if m == 'as_f64':
        return mk('tof', c.v(0))
    if m == 'zero':
        return ZERO
    if m == 'one':
        return ONE
    if m == 'abs':
        return mk('abs', c.v(0))
    if m in ('max', 'min'):
        return mk(m, c.v(0), c.v(1))
    if m == 'nan_or':
        return mk('nanor', c.v(0))
    if m == 'is_finite':
        return raw('b', mk('finite', c.v(0)))
    return NotImplemented


OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr',
       'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}


def arith(op):
    def f(c):
        t = c.at(0)
        if c.kind(t) in ('u', 'i', 'r', 'b'):
            return c.ev.arith(op, c.v(0), c.v(1), t, c.e, c.st)
        if op == 'Sub' and c.kind(t) == 'set' or c.kind(t) not in ('o',):
            return NotImplemented
        return NotImplemented
    return f


def arith_assign(op):
    def f(c):
        t = c.at(0)
        if c.kind(t) in ('u', 'i', 'r', 'b'):
            p = c.pl(0)
            c.ev.write(p, c.ev.arith(op, c.ev.read(p, c.st), c.v(1), t, c.e, c.st), c.st)
            return UNIT
        return NotImplemented
    return f


for _m, _o in OPS.items():
    FN[f'{_o}::{_m}'] = arith(_o)
    FN[f'{_o}Assign::{_m}_assign'] = arith_assign(_o)


@fn('Neg::neg')
def _neg(c):
    return neg(c.v(0)) if c.kind(c.at(0)) in 'uir' else NotImplemented


@fn('Not::not')
def _not(c):
    return not_(tobool(c.v(0))) if c.kind(c.at(0)) == 'b' else NotImplemented


def value_eq(ev, a, b, t, st):
    a, b = ev.val(a, st), ev.val(b, st)
    t = unref(t)
    k = ev.kind(t) if t is not None else 'o'
    if k == 'b':
        return iff(tobool(a), tobool(b))
    if k in ('u', 'i'):
        return eq(a, b, True)
    if k == 'r':
        return eq(a, b)
    if t is not None and t[0] == 'tuple' and a.op == b.op == 'tuple':
        return muls(ONE, *[value_eq(ev, x, y, z, st) for x, y, z in zip(a.a, b.a, t[1])])
    return eqv(a, b)


@fn('PartialEq::eq')
def _peq(c):
    return value_eq(c.ev, c.args[0], c.args[1], c.ats[0], c.st)


@fn('PartialEq::ne')
def _pne(c):
    return not_(_peq(c))


def rel(f):
    def g(c):
        t = c.at(0)
        k = c.kind(t)
        if k in ('u', 'i', 'r'):
            return f(c.v(0), c.v(1), k != 'r')
        return raw('b', raw('call', 'rel.' + c.e['fn'].split('::')[-1], c.v(0), c.v(1)))
    return g


FN['PartialOrd::lt'] = rel(lambda a, b, i: lt(a, b, i))
FN['PartialOrd::le'] = rel(lambda a, b, i: le(a, b, i))
FN['PartialOrd::gt'] = rel(lambda a, b, i: lt(b, a, i))
FN['PartialOrd::ge'] = rel(lambda a, b, i: le(b, a, i))


def ordering(a, b, integer):
    l, q = lt(a, b, integer), eq(a, b, integer)
    o = lambda n: raw('ctor', 'Ordering', n)
    return ite(l, o('Less'), ite(q, o('Equal'), o('Greater')))


@fn('Ord::cmp', 'f64::total_cmp')
def _cmp(c):
    k = c.kind(c.at(0))
    if k in 'uir':
        return ordering(c.v(0), c.v(1), k != 'r')
    return raw('call', 'cmp', c.v(0), c.v(1))


@fn('PartialOrd::partial_cmp')
def _pcmp(c):
    k = c.kind(c.at(0))
    if k in 'uir':
        return some(ordering(c.v(0), c.v(1), k != 'r'))
    return raw('call', 'partial_cmp', c.v(0), c.v(1))


@fn('Ordering::is_lt', 'Ordering::is_gt', 'Ordering::is_eq', 'Ordering::is_le', 'Ordering::is_ge', 'Ordering::is_ne')
def _ordis(c):
    m = c.e['fn'].split('::')[-1][3:]
    l, g = mk_is(c.v(0), 'Less'), mk_is(c.v(0), 'Greater')
    q = sub(ONE, add(l, g))
    return {'lt': l, 'gt': g, 'eq': q, 'le': add(l, q), 'ge': add(g, q), 'ne': add(l, g)}[m]


@fn('Ordering::reverse')
def _ordrev(c):
    l, g = mk_is(c.v(0), 'Less'), mk_is(c.v(0), 'Greater')
    o = lambda n: raw('ctor', 'Ordering', n)
    return ite(l, o('Greater'), ite(g, o('Less'), o('Equal')))


@fn('cmp::min', 'Ord::min', 'f64::min', 'f32::min')
def _min(c):
    k = c.kind(c.at(0))
    if k in 'ui':
        return minv(c.v(0), c.v(1), True)
    return mk('min', c.v(0), c.v(1)) if k == 'r' else NotImplemented


@fn('cmp::max', 'Ord::max', 'f64::max', 'f32::max')
def _max(c):
    k = c.kind(c.at(0))
    if k in 'ui':
        return maxv(c.v(0), c.v(1), True)
    return mk('max', c.v(0), c.v(1)) if k == 'r' else NotImplemented


@fn('f64::abs', 'f32::abs', 'num::abs', 'i32::abs', 'i64::abs', 'i8::abs', 'i16::abs', 'i128::abs')
def _abs(c):
    return mk('abs', c.v(0))


@fn('f64::is_finite', 'f32::is_finite')
def _fin(c):
    return raw('b', mk('finite', c.v(0)))


@fn('f64::is_nan', 'f32::is_nan')
def _nan(c):
    return raw('b', mk('isnan', c.v(0)))


@fn('f64::ln', 'f64::exp', 'f64::sqrt', 'f64::exp2', 'f64::log10', 'f64::log2', 'f64::floor', 'f64::ceil', 'f64::round',
    'f64::powf', 'f64::log')
def _fun(c):
    m = c.e['fn'].split('::')[-1]
    if m == 'log':
        return div(raw('fn', 'ln', c.v(0)), raw('fn', 'ln', c.v(1)))
    return raw('fn', m, *[c.v(i) for i in range(len(c.args))])


@fn('f64::powi', 'f32::powi', 'num::pow')
def _powi(c):
    n = const_of(c.v(1))
    if n is not None and 0 <= n <= 16:
        return power(c.v(0), int(n))
    x = fresh('u')
    return mk_prod(rng(ZERO, c.v(1)), x, c.v(0))


@fn('num::max_value', 'usize::max_value')
def _maxval(c):
    w = c.rt[1] if c.rt[0] == 'prim' else None
    if w in TM.WIDTH and (c.ev.machine or TM.WIDTH[w][1] <= 16):
        sg, k = TM.WIDTH[w]
        return num(2 ** (k - 1) - 1 if sg else 2 ** k - 1)
    return raw('sym', f'{tshow(c.rt)}::MAX', 'u')


@fn('num::min_value')
def _minval(c):
    return ZERO if c.kind(c.rt) == 'u' else raw('sym', f'{tshow(c.rt)}::MIN', 'i')


def _range(c):
    """bounds of the integer type of the operands; none for the wide types, which are taken as unbounded"""
    t = c.at(0)
    while t[0] == 'ref':
        t = t[2]
    w = t[1] if t[0] == 'prim' else None
    if w not in TM.WIDTH:
        return None, None, None
    sg, k = TM.WIDTH[w]
    lo, hi = (-2 ** (k - 1), 2 ** (k - 1) - 1) if sg else (0, 2 ** k - 1)
    if w not in TM.NARROW and not c.ev.machine:
        return w, (None if sg else 0), None
    return w, lo, hi


def _numexact(c, op):
    return {'add': add, 'sub': sub, 'mul': mul}[op](c.v(0), c.v(1))


def _numfits(x, lo, hi):
    return mul(ONE if lo is None else le(num(lo), x, True), ONE if hi is None else le(x, num(hi), True))


@fn(*[f'num::{k}_{o}' for k in ('wrapping', 'saturating', 'checked', 'overflowing') for o in ('add', 'sub', 'mul')])
def _numarith(c):
    k, o = c.e['fn'].split('::')[-1].split('_')
    w, lo, hi = _range(c)
    x = _numexact(c, o)
    if o == 'add' and lo == 0 or o == 'mul' and lo == 0:
        lo = None
    if k == 'wrapping' or k == 'overflowing':
        y = x if lo is None and hi is None else mk('wrap', x, w)
        return y if k == 'wrapping' else mk('tuple', y, not_(_numfits(x, lo, hi)))
    if k == 'checked':
        return ite(_numfits(x, lo, hi), some(x), NONE)
    if lo is not None:
        g = le(num(lo), x, True)
        x = add(mul(g, x), mul(not_(g), num(lo)))
    if hi is not None:
        g = le(x, num(hi), True)
        x = add(mul(g, x), mul(not_(g), num(hi)))
    return x


@fn('num::abs_diff')
def _absd(c):
    g = lt(c.v(0), c.v(1), True)
    d = sub(c.v(1), c.v(0))
    return add(mul(g, d), mul(not_(g), neg(d)))


@fn('num::div_ceil')
def _divceil(c):
    return idiv(sub(add(c.v(0), c.v(1)), ONE), c.v(1))


@fn('num::rem_euclid')
def _reme(c):
    if c.kind(c.at(0)) == 'i':
        return imod(add(imod(c.v(0), c.v(1)), mk('abs', c.v(1))), mk('abs', c.v(1)))
    return imod(c.v(0), c.v(1))


@fn('num::trailing_zeros', 'num::count_ones', 'num::leading_zeros', 'num::is_power_of_two', 'num::rotate_left')
def _numop(c):
    m = c.e['fn'].split('::')[-1]
    t = c.at(0)
    if m == 'is_power_of_two':
        return eq(raw('fn', 'count_ones', c.v(0)), ONE, True)
    if t is not None and t[0] == 'prim' and t[1] in TM.WIDTH and m in ('count_ones', 'trailing_zeros', 'leading_zeros') and not TM.WIDTH[t[1]][0]:
        return raw('fn', m, c.v(0), num(TM.WIDTH[t[1]][1]))
    return raw('call', m, *[c.v(i) for i in range(len(c.args))])


# ---------------------------------------------------------------- identity-like
@fn('Clone::clone', 'ToOwned::to_owned', 'convert::identity', 'Box::new', 'AsRef::as_ref', 'Borrow::borrow', 'Rc::new',
    'Arc::new', 'Option::as_ref', 'Result::as_ref', 'Option::cloned', 'Option::copied', 'Vec::as_slice', 'slice::to_vec',
    'slice::into_vec', 'Vec::into_boxed_slice', 'Box::leak', 'array::as_slice', 'Option::as_deref', 'Box::pin',
    'PhantomData::clone', 'Cow::into_owned', 'hint::black_box', 'Vec::into_iter', 'Wrapping::clone', 'Option::expect',
    'String::from', 'Vec::leak')
def _id(c):
    o, m = last2(c.e['fn'])
    if m == 'expect':
        return NotImplemented
    return c.v(0)


@fn('Vec::as_mut_slice', 'AsMut::as_mut', 'slice::as_mut', 'Option::as_mut', 'BorrowMut::borrow_mut')
def _idm(c):
    if c.e['fn'].endswith('as_mut') and c.kind(c.at(0)) == 'opt':
        p = c.pl(0)
        v = c.ev.read(p, c.st)
        q = c.ev.ext(p, ('v', 'Some', 0))
        return ite(mk_is(v, 'Some'), some(c.ev.place_ref(q)), NONE)
    return c.args[0]


def _bounds(t):
    sg, w = TM.WIDTH[t]
    return (-2 ** (w - 1), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)


@fn('Into::into', 'From::from', 'TryInto::try_into', 'TryFrom::try_from')
def _into(c):
    ev = c.ev
    a = c.ats[0]
    if a is None or a == c.rt or unref(a) == unref(c.rt):
        return c.args[0]
    for tr in ('std::convert::From', 'core::convert::From'):
        if tr in ev.p.by_trait:
            s = ev.p.select(tr, c.rt, (c.rt, a))
            if s:
                f = ev.p.fns.get(s[0]['_items']['from']['id'])
                if f:
                    h = ev.hooks.get(f['id'])
                    if h is not None:
                        r = h(ev, c.e, c.args, c.ga, c.st, c.fr)
                        if r is not NotImplemented:
                            return r
                    if f['id'] in ev.opaque_fns or f['id'] in ev.active:
                        return ev.opaque(f['id'], c.args, c.st)
                    return ev.inline(f, dict(s[1]), c.args, c.st, c.fr)
    k = c.kind(c.rt)
    if k in 'uir' and c.kind(a) in 'uir':
        return c.v(0)
    if k in 'uir' and c.kind(a) == 'b':
        return add(tobool(c.v(0)))
    if k == 'res' and c.e['fn'].endswith('try_into') or k == 'res' and c.e['fn'].endswith('try_from'):
        t, u = c.rt[2][0], unref(a)
        if t[0] == 'array' and t[2].isdigit() and c.kind(u) == 'vec':
            v = c.v(0)
            return ite(eq(mk_len(v), num(int(t[2])), True), ctor('Result', 'Ok', v), ctor('Result', 'Err', v))
        if t[0] == 'prim' and c.kind(t) in 'ui' and c.kind(u) in 'ui':
            lo, hi = _bounds(t[1])
            v = c.v(0)
            return ite(mul(le(num(lo), v, True), le(v, num(hi), True)), ctor('Result', 'Ok', v), ctor('Result', 'Err', raw('str', 'TryFromIntError')))
    if k == 'opt':
        return some(c.v(0))
    if k in ('vec', 'set', 'map'):
        return collect(ev, c.seq(0), c.rt, c.st)
    return ev.opaque('into', c.args, c.st)


@fn('Default::default')
def _default(c):
    return default(c.ev, c.rt)


def default(ev, t):
    k = ev.kind(t)
    if k in 'uirb':
        return ZERO
    if k == 'vec':
        return mk_vec(seq([]))
    if k == 'set':
        return mk_set(seq([]))
    if k == 'map':
        return mk('map', seq([]))
    if k == 'opt':
        return NONE
    if t[0] == 'tuple':
        return tup(*[default(ev, x) for x in t[1]])
    return raw('sym', 'default:' + tshow(t), '')


@fn('mem::swap')
def _swap(c):
    p, q = c.pl(0), c.pl(1)
    a, b = c.ev.read(p, c.st), c.ev.read(q, c.st)
    c.ev.write(p, b, c.st)
    c.ev.write(q, a, c.st)
    return UNIT


@fn('mem::replace', 'Option::replace')
def _replace(c):
    p = c.pl(0)
    a = c.ev.read(p, c.st)
    o = last2(c.e['fn'])[0]
    c.ev.write(p, c.v(1) if o == 'mem' else some(c.v(1)), c.st)
    return a


@fn('mem::take', 'Option::take')
def _take_(c):
    p = c.pl(0)
    a = c.ev.read(p, c.st)
    c.ev.write(p, default(c.ev, c.rt), c.st)
    return a


@fn('mem::forget', 'mem::drop', 'Vec::reserve', 'HashMap::reserve', 'Vec::shrink_to_fit', 'hint::assert_unchecked')
def _drop(c):
    return UNIT


@fn('mem::transmute', 'intrinsics::transmute')
def _transmute(c):
    return c.v(0)


@fn('MaybeUninit::zeroed', 'MaybeUninit::uninit', 'Box::new_uninit', 'mem::zeroed', 'mem::uninitialized')
def _uninit(c):
    return raw('sym', 'uninit', '')


@fn('MaybeUninit::assume_init', 'MaybeUninit::new')
def _ai(c):
    return c.v(0)


@fn('intrinsics::write_box_via_move')
def _wbox(c):
    return c.v(1)


@fn('boxed::box_assume_init_into_vec_unsafe')
def _wboxv(c):
    return mk_vec(vec_seq(c.v(0)))


@fn('intrinsics::discriminant_value', 'mem::discriminant')
def _discr(c):
    return raw('call', 'discr', c.v(0))


@fn('NonZero::new_unchecked', 'NonZero::get')
def _nz(c):
    if c.e['fn'].endswith('unchecked'):
        c.ev.require(c.e, c.st, 'non-zero', not_(eq0(c.v(0), True)), i=c.v(0), n=None)
    elif c.ev.uchk:
        c.st.asserts = c.st.asserts + (le(ONE, c.v(0), True),)
    return c.v(0)


@fn('NonZero::new')
def _nznew(c):
    v = c.v(0)
    return ite(eq0(v, True), NONE, some(v))


# ---------------------------------------------------------------- panics
@fn('panicking::panic', 'panicking::panic_fmt', 'panicking::begin_panic', 'panicking::unimplemented_default_msg',
    'intrinsics::unreachable', 'panicking::assert_failed', 'panicking::panic_display', 'panicking::panic_explicit',
    'panicking::unreachable_display', 'hint::unreachable_unchecked', 'process::abort', 'process::exit',
    'panicking::panic_str_2015', 'panicking::panic_nounwind', 'panicking::unreachable_default_msg', 'option::unwrap_failed',
    'option::expect_failed', 'result::unwrap_failed', 'panicking::panic_bounds_check', 'panicking::panic_cannot_display')
def _panic(c):
    c.ev.event('panic', c.e, c.st)
    c.st.dead = 'panic'
    return raw('bottom')


# ---------------------------------------------------------------- function values
@fn('FnMut::call_mut', 'FnOnce::call_once', 'Fn::call')
def _call(c):
    a = c.v(1)
    xs = list(a.a) if a.op == 'tuple' else [a]
    return c.app(c.args[0], *xs)


# ---------------------------------------------------------------- Option / Result
def br(c, cond, t, f):
    return c.ev.branch(cond, c.st, t, f)


def okname(c):
    k = c.kind(c.at(0))
    return 'Ok' if k == 'res' else 'Some'


def must(c, cond):
    """panics unless cond"""
    if const_of(cond) == 1:
        return
    c.ev.branch(cond, c.st, lambda s: UNIT, lambda s: c.ev.die(s, 'panic'))


@fn('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect')
def _unwrap(c):
    v, n = c.v(0), okname(c)
    must(c, mk_is(v, n))
    return mk_vf(v, n, 0) if not c.st.dead else raw('bottom')


@fn('Option::unwrap_unchecked', 'Result::unwrap_unchecked')
def _unwrapu(c):
    return mk_vf(c.v(0), okname(c), 0)


@fn('Option::unwrap_or', 'Result::unwrap_or')
def _uor(c):
    v, n = c.v(0), okname(c)
    return ite(mk_is(v, n), mk_vf(v, n, 0), c.v(1))


@fn('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _uod(c):
    v, n = c.v(0), okname(c)
    return ite(mk_is(v, n), mk_vf(v, n, 0), default(c.ev, c.rt))


@fn('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _uoe(c):
    v, n = c.v(0), okname(c)
    return br(c, mk_is(v, n), lambda s: mk_vf(v, n, 0),
              lambda s: c.app(c.args[1], *([] if n == 'Some' else [mk_vf(v, 'Err', 0)]), st=s))


@fn('Option::map', 'Result::map')
def _omap(c):
    v, n = c.v(0), okname(c)
    if n == 'Some':
        return br(c, mk_is(v, n), lambda s: wrap(c, s, n, c.app(c.args[1], mk_vf(v, n, 0), st=s)), lambda s: NONE)
    return br(c, mk_is(v, n), lambda s: wrap(c, s, n, c.app(c.args[1], mk_vf(v, n, 0), st=s)),
              lambda s: ctor('Result', 'Err', mk_vf(v, 'Err', 0)))


def wrap(c, s, n, x):
    return x if s.dead else ctor('Option' if n == 'Some' else 'Result', n, x)


@fn('Result::map_err')
def _maperr(c):
    v = c.v(0)
    return br(c, mk_is(v, 'Ok'), lambda s: ctor('Result', 'Ok', mk_vf(v, 'Ok', 0)),
              lambda s: wrap(c, s, 'Err', c.app(c.args[1], mk_vf(v, 'Err', 0), st=s)))


@fn('Option::and_then', 'Result::and_then')
def _andthen(c):
    v, n = c.v(0), okname(c)
    return br(c, mk_is(v, n), lambda s: c.app(c.args[1], mk_vf(v, n, 0), st=s),
              lambda s: NONE if n == 'Some' else ctor('Result', 'Err', mk_vf(v, 'Err', 0)))


@fn('Option::or_else')
def _orelse(c):
    v = c.v(0)
    return br(c, mk_is(v, 'Some'), lambda s: v, lambda s: c.app(c.args[1], st=s))


@fn('Option::or')
def _oor(c):
    v = c.v(0)
    return ite(mk_is(v, 'Some'), v, c.v(1))


@fn('Option::and')
def _oand(c):
    return ite(mk_is(c.v(0), 'Some'), c.v(1), NONE)


@fn('Option::zip')
def _ozip(c):
    a, b = c.v(0), c.v(1)
    return ite(mul(mk_is(a, 'Some'), mk_is(b, 'Some')), some(tup(mk_vf(a, 'Some', 0), mk_vf(b, 'Some', 0))), NONE)


@fn('Option::filter')
def _ofilter(c):
    v = c.v(0)
    k = br(c, mk_is(v, 'Some'), lambda s: tobool(c.app(c.args[1], mk_vf(v, 'Some', 0), st=s)), lambda s: ZERO)
    return ite(k, v, NONE)


@fn('Option::map_or')
def _omapor(c):
    v, n = c.v(0), okname(c)
    return br(c, mk_is(v, n), lambda s: c.app(c.args[2], mk_vf(v, n, 0), st=s), lambda s: c.v(1))


@fn('Option::map_or_else')
def _omapore(c):
    v, n = c.v(0), okname(c)
    return br(c, mk_is(v, n), lambda s: c.app(c.args[2], mk_vf(v, n, 0), st=s), lambda s: c.app(c.args[1], st=s))


@fn('Option::is_some_and')
def _issomeand(c):
    v = c.v(0)
    return br(c, mk_is(v, 'Some'), lambda s: tobool(c.app(c.args[1], mk_vf(v, 'Some', 0), st=s)), lambda s: ZERO)


@fn('Option::is_none_or')
def _isnoneor(c):
    v = c.v(0)
    return br(c, mk_is(v, 'Some'), lambda s: tobool(c.app(c.args[1], mk_vf(v, 'Some', 0), st=s)), lambda s: ONE)


@fn('Option::is_some')
def _issome(c):
    return mk_is(c.v(0), 'Some')


@fn('Option::is_none')
def _isnone(c):
    return not_(mk_is(c.v(0), 'Some'))


@fn('Result::is_ok')
def _isok(c):
    return mk_is(c.v(0), 'Ok')


@fn('Result::is_err')
def _iserr(c):
    return not_(mk_is(c.v(0), 'Ok'))


@fn('Result::ok')
def _ok(c):
    v = c.v(0)
    return ite(mk_is(v, 'Ok'), some(mk_vf(v, 'Ok', 0)), NONE)


@fn('Option::ok_or')
def _okor(c):
    v = c.v(0)
    return ite(mk_is(v, 'Some'), ctor('Result', 'Ok', mk_vf(v, 'Some', 0)), ctor('Result', 'Err', c.v(1)))


@fn('Option::get_or_insert_with', 'Option::get_or_insert')
def _goi(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    w = c.args[1]
    n = br(c, mk_is(v, 'Some'), lambda s: v,
           lambda s: some(c.app(w, st=s) if c.e['fn'].endswith('with') else c.v(1)))
    c.ev.write(p, n, c.st)
    return c.ev.place_ref(c.ev.ext(p, ('v', 'Some', 0)))


@fn('Option::insert')
def _oinsert(c):
    p = c.pl(0)
    c.ev.write(p, some(c.v(1)), c.st)
    return c.ev.place_ref(c.ev.ext(p, ('v', 'Some', 0)))


@fn('Try::branch')
def _branch(c):
    v, n = c.v(0), okname(c)
    if n == 'Some':
        return ite(mk_is(v, n), ctor('ControlFlow', 'Continue', mk_vf(v, n, 0)),
                   ctor('ControlFlow', 'Break', NONE))
    return ite(mk_is(v, n), ctor('ControlFlow', 'Continue', mk_vf(v, n, 0)),
               ctor('ControlFlow', 'Break', ctor('Result', 'Err', mk_vf(v, 'Err', 0))))


@fn('FromResidual::from_residual')
def _resid(c):
    return c.v(0)


# ---------------------------------------------------------------- Vec and slices
@fn('Vec::new', 'Vec::with_capacity', 'VecDeque::new')
def _vnew(c):
    return mk_vec(seq([]))


@fn('vec::from_elem')
def _felem(c):
    x = fresh('u')
    return mk_vec(seq_for(rng(ZERO, c.v(1)), x, seq([one(ONE, c.v(0))])))


@fn('Vec::push', 'VecDeque::push_back')
def _push(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    c.ev.write(p, mk_vec(seq_cat(vec_seq(v), seq([one(ONE, c.v(1))]))), c.st)
    return UNIT


@fn('Vec::pop')
def _pop(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    n = mk_len(v)
    ps = vec_seq(v).a[0]
    if ps and ps[-1].op == 'one' and const_of(ps[-1].a[0]) == 1:
        c.ev.write(p, mk_vec(seq(ps[:-1])), c.st)
        return some(ps[-1].a[1])
    if not ps:
        return NONE
    e = eq0(n, True)
    last = mk_idx(v, sub(n, ONE))
    x = fresh('u')
    init = mk_vec(seq([mk_for(rng(ZERO, sub(n, ONE)), x, seq([one(ONE, mk_idx(v, x))]))]))
    c.ev.write(p, ite(e, mk_vec(seq([])), init), c.st)
    return ite(e, NONE, some(last))


@fn('Vec::len', 'slice::len', 'HashMap::len', 'BTreeSet::len', 'HashSet::len', 'BTreeMap::len', 'ExactSizeIterator::len',
    'VecDeque::len', 'array::len')
def _len(c):
    v = c.v(0)
    if v.op == 'seq':
        return seq_len(v)
    return mk_len(v)


@fn('Vec::is_empty', 'slice::is_empty', 'HashMap::is_empty', 'BTreeSet::is_empty', 'HashSet::is_empty',
    'BTreeMap::is_empty')
def _isempty(c):
    return eq0(mk_len(c.v(0)), True)


@fn('Vec::extend_from_slice', 'Extend::extend', 'Vec::append')
def _extend(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    s = c.seq(1)
    k = c.kind(c.at(0))
    if k == 'vec':
        n = mk_vec(seq_cat(vec_seq(v), s))
    elif k == 'set':
        n = mk_set(seq_cat(v.a[0] if v.op == 'set' else set_seq(v), s))
    elif k == 'map':
        n = map_extend(v, s)
    else:
        return NotImplemented
    c.ev.write(p, n, c.st)
    if c.e['fn'].endswith('append'):
        c.put(1, mk_vec(seq([])))
    return UNIT


def map_extend(m, s):
    if all(p.op == 'one' and const_of(p.a[0]) == 1 and p.a[1].op == 'tuple' for p in s.a[0]):
        for p in s.a[0]:
            m = mk('minsert', m, p.a[1].a[0], p.a[1].a[1])
        return m
    base = m.a[0] if m.op == 'map' else map_seq(m)
    return mk('map', seq_cat(base, s))


@fn('Vec::set_len')
def _setlen(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    c.ev.event('set_len', c.e, c.st, v=v, n=c.v(1))
    x = fresh('u')
    c.ev.write(p, mk_vec(seq([mk_for(rng(ZERO, c.v(1)), x, seq([one(ONE, raw('idx', raw('sym', 'uninit', ''), x))]))])),
               c.st)
    return UNIT


@fn('Vec::clear', 'HashMap::clear', 'BTreeSet::clear', 'HashSet::clear')
def _clear(c):
    c.put(0, default(c.ev, c.at(0)))
    return UNIT


@fn('Vec::truncate')
def _trunc(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    s = seq_take(c.ev, vec_seq(v), c.v(1))
    if s is None:
        return NotImplemented
    c.ev.write(p, mk_vec(s), c.st)
    return UNIT


@fn('Vec::set_len')
def _setlen(c):
    # what lies behind the end is not initialised
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    n = mk_len(v)
    s = vec_seq(v)
    if n is not ZERO:
        s = seq_take(c.ev, s, c.v(1))
        if s is None:
            return NotImplemented
        n = mk('min', n, c.v(1))
    x = fresh('u')
    c.ev.write(p, mk_vec(seq_cat(s, seq([mk_for(rng(ZERO, sub(c.v(1), n)), x, seq([one(ONE, raw('sym', 'uninit', 'u'))]))]))), c.st)
    return UNIT


@fn('Vec::resize')
def _resize(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    n = mk_len(v)
    if const_of(n) == 0:
        x = fresh('u')
        c.ev.write(p, mk_vec(seq_for(rng(ZERO, c.v(1)), x, seq([one(ONE, c.v(2))]))), c.st)
        return UNIT
    return NotImplemented


@fn('Vec::insert')
def _vinsert(c):
    i = const_of(c.v(1))
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    ps = vec_seq(v).a[0]
    if i is not None and len(ps) >= i and all(q.op == 'one' and const_of(q.a[0]) == 1 for q in ps[:int(i)]):
        c.ev.write(p, mk_vec(seq(ps[:int(i)] + (one(ONE, c.v(2)),) + ps[int(i):])), c.st)
        return UNIT
    return NotImplemented


@fn('Vec::remove', 'Vec::swap_remove')
def _vremove(c):
    i = const_of(c.v(1))
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    ps = vec_seq(v).a[0]
    if i is not None and c.e['fn'].endswith('::remove') and len(ps) > i and \
            all(q.op == 'one' and const_of(q.a[0]) == 1 for q in ps[:int(i) + 1]):
        c.ev.write(p, mk_vec(seq(ps[:int(i)] + ps[int(i) + 1:])), c.st)
        return ps[int(i)].a[1]
    return NotImplemented


@fn('slice::get_unchecked', 'slice::get_unchecked_mut')
def _getu(c):
    v = c.v(0)
    i = c.v(1)
    c.ev.require(c.e, c.st, 'index', lt(i, mk_len(v), True) if i.op != 'rec' else ZERO, i=i, n=mk_len(v))
    if c.e['fn'].endswith('mut'):
        return c.ev.place_ref(c.ev.ext(c.pl(0), ('i', i)))
    return mk_idx(v, i)


@fn('slice::get', 'Vec::get')
def _get(c):
    v, i = c.v(0), c.v(1)
    return ite(lt(i, mk_len(v), True), some(mk_idx(v, i)), NONE)


@fn('slice::get_mut')
def _getm(c):
    v, i = c.v(0), c.v(1)
    return ite(lt(i, mk_len(v), True), some(c.ev.place_ref(c.ev.ext(c.pl(0), ('i', i)))), NONE)


@fn('slice::first')
def _first(c):
    v = c.v(0)
    return ite(eq0(mk_len(v), True), NONE, some(mk_idx(v, ZERO)))


@fn('slice::last')
def _last(c):
    v = c.v(0)
    n = mk_len(v)
    return ite(eq0(n, True), NONE, some(mk_idx(v, sub(n, ONE))))


@fn('slice::contains')
def _scontains(c):
    t = elemty(c.ev, c.at(0))
    return seq_any(vec_seq(c.v(0)), lambda e: value_eq(c.ev, e, c.args[1], t, c.st))


@fn('slice::swap')
def _sswap(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    i, j = c.v(1), c.v(2)
    c.ev.write(p, mk_upd(mk_upd(v, i, mk_idx(v, j)), j, mk_idx(v, i)), c.st)
    return UNIT


@fn('slice::fill')
def _sfill(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    x = fresh('u')
    c.ev.write(p, mk_vec(seq_for(rng(ZERO, mk_len(v)), x, seq([one(ONE, c.v(1))]))), c.st)
    return UNIT


@fn('slice::sort_unstable', 'slice::sort')
def _sort(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    ps = vec_seq(v).a[0]
    et = elemty(c.ev, c.at(0))
    if all(q.op == 'one' and const_of(q.a[0]) == 1 for q in ps) and len(ps) <= 2 and c.kind(et) in 'ui':
        if len(ps) == 2:
            a, b = ps[0].a[1], ps[1].a[1]
            c.ev.write(p, mk_vec(seq([one(ONE, minv(a, b, True)), one(ONE, maxv(a, b, True))])), c.st)
        return UNIT
    c.ev.write(p, mk('sorted', v), c.st)
    return UNIT


@fn('slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key')
def _sortby(c):
    p = c.pl(0)
    c.ev.write(p, raw('call', 'sorted_by', c.ev.read(p, c.st), c.args[1]), c.st)
    return UNIT


@fn('slice::reverse')
def _reverse(c):
    p = c.pl(0)
    s = seq_rev(c.ev, vec_seq(c.ev.read(p, c.st)))
    if s is None:
        return NotImplemented
    c.ev.write(p, mk_vec(s), c.st)
    return UNIT


@fn('Vec::dedup')
def _dedup(c):
    p = c.pl(0)
    c.ev.write(p, raw('call', 'dedup', c.ev.read(p, c.st)), c.st)
    return UNIT


@fn('Index::index')
def _index(c):
    k = c.kind(c.at(0))
    v = c.v(0)
    if k == 'vec':
        t = c.at(1)
        if t is not None and c.kind(t) in 'ui':
            c.ev.event('index', c.e, c.st, v=v, i=c.v(1))
            return mk_idx(v, c.v(1))
        i = c.v(1)
        if i.op == 'rec' and i.a[0].startswith('Range') or t is not None and t[0] == 'adt' and 'Range' in t[1]:
            return slice_range(c, v, i, t)
        return NotImplemented
    if k == 'map':
        must(c, mk_contains(v, c.v(1)))
        return mk('mget', v, c.v(1))
    return NotImplemented


def slice_range(c, v, i, t):
    lo, hi = range_ends(v, i, t)
    x = fresh('u')
    return mk_vec(seq_for(rng(lo, hi), x, seq([one(ONE, mk_idx(v, x))])))


def range_ends(v, i, t):
    n = mk_len(v)
    nm = short(t[1])
    lo, hi = ZERO, n
    if nm in ('Range', 'RangeFrom', 'RangeInclusive'):
        lo = mk_field(i, 'start')
    if nm in ('Range', 'RangeTo'):
        hi = mk_field(i, 'end')
    if nm in ('RangeInclusive', 'RangeToInclusive'):
        hi = add(mk_field(i, 'end'), ONE)
    return lo, hi


@fn('IndexMut::index_mut')
def _indexm(c):
    if c.kind(c.at(0)) == 'vec' and c.kind(c.at(1)) in 'ui':
        c.ev.event('index', c.e, c.st, v=c.v(0), i=c.v(1))
        p = c.pl(0)
        if p is None:
            return NotImplemented
        return c.ev.place_ref(c.ev.ext(p, ('i', c.v(1))))
    i, t, p = c.v(1), c.at(1), c.pl(0)
    if c.kind(c.at(0)) == 'vec' and p is not None and (i.op == 'rec' and i.a[0].startswith('Range') or t is not None and t[0] == 'adt' and 'Range' in t[1]):
        lo, hi = range_ends(c.v(0), i, t)
        must(c, mul(le(lo, hi, True), le(hi, mk_len(c.v(0)), True)))
        return c.ev.place_ref(c.ev.ext(p, ('r', lo, hi)))
    return NotImplemented


@fn('Deref::deref', 'DerefMut::deref_mut')
def _deref(c):
    if c.at(0) is not None and c.at(0)[0] in ('adt',) and short(c.at(0)[1]) in (
            'Vec', 'Box', 'Rc', 'Arc', 'String', 'Cow', 'ManuallyDrop'):
        return c.args[0]
    return NotImplemented


# ---------------------------------------------------------------- maps and sets
@fn('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity')
def _mnew(c):
    return mk('map', seq([]))


@fn('BTreeSet::new', 'HashSet::new', 'HashSet::with_capacity')
def _snew(c):
    return mk_set(seq([]))


def optget(m, k):
    return ite(mk_contains(m, k), some(mk('mget', m, k)), NONE)


@fn('HashMap::get', 'BTreeMap::get')
def _mget(c):
    return optget(c.v(0), c.v(1))


@fn('HashMap::get_mut', 'BTreeMap::get_mut')
def _mgetm(c):
    m, k = c.v(0), c.v(1)
    return ite(mk_contains(m, k), some(c.ev.place_ref(c.ev.ext(c.pl(0), ('k', k)))), NONE)


@fn('HashMap::contains_key', 'BTreeSet::contains', 'HashSet::contains', 'BTreeMap::contains_key')
def _mcontains(c):
    return mk_contains(c.v(0), c.v(1))


@fn('HashMap::insert', 'BTreeMap::insert')
def _minsert(c):
    p = c.pl(0)
    m, k = c.ev.read(p, c.st), c.v(1)
    old = optget(m, k)
    c.ev.write(p, mk('minsert', m, k, c.v(2)), c.st)
    return old


@fn('HashMap::remove', 'BTreeMap::remove')
def _mremove(c):
    p = c.pl(0)
    m, k = c.ev.read(p, c.st), c.v(1)
    old = optget(m, k)
    c.ev.write(p, mk('mremove', m, k), c.st)
    return old


@fn('BTreeSet::insert', 'HashSet::insert')
def _sinsert(c):
    p = c.pl(0)
    s, e = c.ev.read(p, c.st), c.v(1)
    h = mk_contains(s, e)
    base = s.a[0] if s.op == 'set' else set_seq(s)
    c.ev.write(p, mk_set(seq_cat(base, seq([one(ONE, e)]))), c.st)
    return not_(h)


@fn('BTreeSet::remove', 'HashSet::remove')
def _sremove(c):
    p = c.pl(0)
    s, e = c.ev.read(p, c.st), c.v(1)
    h = mk_contains(s, e)
    c.ev.write(p, mk('sremove', s, e), c.st)
    return h


def keys_of(m):
    return seq_map(map_seq(m), lambda e: e.a[0] if e.op == 'tuple' else mk_field(e, '0'))


def vals_of(m):
    return seq_map(map_seq(m), lambda e: e.a[1] if e.op == 'tuple' else mk_field(e, '1'))


@fn('HashMap::keys', 'HashMap::into_keys', 'BTreeMap::keys')
def _keys(c):
    return keys_of(c.v(0))


@fn('HashMap::values', 'HashMap::into_values', 'BTreeMap::values')
def _values(c):
    return vals_of(c.v(0))


@fn('HashMap::drain', 'Vec::drain', 'HashSet::drain')
def _drain(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    if len(c.args) > 1:
        t = c.at(1)
        if not (t and t[0] == 'adt' and short(t[1]) == 'RangeFull'):
            return NotImplemented
    s = c.ev.iterseq(v, c.at(0), c.st)
    c.ev.write(p, default(c.ev, c.at(0)), c.st)
    return s


@fn('BTreeSet::is_superset', 'HashSet::is_superset')
def _sup(c):
    a, b = c.v(0), c.v(1)
    return issub(b, a)


@fn('BTreeSet::is_subset', 'HashSet::is_subset')
def _subset(c):
    return issub(c.v(0), c.v(1))


def issub(b, a):
    return not_(seq_any(set_seq(b), lambda e: not_(mk_contains(a, e))))


@fn('BTreeSet::is_disjoint')
def _disj(c):
    a, b = c.v(0), c.v(1)
    return not_(seq_any(set_seq(b), lambda e: mk_contains(a, e)))


@fn('BTreeSet::union', 'HashSet::union')
def _union(c):
    return seq_cat(raw_elems(c.v(0)), raw_elems(c.v(1)))


@fn('BTreeSet::difference', 'HashSet::difference')
def _diff(c):
    b = c.v(1)
    return seq_filter(c.ev.iterseq(c.v(0), c.at(0), c.st), lambda e: not_(mk_contains(b, e)))


@fn('BTreeSet::intersection', 'HashSet::intersection')
def _inter(c):
    b = c.v(1)
    return seq_filter(c.ev.iterseq(c.v(0), c.at(0), c.st), lambda e: mk_contains(b, e))


def raw_elems(s):
    return s.a[0] if s.op == 'set' else set_seq(s)


def seq_filter(s, f):
    ps = []
    for p in s.a[0]:
        if p.op == 'one':
            ps.append(one(mul(p.a[0], f(p.a[1])), p.a[1]))
        else:
            dom, x, _, body = open_(p)
            ps.append(mk_for(dom, x, seq_filter(body, f)))
    return seq(ps)


@fn('BTreeSet::first', 'BTreeSet::last')
def _bfirst(c):
    v = c.v(0)
    n = mk_len(v)
    i = ZERO if c.e['fn'].endswith('first') else sub(n, ONE)
    return ite(eq0(n, True), NONE, some(mk('nth', v, i)))


@fn('HashMap::entry', 'BTreeMap::entry')
def _entry(c):
    m = c.v(0)
    return raw('entry', c.args[0], c.v(1), mk_contains(m, c.v(1)))


def entry_place(c):
    e = c.v(0)
    if e.op != 'entry':
        return None, None
    p = c.ev.refplace(e.a[0])
    while p is not None:
        q = c.ev.refplace(c.ev.read(p, c.st))
        if q is None:
            break
        p = q
    return p, e.a[1]


@fn('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def _orinsert(c):
    p, k = entry_place(c)
    if p is None:
        return NotImplemented
    m = c.ev.read(p, c.st)
    h = mk_contains(m, k)
    nm = c.e['fn'].split('::')[-1]

    def dflt(s):
        if nm == 'or_insert':
            return c.v(1)
        if nm == 'or_default':
            return default(c.ev, unref(c.rt))
        return c.app(c.args[1], st=s)
    v = c.ev.branch(h, c.st, lambda s: mk('mget', m, k), dflt)
    if c.st.dead:
        return v
    t = unref(c.rt)
    if t is not None:
        v = c.ev.coerce(v, t)
    c.ev.write(p, mk('minsert', c.ev.read(p, c.st), k, v), c.st)
    return c.ev.place_ref(c.ev.ext(p, ('k', k)))


@fn('Entry::and_modify')
def _andmod(c):
    p, k = entry_place(c)
    if p is None:
        return NotImplemented
    h = mk_contains(c.ev.read(p, c.st), k)
    c.ev.branch(h, c.st, lambda s: c.app(c.args[1], c.ev.place_ref(c.ev.ext(p, ('k', k))), st=s), lambda s: UNIT)
    return c.v(0)


@fn('Entry::and_replace_entry_with')
def _nope(c):
    return NotImplemented


@fn('HashMap::retain', 'BTreeSet::retain', 'Vec::retain', 'HashSet::retain')
def _retain(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    k = c.kind(c.at(0))
    s = c.ev.iterseq(v, c.at(0), c.st)

    def f(e, st):
        a = [e.a[0], e.a[1]] if k == 'map' and e.op == 'tuple' else [e]
        return seq([one(tobool(c.app(c.args[1], *a, st=st)), e)])
    r = c.ev.seq_run(s, f, c.st, c.fr, c.et())
    c.ev.write(p, collect(c.ev, r, c.at(0), c.st), c.st)
    return UNIT


# ---------------------------------------------------------------- iterators
@fn('slice::iter', 'IntoIterator::into_iter', 'BTreeSet::iter', 'HashMap::iter', 'HashSet::iter', 'Vec::iter',
    'BTreeMap::iter', 'IntoParallelRefIterator::par_iter', 'IntoParallelIterator::into_par_iter', 'Option::iter',
    'BTreeSet::into_iter', 'HashMap::into_iter', 'Iterator::by_ref', 'Iterator::peekable', 'Iterator::fuse',
    'Option::into_iter', 'array::iter', 'NonNull::into_iter')
def _iter(c):
    t = c.at(0)
    k = c.kind(t)
    if c.args[0].op == 'ref' and c.ats[0] is not None and c.ats[0][0] == 'ref' and c.ats[0][1]:
        # iterating a &mut collection yields references into it
        if k == 'vec':
            return mut_elems(c)
        if c.e['fn'].split('::')[-1] == 'by_ref':
            return c.args[0]
    v = c.v(0)
    if k in ('vec', 'set', 'map', 'opt'):
        return c.ev.iterseq(v, t, c.st)
    if v.op == 'seq':
        return v
    if c.ev.local_iter(t) if t is not None else False:
        return v
    if t is not None and t[0] == 'adt' and short(t[1]) in ('Range', 'RangeInclusive', 'RangeFrom'):
        return v
    return v


def mut_elems(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    x = fresh('u')
    n = mk_len(v)
    if const_of(n) is not None and const_of(n) <= 16:
        return seq([one(ONE, c.ev.place_ref(c.ev.ext(p, ('i', num(i))))) for i in range(int(const_of(n)))])
    return seq([mk_for(rng(ZERO, n), x, seq([one(ONE, c.ev.place_ref(c.ev.ext(p, ('i', x))))]))])


@fn('slice::iter_mut', 'Vec::iter_mut')
def _itermut(c):
    return mut_elems(c)


@fn('slice::chunks_mut', 'slice::chunks_exact_mut', 'slice::chunks_exact', 'slice::chunks')
def _chunks(c):
    m = c.e['fn'].split('::')[-1]
    n = c.v(1)
    k = const_of(n)
    if k is None or k <= 0:
        return NotImplemented
    v = c.v(0)
    ln = mk_len(v)
    cnt = mk('idiv', ln, n) if 'exact' in m else mk('idiv', add(ln, num(k - 1)), n)
    x = fresh('u')
    lo = scale(x, k)
    hi = add(lo, n) if 'exact' in m else mk('min', add(lo, n), ln)
    if m.endswith('mut'):
        p = c.pl(0)
        if p is None:
            return NotImplemented
        e = c.ev.place_ref(c.ev.ext(p, ('r', lo, hi)))
    else:
        y = fresh('u')
        e = mk_vec(seq_for(rng(lo, hi), y, seq([one(ONE, mk_idx(v, y))])))
    return seq_for(rng(ZERO, cnt), x, seq([one(ONE, e)]))


@fn('HashMap::iter_mut', 'HashMap::values_mut')
def _mitermut(c):
    p = c.pl(0)
    m = c.ev.read(p, c.st)
    return seq_map(map_seq(m), lambda e: (
        tup(e.a[0], c.ev.place_ref(c.ev.ext(p, ('k', e.a[0])))) if c.e['fn'].endswith('iter_mut')
        else c.ev.place_ref(c.ev.ext(p, ('k', e.a[0])))))


@fn('Iterator::map', 'ParallelIterator::map')
def _map(c):
    f = c.args[1]

    def g(e, st):
        r = c.app(f, e, st=st)
        return seq([one(ONE, r)])
    return c.ev.seq_run(c.seq(0), g, c.st, c.fr, c.et())


@fn('Iterator::inspect')
def _inspect(c):
    def g(e, st):
        c.app(c.args[1], e, st=st)
        return seq([one(ONE, e)])
    return c.ev.seq_run(c.seq(0), g, c.st, c.fr, c.et())


@fn('Iterator::for_each', 'ParallelIterator::for_each')
def _foreach(c):
    c.ev.loop_seq(c.seq(0), lambda e, st: c.app(c.args[1], e, st=st), c.st, c.fr, None, c.et())
    return UNIT


@fn('Iterator::filter')
def _filter(c):
    return c.ev.seq_run(c.seq(0), lambda e, st: seq([one(tobool(c.app(c.args[1], e, st=st)), e)]), c.st, c.fr, c.et())


@fn('Iterator::filter_map')
def _filtermap(c):
    def g(e, st):
        r = c.ev.val(c.app(c.args[1], e, st=st), st)
        if st.dead:
            return seq([])
        return seq([one(mk_is(r, 'Some'), mk_vf(r, 'Some', 0))])
    return c.ev.seq_run(c.seq(0), g, c.st, c.fr, c.et())


@fn('Iterator::flat_map')
def _flatmap(c):
    t = c.ga[-2] if len(c.ga) >= 3 else None   # Self, U, F

    def g(e, st):
        r = c.app(c.args[1], e, st=st)
        return c.ev.iterseq(r, t, st) if not st.dead else seq([])
    return c.ev.seq_run(c.seq(0), g, c.st, c.fr, c.et())


@fn('Iterator::flatten')
def _flatten(c):
    t = elemty(c.ev, c.at(0))
    return c.ev.seq_bind(c.seq(0), lambda e: c.ev.iterseq(e, t, c.st))


@fn('Iterator::chain')
def _chain(c):
    return seq_cat(c.seq(0), c.seq(1))


@fn('Iterator::cloned', 'Iterator::copied', 'Iterator::into_iter')
def _cloned(c):
    return c.seq(0)


@fn('Iterator::enumerate')
def _enum(c):
    s = c.seq(0)
    p = c.ev.positions(s)
    if p:
        n, f = p
        return c.ev.from_positions(n, lambda i: tup(i, f(i)))
    return enum_general(c.ev, s, ZERO)


def enum_general(ev, s, start):
    """conditional sequences: the position is the number of elements kept before"""
    ps = []
    off = start
    for p in s.a[0]:
        if p.op == 'one':
            ps.append(one(p.a[0], tup(off, p.a[1])))
            off = add(off, p.a[0])
        else:
            dom, x, _, body = open_(p)
            if dom.op == 'range' and len(body.a[0]) == 1 and body.a[0][0].op == 'one':
                b = body.a[0][0]
                y = fresh('u')
                before = mk_sum(rng(dom.a[0], x), y, subst(b.a[0], {x: y}))
                ps.append(mk_for(dom, x, seq([one(b.a[0], tup(add(off, before), b.a[1]))])))
                off = add(off, mk_sum(dom, x, b.a[0]))
            elif len(body.a[0]) == 1 and body.a[0][0].op == 'one' and dom.op == 'elems':
                b = body.a[0][0]
                n = mk_len(dom.a[0])
                i, y = fresh('u'), fresh('u')
                gi = subst(b.a[0], {x: mk('nth', dom.a[0], i)})
                ei = subst(b.a[1], {x: mk('nth', dom.a[0], i)})
                gy = subst(b.a[0], {x: mk('nth', dom.a[0], y)})
                before = mk_sum(rng(ZERO, i), y, gy)
                ps.append(bind_raw('for', i, [], rng(ZERO, n), seq([one(gi, tup(add(off, before), ei))])))
                off = add(off, mk_sum(dom, x, b.a[0]))
            else:
                return raw('seq', (bind_raw('for', x, [], raw('enum', s), seq([one(ONE, x)])),))
    return seq(ps)


def seq_take(ev, s, n):
    p = ev.positions(s)
    if not p:
        return None
    m, f = p
    from eval import INF
    if m is INF:
        return ev.from_positions(n, f)
    return ev.from_positions(minv(n, m, True), f)


@fn('Iterator::take')
def _take(c):
    s = c.v(0)
    if s.op == 'repeatf':
        # a fresh call per element
        x = fresh('u')
        base = seq_for(rng(ZERO, c.v(1)), x, seq([one(ONE, x)]))
        return c.ev.seq_run(base, lambda e, st: seq([one(ONE, c.app(s.a[0], st=st))]), c.st, c.fr)
    r = seq_take(c.ev, c.seq(0), c.v(1))
    return r if r is not None else raw('call', 'take', c.seq(0), c.v(1))


@fn('Iterator::skip')
def _skip(c):
    p = c.ev.positions(c.seq(0))
    if not p:
        return raw('call', 'skip', c.seq(0), c.v(1))
    n, f = p
    k = c.v(1)
    from eval import INF
    if n is INF:
        return c.ev.from_positions(INF, lambda i: f(add(i, k)))
    g = lt(k, n, True)
    return c.ev.from_positions(mul(g, sub(n, k)), lambda i: f(add(i, k)))


@fn('Iterator::step_by')
def _step(c):
    p = c.ev.positions(c.seq(0))
    if not p:
        return raw('call', 'step_by', c.seq(0), c.v(1))
    n, f = p
    k = c.v(1)
    return c.ev.from_positions(idiv(sub(add(n, k), ONE), k), lambda i: f(mul(i, k)))


def seq_rev(ev, s):
    p = ev.positions(s)
    if not p:
        if all(q.op == 'one' for q in s.a[0]):
            return seq(tuple(reversed(s.a[0])))
        return None
    n, f = p
    return ev.from_positions(n, lambda i: f(sub(sub(n, i), ONE)))


@fn('Iterator::rev')
def _rev(c):
    r = seq_rev(c.ev, c.seq(0))
    return r if r is not None else raw('call', 'rev', c.seq(0))


@fn('Iterator::zip')
def _zip(c):
    a, b = c.ev.positions(c.seq(0)), c.ev.positions(c.seq(1))
    from eval import INF
    if a and b:
        n = b[0] if a[0] is INF else a[0] if b[0] is INF or a[0] is b[0] else minv(a[0], b[0], True)
        return c.ev.from_positions(n, lambda i: tup(a[1](i), b[1](i)))
    return raw('call', 'zip', c.seq(0), c.seq(1))


@fn('Iterator::take_while', 'Iterator::skip_while', 'Iterator::map_while', 'Iterator::scan', 'slice::windows',
    'Iterator::min_by', 'Iterator::max_by', 'Iterator::min_by_key', 'Iterator::max_by_key',
    'Iterator::partition', 'Iterator::unzip', 'slice::binary_search', 'Iterator::reduce', 'Iterator::is_sorted',
    'slice::concat', 'slice::split_at', 'slice::split_first', 'slice::split_last',
    'Iterator::cmp', 'Iterator::eq', 'Iterator::last', 'Iterator::try_for_each')
def _opq(c):
    m = c.e['fn'].split('::')[-1]
    if m == 'partition':
        t = c.rt[1][0]
        ss = c.seq(0)
        yes, no = [], []

        def g(want):
            def h(e, st):
                k = tobool(c.app(c.args[1], e, st=st))
                return seq([one(k if want else not_(k), e)])
            return h
        return tup(collect(c.ev, c.ev.seq_run(ss, g(True), c.st, c.fr), t, c.st),
                   collect(c.ev, c.ev.seq_run(ss, g(False), c.st, c.fr), t, c.st))
    if m == 'last':
        p = c.ev.positions(c.seq(0))
        if p:
            return ite(eq0(p[0], True), NONE, some(p[1](sub(p[0], ONE))))
    vals = [c.v(i) for i in range(len(c.args))]
    return raw('call', m, *vals)


@fn('Iterator::fold')
def _fold(c):
    acc = c.ev.newcell(c.st, c.args[1])

    def body(e, st):
        cur = st.store[acc]
        r = c.app(c.args[2], cur, e, st=st)
        if not st.dead:
            st.store[acc] = c.ev.coerce(r, c.rt) if r.op == 'ite' else r
    c.ev.loop_seq(c.seq(0), body, c.st, c.fr, None, c.et())
    return c.st.store[acc]


@fn('Iterator::sum', 'Sum::sum')
def _sum(c):
    return seq_sum(c.seq(0), lambda e: c.ev.val(e, c.st)) if c.kind(c.rt) in 'uir' else NotImplemented


@fn('Iterator::product', 'Product::product')
def _product(c):
    return seq_prod(c.seq(0), lambda e: c.ev.val(e, c.st)) if c.kind(c.rt) in 'uir' else NotImplemented


@fn('Iterator::count')
def _count(c):
    return seq_len(c.seq(0))


@fn('Iterator::any')
def _any(c):
    s = c.ev.seq_run(c.seq(0), lambda e, st: seq([one(tobool(c.app(c.args[1], e, st=st)), UNIT)]), c.st, c.fr, c.et())
    return seq_any(s, lambda e: ONE)


@fn('Iterator::all')
def _all(c):
    s = c.ev.seq_run(c.seq(0), lambda e, st: seq([one(not_(tobool(c.app(c.args[1], e, st=st))), UNIT)]), c.st, c.fr,
                     c.et())
    return not_(seq_any(s, lambda e: ONE))


@fn('Iterator::find')
def _find(c):
    s = c.ev.seq_run(c.seq(0), lambda e, st: seq([one(tobool(c.app(c.args[1], e, st=st)), e)]), c.st, c.fr, c.et())
    ex, v = c.ev.seq_first(s)
    return ite(ex, some(v), NONE)


@fn('Iterator::find_map')
def _findmap(c):
    s = _filtermap(c)
    ex, v = c.ev.seq_first(s)
    return ite(ex, some(v), NONE)


@fn('Iterator::position')
def _position(c):
    p = c.ev.positions(c.seq(0))
    if not p:
        return NotImplemented
    n, f = p
    s = c.ev.from_positions(n, lambda i: tup(i, f(i)))
    s = c.ev.seq_run(s, lambda e, st: seq([one(tobool(c.app(c.args[1], e.a[1], st=st)), e.a[0])]), c.st, c.fr)
    ex, v = c.ev.seq_first(s)
    return ite(ex, some(v), NONE)


@fn('Iterator::next', 'DoubleEndedIterator::next_back')
def _next(c):
    p = c.pl(0)
    t = c.at(0)
    v = c.ev.read(p, c.st) if p is not None else c.v(0)
    if c.e['fn'].endswith('back'):
        return NotImplemented
    if t is not None and (v.op == 'seq' or t[0] == 'adt' and t[1] not in c.ev.p.adts) and v.op != 'sym':
        s = c.ev.iterseq(v, t, c.st)
        ps = s.a[0]
        if not ps:
            return NONE
        if ps[0].op == 'one' and const_of(ps[0].a[0]) == 1:
            if p is not None:
                c.ev.write(p, seq(ps[1:]), c.st)
            return some(ps[0].a[1])
        ex, first = c.ev.seq_first(s)
        q = c.ev.positions(s)
        if p is not None:
            if q:
                n, f = q
                g = eq0(n, True)
                c.ev.write(p, c.ev.from_positions(sub(n, not_(g)), lambda i: f(add(i, ONE))), c.st)
            else:
                c.ev.write(p, raw('seqtail', s), c.st)
        return ite(ex, some(first), NONE)
    r = raw('call', 'next', v)
    if p is not None:
        c.ev.write(p, raw('post', r, 0), c.st)
    return r


@fn('Iterator::nth')
def _nth(c):
    q = c.ev.positions(c.seq(0))
    if not q:
        return NotImplemented
    n, f = q
    i = c.v(1)
    return ite(lt(i, n, True), some(f(i)), NONE)


def extremum(m):
    def g(c):
        s = c.seq(0)
        t = c.et() or (c.rt[2][0] if c.rt and c.rt[0] == 'adt' else None)
        ex = seq_any(s, lambda e: ONE)
        ps = s.a[0]
        if len(ps) == 1:
            p = ps[0]
            if p.op == 'one':
                return ite(p.a[0], some(p.a[1]), NONE)
        return ite(ex, some(raw(m, s)), NONE)
    return g


FN['Iterator::max'] = extremum('smax')
FN['Iterator::min'] = extremum('smin')


def collect(ev, s, t, st):
    k = ev.kind(t) if t is not None else 'o'
    if k == 'vec':
        return mk_vec(s)
    if k == 'set':
        return mk_set(s)
    if k == 'map':
        return mk('map', s)
    if k in ('opt', 'res'):
        ok = 'Some' if k == 'opt' else 'Ok'
        bad = seq_any(s, lambda e: not_(mk_is(e, ok)))
        inner = collect(ev, seq_map(s, lambda e: mk_vf(e, ok, 0)), t[2][0], st)
        if k == 'opt':
            return ite(bad, NONE, some(inner))
        _, fe = ev.seq_first(seq_filter(s, lambda e: not_(mk_is(e, 'Ok'))))
        return ite(bad, ctor('Result', 'Err', mk_vf(fe, 'Err', 0) if fe.op != 'bottom' else fe),
                   ctor('Result', 'Ok', inner))
    if t is not None and t[0] == 'adt' and short(t[1]) == 'Box':
        return collect(ev, s, t[2][0], st)
    return raw('call', 'collect', s)


@fn('Iterator::collect', 'FromIterator::from_iter', 'ParallelIterator::collect')
def _collect(c):
    return collect(c.ev, c.seq(0), c.rt, c.st)


@fn('iter::repeat')
def _repeat(c):
    from eval import INF
    x = fresh('u')
    v = c.v(0)
    return seq([mk_for(rng(ZERO, INF), x, seq([one(ONE, v)]))])


@fn('iter::repeat_n')
def _repeatn(c):
    x = fresh('u')
    return seq_for(rng(ZERO, c.v(1)), x, seq([one(ONE, c.v(0))]))


@fn('iter::repeat_with')
def _repeatwith(c):
    return raw('repeatf', c.args[0])


@fn('iter::once')
def _once(c):
    return seq([one(ONE, c.v(0))])


@fn('iter::empty')
def _empty(c):
    return seq([])


@fn('RangeInclusive::new')
def _rincl(c):
    return mk('rec', 'RangeInclusive', ('start', 'end'), (c.v(0), c.v(1)))


@fn('Range::contains', 'RangeInclusive::contains')
def _rcont(c):
    r, v = c.v(0), c.v(1)
    hi = mk_field(r, 'end')
    return mul(le(mk_field(r, 'start'), v, True), lt(v, hi, True) if 'Inclusive' not in c.e['fn'] else le(v, hi, True))


# ---------------------------------------------------------------- rand / rayon
@fn('RngCore::fill_bytes')
def _fill(c):
    p = c.pl(1)
    v = c.ev.read(p, c.st)
    x = fresh('u')
    r = raw('call', 'random', c.v(0))
    c.ev.event('fill_bytes', c.e, c.st, v=v)
    c.ev.write(p, mk_vec(seq([mk_for(rng(ZERO, mk_len(v)), x, seq([one(ONE, raw('idx', r, x))]))])), c.st)
    c.put(0, raw('post', r, 0))
    return UNIT


@fn('Rng::gen_range', 'Rng::gen', 'Rng::gen_bool')
def _gen(c):
    r = raw('call', 'rand', *[c.v(i) for i in range(len(c.args))])
    c.put(0, raw('post', r, 0))
    return r


@fn('SeedableRng::from_rng', 'SeedableRng::from_entropy', 'rayon::current_num_threads', 'rand::thread_rng')
def _seed(c):
    return raw('call', c.e['fn'].split('::')[-1])


# ---------------------------------------------------------------- async and misc that never matters here
@fn('Hash::hash')
def _hash(c):
    return UNIT


import stdmore  # noqa: E402,F401  the models of the other file join these
