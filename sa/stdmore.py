"""Further models: iterator adaptors with early exits, reorderings, parts of vectors."""
from terms import *
import terms as TM
from load import short
from stdmodel import fn, FN, br, must, okname, unref, elemty, seq_filter, collect, value_eq, default, entry_place, raw_elems, issub
import stdmodel as SM


def unbounded(s):
    from eval import INF
    st = [s]
    while st:
        u = st.pop()
        for p in u.a[0]:
            if p.op != 'one':
                d = p.a[0]
                if d.op == 'nat' or d.op == 'range' and d.a[1] is INF:
                    return True
                st.append(p.a[1])
    return False


def posv(ev, s):
    """(length, i -> element) of any bounded sequence"""
    if s.op != 'seq':
        if s.op == 'call' and s.a[0] in ('take', 'skip', 'rev', 'zip', 'step_by') or s.op == 'seqtail':
            x = fresh('')
            v = mk_vec(seq([mk_for(raw('elems', s), x, seq([one(ONE, x)]))]))
            return mk_len(v), lambda i: mk_idx(v, i)
        return None
    p = ev.positions(s)
    if p:
        return p
    if unbounded(s):
        return None
    v = mk_vec(s)
    return mk_len(v), lambda i: mk_idx(v, i)


def endless(n):
    from eval import INF
    return n is INF


def part(v, lo, hi):
    x = fresh('u')
    if lo is ZERO:
        return mk_vec(seq_for(rng(ZERO, hi), x, seq([one(ONE, mk_idx(v, x))])))
    return mk_vec(seq_for(rng(ZERO, sub(hi, lo)), x, seq([one(ONE, mk_idx(v, add(lo, x)))])))


def parts(v, lo, hi):
    """sequence of v[lo..hi]"""
    return vec_seq(part(v, lo, hi))


def leave(c, st):
    """break out of the loop that is being run"""
    c.fr.loops[-1].breaks.append(c.ev.outcome(st, UNIT))
    st.dead = 'jump'
    return UNIT


def run_loop(c, s, body, et=None):
    c.ev.loop_seq(s, body, c.st, c.fr, None, et)


def eager(c, step):
    """elements that a loop with early exit produces; step(e, st, emit)"""
    acc = c.ev.newcell(c.st, mk_vec(seq([])))

    def emit(st, v):
        if not st.dead:
            st.store[acc] = mk_vec(seq_cat(vec_seq(st.store[acc]), seq([one(ONE, v)])))
        return UNIT
    run_loop(c, c.seq(0), lambda e, st: step(e, st, emit), c.et())
    return vec_seq(c.st.store[acc])


@fn('Iterator::take_while')
def _take_while(c):
    return eager(c, lambda e, st, emit: c.ev.branch(tobool(c.app(c.args[1], e, st=st)), st, lambda s: emit(s, e), lambda s: leave(c, s)))


@fn('Iterator::map_while')
def _map_while(c):
    def step(e, st, emit):
        r = c.ev.val(c.app(c.args[1], e, st=st), st)
        if st.dead:
            return UNIT
        return c.ev.branch(mk_is(r, 'Some'), st, lambda s: emit(s, mk_vf(r, 'Some', 0)), lambda s: leave(c, s))
    return eager(c, step)


@fn('Iterator::scan')
def _scan(c):
    cell = c.ev.newcell(c.st, c.args[1])

    def step(e, st, emit):
        r = c.ev.val(c.app(c.args[2], raw('ref', cell, ()), e, st=st), st)
        if st.dead:
            return UNIT
        return c.ev.branch(mk_is(r, 'Some'), st, lambda s: emit(s, mk_vf(r, 'Some', 0)), lambda s: leave(c, s))
    return eager(c, step)


@fn('Iterator::skip_while')
def _skip_while(c):
    p = posv(c.ev, c.seq(0))
    if not p or endless(p[0]):
        return NotImplemented
    n, f = p
    q = posv(c.ev, c.ev.seq_run(c.ev.from_positions(n, f), lambda e, st: seq([one(ONE, tobool(c.app(c.args[1], e, st=st)))]), c.st, c.fr))
    g = q[1]
    x, y = fresh('u'), fresh('u')
    return seq_for(rng(ZERO, n), x, seq([one(mk_any(rng(ZERO, add(x, ONE)), y, not_(tobool(g(y)))), f(x))]))


def wrapped(c, x):
    return some(x) if c.kind(c.rt) == 'opt' else ctor('Result', 'Ok', x)


@fn('Iterator::try_fold', 'Iterator::try_for_each')
def _try_fold(c):
    if c.kind(c.rt) not in ('opt', 'res'):
        return NotImplemented
    n = 'Some' if c.kind(c.rt) == 'opt' else 'Ok'
    fold = c.e['fn'].endswith('fold')
    acc = c.ev.newcell(c.st, c.args[1] if fold else UNIT)
    out = c.ev.newcell(c.st, NONE if n == 'Some' else BOT)
    left = c.ev.newcell(c.st, ZERO)

    def body(e, st):
        r = c.app(c.args[2], st.store[acc], e, st=st) if fold else c.app(c.args[1], e, st=st)
        if st.dead:
            return UNIT
        r = c.ev.val(r, st)

        def go(s):
            s.store[acc] = mk_vf(r, n, 0)
            return UNIT

        def stop(s):
            s.store[left] = ONE
            if n == 'Ok':
                s.store[out] = r
            return leave(c, s)
        return c.ev.branch(mk_is(r, n), st, go, stop)
    p = c.pl(0) if c.args[0].op == 'ref' else None
    run_loop(c, c.seq(0), body, c.et())
    if p is not None:
        c.ev.write(p, raw('call', '?rest', c.v(0)), c.st)
    return ite(tobool(c.st.store[left]), c.st.store[out], wrapped(c, c.st.store[acc]))


@fn('DoubleEndedIterator::rfold')
def _rfold(c):
    p = posv(c.ev, c.seq(0))
    if not p or endless(p[0]):
        return NotImplemented
    n, f = p
    acc = c.ev.newcell(c.st, c.args[1])

    def body(e, st):
        r = c.app(c.args[2], st.store[acc], e, st=st)
        if not st.dead:
            st.store[acc] = c.ev.coerce(r, c.rt) if r.op == 'ite' else r
    run_loop(c, c.ev.from_positions(n, lambda i: f(sub(sub(n, i), ONE))), body)
    return c.st.store[acc]


def reducing(c, s, f, t=None):
    """Option of the elements joined by f(acc, elem, state)"""
    acc = c.ev.newcell(c.st, NONE)

    def body(e, st):
        cur = st.store[acc]
        r = c.ev.branch(mk_is(cur, 'Some'), st, lambda s: f(mk_vf(cur, 'Some', 0), e, s), lambda s: e)
        if not st.dead:
            st.store[acc] = some(r)
    p = c.ev.positions(s)
    ps = s.a[0]
    if ps and ps[0].op == 'one' and const_of(ps[0].a[0]) == 1:
        # a first element for certain
        acc = c.ev.newcell(c.st, ps[0].a[1])

        def body(e, st):
            r = f(st.store[acc], e, st)
            if not st.dead:
                st.store[acc] = r
        run_loop(c, seq(ps[1:]), body, t)
        return some(c.st.store[acc])
    if p and not endless(p[0]) and TM.scalar(p[1](ZERO)):
        n, g = p
        acc = c.ev.newcell(c.st, ite(eq0(n, True), ZERO, g(ZERO)))

        def body(e, st):
            r = f(st.store[acc], e, st)
            if not st.dead:
                st.store[acc] = r
        run_loop(c, c.ev.from_positions(mul(not_(eq0(n, True)), sub(n, ONE)), lambda i: g(add(i, ONE))), body, t)
        return ite(eq0(n, True), NONE, some(c.st.store[acc]))
    run_loop(c, s, body, t)
    return c.st.store[acc]


@fn('Iterator::reduce', 'ParallelIterator::reduce_with')
def _reduce(c):
    return reducing(c, c.seq(0), lambda a, e, st: c.app(c.args[1], a, e, st=st), c.et())


def less(c, a, b, t):
    t = unref(t) if t is not None else None
    k = c.kind(t) if t is not None else 'o'
    if k in ('u', 'i', 'r'):
        return lt(a, b, k != 'r')
    if k == 'b':
        return mul(not_(tobool(a)), tobool(b))
    return raw('b', raw('call', 'rel.lt', a, b))


@fn('Iterator::max_by_key', 'Iterator::min_by_key')
def _by_key(c):
    t = c.ga[-2] if len(c.ga) >= 3 else None
    big = c.e['fn'].endswith('max_by_key')
    s = c.ev.seq_run(c.seq(0), lambda e, st: seq([one(ONE, tup(c.ev.val(c.app(c.args[1], e, st=st), st), e))]), c.st, c.fr, c.et())

    def f(a, e, st):
        k = less(c, mk_field(e, '0'), mk_field(a, '0'), t)
        return ite(k, a, e) if big else ite(k, e, a)
    r = reducing(c, s, f)
    return ite(mk_is(r, 'Some'), some(mk_field(mk_vf(r, 'Some', 0), '1')), NONE)


@fn('Iterator::max_by', 'Iterator::min_by')
def _by(c):
    big = c.e['fn'].endswith('max_by')

    def f(a, e, st):
        r = c.app(c.args[1], a, e, st=st)
        if st.dead:
            return BOT
        g = mk_is(c.ev.val(r, st), 'Greater')
        return ite(g, a, e) if big else ite(g, e, a)
    return reducing(c, c.seq(0), f, c.et())


@fn('Iterator::rposition')
def _rposition(c):
    p = posv(c.ev, c.seq(0))
    if not p:
        return NotImplemented
    n, f = p
    i = lambda k: sub(sub(n, k), ONE)
    s = c.ev.from_positions(n, lambda k: tup(i(k), f(i(k))))
    s = c.ev.seq_run(s, lambda e, st: seq([one(tobool(c.app(c.args[1], e.a[1], st=st)), e.a[0])]), c.st, c.fr)
    ex, v = c.ev.seq_first(s)
    return ite(ex, some(v), NONE)


@fn('DoubleEndedIterator::rfind')
def _rfind(c):
    s = SM.seq_rev(c.ev, c.seq(0))
    if s is None:
        return NotImplemented
    s = c.ev.seq_run(s, lambda e, st: seq([one(tobool(c.app(c.args[1], e, st=st)), e)]), c.st, c.fr, c.et())
    ex, v = c.ev.seq_first(s)
    return ite(ex, some(v), NONE)


@fn('Iterator::last')
def _last(c):
    p = posv(c.ev, c.seq(0))
    if not p:
        return NotImplemented
    return ite(eq0(p[0], True), NONE, some(p[1](sub(p[0], ONE))))


@fn('Iterator::sum', 'Sum::sum', 'Iterator::product', 'Product::product')
def _sum(c):
    prod = c.e['fn'].endswith('product')
    g = seq_prod if prod else seq_sum
    k = c.kind(c.rt)
    if k in ('u', 'i', 'r'):
        return g(c.seq(0), lambda e: c.ev.val(e, c.st))
    if k in ('opt', 'res') and c.kind(c.rt[2][0]) in ('u', 'i', 'r'):
        s, ok = c.seq(0), 'Some' if k == 'opt' else 'Ok'
        bad = seq_any(s, lambda e: not_(mk_is(e, ok)))
        v = wrapped(c, g(SM.seq_map(s, lambda e: mk_vf(e, ok, 0)), lambda e: e))
        if k == 'opt':
            return ite(bad, NONE, v)
        _, fe = c.ev.seq_first(seq_filter(s, lambda e: not_(mk_is(e, 'Ok'))))
        return ite(bad, ctor('Result', 'Err', mk_vf(fe, 'Err', 0) if fe.op != 'bottom' else fe), v)
    return NotImplemented


@fn('Iterator::unzip')
def _unzip(c):
    s = c.seq(0)
    if c.rt is None or c.rt[0] != 'tuple':
        return NotImplemented
    return tup(*[collect(c.ev, SM.seq_map(s, lambda e, i=i: mk_field(e, str(i))), c.rt[1][i], c.st) for i in (0, 1)])


@fn('Iterator::cycle')
def _cycle(c):
    from eval import INF
    p = posv(c.ev, c.seq(0))
    if not p or endless(p[0]):
        return NotImplemented
    n, f = p
    return c.ev.from_positions(INF, lambda i: f(imod(i, n)))


_nth0 = FN['Iterator::nth']


@fn('Iterator::nth')
def _nth(c):
    if c.args[0].op != 'ref' or c.pl(0) is None:
        return _nth0(c)
    # what was passed over is gone
    p = posv(c.ev, c.seq(0))
    if not p:
        return NotImplemented
    n, f = p
    i = c.v(1)
    r = ite(ONE if endless(n) else lt(i, n, True), some(f(i)), NONE)
    k = add(i, ONE)
    c.put(0, c.ev.from_positions(n if endless(n) else mul(lt(k, n, True), sub(n, k)), lambda j: f(add(j, k))))
    return r


@fn('Peekable::peek')
def _peek(c):
    p = c.pl(0)
    t = c.at(0)
    v = c.ev.read(p, c.st) if p is not None else c.v(0)
    s = c.ev.iterseq(v, t, c.st)
    ex, first = c.ev.seq_first(s)
    return ite(ex, some(first), NONE)


@fn('Peekable::next_if')
def _next_if(c):
    p = c.pl(0)
    if p is None:
        return NotImplemented
    s = c.ev.iterseq(c.ev.read(p, c.st), c.at(0), c.st)
    q = posv(c.ev, s)
    if not q or endless(q[0]):
        return NotImplemented
    n, f = q
    has = not_(eq0(n, True))
    take = br(c, has, lambda st: tobool(c.app(c.args[1], f(ZERO), st=st)), lambda st: ZERO)
    take = tobool(take)
    c.ev.write(p, c.ev.from_positions(sub(n, take), lambda i: f(add(i, take))), c.st)
    return ite(take, some(f(ZERO)), NONE)


@fn('DoubleEndedIterator::next_back', 'Iterator::next_back')
def _next_back(c):
    p = c.pl(0)
    if p is None:
        return NotImplemented
    v = c.ev.read(p, c.st)
    t = c.at(0)
    if t is None or v.op == 'sym' or t[0] == 'adt' and t[1] in c.ev.p.adts:
        return NotImplemented
    q = posv(c.ev, c.ev.iterseq(v, t, c.st))
    if not q or endless(q[0]):
        return NotImplemented
    n, f = q
    g = eq0(n, True)
    c.ev.write(p, c.ev.from_positions(sub(n, not_(g)), f), c.st)
    return ite(g, NONE, some(f(sub(n, ONE))))


@fn('slice::windows')
def _windows(c):
    v, k = c.v(0), c.v(1)
    n = mk_len(v)
    must(c, lt(ZERO, k, True))
    x = fresh('u')
    g = le(k, n, True)
    return seq_for(rng(ZERO, mul(g, add(sub(n, k), ONE))), x, seq([one(ONE, part(v, x, add(x, k)))]))


def nchunks(c):
    m = c.e['fn'].split('::')[-1]
    n, v = c.v(1), c.v(0)
    r = SM._chunks(c)
    if r is not NotImplemented or m.endswith('mut'):
        return r
    must(c, lt(ZERO, n, True))
    ln = mk_len(v)
    cnt = mk('idiv', ln, n) if 'exact' in m else mk('idiv', sub(add(ln, n), ONE), n)
    x = fresh('u')
    lo = mul(x, n)
    hi = add(lo, n) if 'exact' in m else minv(add(lo, n), ln, True)
    return seq_for(rng(ZERO, cnt), x, seq([one(ONE, part(v, lo, hi))]))


for _m in ('chunks', 'chunks_exact', 'chunks_mut', 'chunks_exact_mut'):
    FN['slice::' + _m] = nchunks


@fn('Iterator::is_sorted', 'slice::is_sorted')
def _is_sorted(c):
    s = c.ev.iterseq(c.v(0), c.at(0), c.st) if 'slice' in c.e['fn'] else c.seq(0)
    p = posv(c.ev, s)
    if not p or endless(p[0]):
        return NotImplemented
    n, f = p
    x = fresh('u')
    t = elemty(c.ev, c.at(0))
    return not_(mk_any(rng(ZERO, sub(n, ONE)), x, less(c, f(add(x, ONE)), f(x), t)))


@fn('Iterator::lt', 'Iterator::le', 'Iterator::gt', 'Iterator::ge')
def _itrel(c):
    return raw('b', raw('call', 'rel.' + c.e['fn'].split('::')[-1], mk_vec(c.seq(0)), mk_vec(c.seq(1))))


@fn('Iterator::cmp', 'Iterator::partial_cmp')
def _itcmp(c):
    return raw('call', c.e['fn'].split('::')[-1], mk_vec(c.seq(0)), mk_vec(c.seq(1)))


@fn('Iterator::eq', 'Iterator::ne')
def _iteq(c):
    r = eqv(mk_vec(c.seq(0)), mk_vec(c.seq(1)))
    return r if c.e['fn'].endswith('eq') else not_(r)


# ---------------------------------------------------------------- iterators that calls make
@fn('iter::successors')
def _successors(c):
    return raw('succf', c.args[0], c.args[1])


@fn('iter::from_fn')
def _from_fn(c):
    return raw('fromf', c.args[0])


class Here:
    """just enough of a call"""

    def __init__(self, ev, st):
        self.ev, self.st = ev, st
        self.fr = type('F', (), {'loops': [], 'rets': []})()

    def app(self, f, *xs, st=None):
        return self.ev.apply(f, list(xs), st or self.st, self.fr, '')


def generated(ev, v, st):
    return generate(Here(ev, st), v, None)


def generate(c, s, limit):
    """elements of successors / from_fn, up to a limit"""
    x = fresh('u')
    base = seq_for(rng(ZERO, limit), x, seq([one(ONE, x)])) if limit is not None else seq([mk_for(raw('nat'), x, seq([one(ONE, x)]))])
    acc = c.ev.newcell(c.st, mk_vec(seq([])))
    if s.op == 'succf':
        cur = c.ev.newcell(c.st, s.a[0])

    def body(e, st):
        r = c.ev.val(st.store[cur] if s.op == 'succf' else c.app(s.a[0], st=st), st)
        if st.dead:
            return UNIT

        def more(z):
            v = mk_vf(r, 'Some', 0)
            z.store[acc] = mk_vec(seq_cat(vec_seq(z.store[acc]), seq([one(ONE, v)])))
            if s.op == 'succf':
                # the next one is made before this one is given out
                n = c.ev.val(c.app(s.a[1], v, st=z), z)
                if not z.dead:
                    z.store[cur] = n
            return UNIT
        return c.ev.branch(mk_is(r, 'Some'), st, more, lambda z: leave(c, z))
    run_loop(c, base, body)
    if limit is None:
        c.ev.unbounded = True
    return vec_seq(c.st.store[acc])


_take0 = FN['Iterator::take']


@fn('Iterator::take')
def _take(c):
    s = c.v(0)
    if s.op in ('succf', 'fromf'):
        return generate(c, s, c.v(1))
    return _take0(c)


# ---------------------------------------------------------------- bool and Option
@fn('bool::then')
def _then(c):
    return br(c, tobool(c.v(0)), lambda s: some(c.ev.val(c.app(c.args[1], st=s), s)), lambda s: NONE)


@fn('bool::then_some')
def _then_some(c):
    return ite(tobool(c.v(0)), some(c.v(1)), NONE)


@fn('Option::xor')
def _xor(c):
    a, b = mk_is(c.v(0), 'Some'), mk_is(c.v(1), 'Some')
    return ite(mul(a, not_(b)), c.v(0), ite(mul(b, not_(a)), c.v(1), NONE))


@fn('Option::ok_or_else')
def _ok_or_else(c):
    v = c.v(0)
    return br(c, mk_is(v, 'Some'), lambda s: ctor('Result', 'Ok', mk_vf(v, 'Some', 0)),
              lambda s: SM.wrap(c, s, 'Err', c.app(c.args[1], st=s)))


@fn('Option::flatten')
def _oflatten(c):
    v = c.v(0)
    return ite(mk_is(v, 'Some'), mk_vf(v, 'Some', 0), NONE)


@fn('Option::transpose')
def _transpose(c):
    v = c.v(0)
    i = mk_vf(v, 'Some', 0)
    return ite(mk_is(v, 'Some'), ite(mk_is(i, 'Ok'), ctor('Result', 'Ok', some(mk_vf(i, 'Ok', 0))), ctor('Result', 'Err', mk_vf(i, 'Err', 0))),
               ctor('Result', 'Ok', NONE))


@fn('Result::transpose')
def _rtranspose(c):
    v = c.v(0)
    i = mk_vf(v, 'Ok', 0)
    return ite(mk_is(v, 'Ok'), ite(mk_is(i, 'Some'), some(ctor('Result', 'Ok', mk_vf(i, 'Some', 0))), NONE),
               some(ctor('Result', 'Err', mk_vf(v, 'Err', 0))))


@fn('Option::unzip')
def _ounzip(c):
    v = c.v(0)
    g, i = mk_is(v, 'Some'), mk_vf(v, 'Some', 0)
    return tup(ite(g, some(mk_field(i, '0')), NONE), ite(g, some(mk_field(i, '1')), NONE))


@fn('Result::err')
def _err(c):
    v = c.v(0)
    return ite(mk_is(v, 'Ok'), NONE, some(mk_vf(v, 'Err', 0)))


@fn('Result::unwrap_err', 'Result::expect_err')
def _unwrap_err(c):
    v = c.v(0)
    must(c, not_(mk_is(v, 'Ok')))
    return mk_vf(v, 'Err', 0)


@fn('Result::or_else')
def _ror_else(c):
    v = c.v(0)
    return br(c, mk_is(v, 'Ok'), lambda s: ctor('Result', 'Ok', mk_vf(v, 'Ok', 0)), lambda s: c.app(c.args[1], mk_vf(v, 'Err', 0), st=s))


@fn('Result::and')
def _rand(c):
    v = c.v(0)
    return ite(mk_is(v, 'Ok'), c.v(1), ctor('Result', 'Err', mk_vf(v, 'Err', 0)))


@fn('Result::or')
def _ror(c):
    v = c.v(0)
    return ite(mk_is(v, 'Ok'), ctor('Result', 'Ok', mk_vf(v, 'Ok', 0)), c.v(1))


@fn('Result::is_ok_and')
def _is_ok_and(c):
    v = c.v(0)
    return br(c, mk_is(v, 'Ok'), lambda s: tobool(c.app(c.args[1], mk_vf(v, 'Ok', 0), st=s)), lambda s: ZERO)


@fn('Result::map_or')
def _rmap_or(c):
    return SM._omapor(c)


@fn('Result::map_or_else')
def _rmap_or_else(c):
    v = c.v(0)
    return br(c, mk_is(v, 'Ok'), lambda s: c.app(c.args[2], mk_vf(v, 'Ok', 0), st=s), lambda s: c.app(c.args[1], mk_vf(v, 'Err', 0), st=s))


@fn('Option::inspect')
def _oinspect(c):
    v = c.v(0)
    br(c, mk_is(v, 'Some'), lambda s: c.app(c.args[1], mk_vf(v, 'Some', 0), st=s), lambda s: UNIT)
    return v


@fn('Option::take_if')
def _take_if(c):
    p = c.pl(0)
    if p is None:
        return NotImplemented
    v = c.ev.read(p, c.st)
    k = tobool(br(c, mk_is(v, 'Some'), lambda s: tobool(c.app(c.args[1], c.ev.place_ref(c.ev.ext(p, ('v', 'Some', 0))), st=s)), lambda s: ZERO))
    v = c.ev.read(p, c.st)
    c.ev.write(p, ite(k, NONE, v), c.st)
    return ite(k, v, NONE)


@fn('hint::must_use', 'hint::black_box')
def _same(c):
    return c.v(0)


# ---------------------------------------------------------------- vectors
@fn('slice::last_mut', 'slice::first_mut')
def _last_mut(c):
    p = c.pl(0)
    if p is None:
        return NotImplemented
    n = mk_len(c.ev.read(p, c.st))
    i = ZERO if 'first' in c.e['fn'] else sub(n, ONE)
    return ite(eq0(n, True), NONE, some(c.ev.place_ref(c.ev.ext(p, ('i', i)))))


@fn('Vec::split_off')
def _split_off(c):
    p = c.pl(0)
    v, i = c.ev.read(p, c.st), c.v(1)
    n = mk_len(v)
    must(c, le(i, n, True))
    if c.st.dead:
        return BOT
    c.ev.write(p, part(v, ZERO, i), c.st)
    return part(v, i, n)


_remove0, _insert0, _resize0 = FN['Vec::remove'], FN['Vec::insert'], FN['Vec::resize']


@fn('Vec::remove', 'Vec::swap_remove')
def _remove(c):
    r = _remove0(c)
    if r is not NotImplemented:
        return r
    p = c.pl(0)
    v, i = c.ev.read(p, c.st), c.v(1)
    n = mk_len(v)
    must(c, lt(i, n, True))
    if c.st.dead:
        return BOT
    e = mk_idx(v, i)
    if c.e['fn'].endswith('::remove'):
        c.ev.write(p, mk_vec(seq_cat(parts(v, ZERO, i), parts(v, add(i, ONE), n))), c.st)
    else:
        c.ev.write(p, part(mk_upd(v, i, mk_idx(v, sub(n, ONE))), ZERO, sub(n, ONE)), c.st)
    return e


@fn('Vec::insert')
def _insert(c):
    r = _insert0(c)
    if r is not NotImplemented:
        return r
    p = c.pl(0)
    v, i = c.ev.read(p, c.st), c.v(1)
    n = mk_len(v)
    must(c, le(i, n, True))
    if not c.st.dead:
        c.ev.write(p, mk_vec(seq_cat(seq_cat(parts(v, ZERO, i), seq([one(ONE, c.v(2))])), parts(v, i, n))), c.st)
    return UNIT


def resized(c, make):
    p = c.pl(0)
    v, k = c.ev.read(p, c.st), c.v(1)
    n = mk_len(v)
    x = fresh('u')
    more = mul(lt(n, k, True), sub(k, n))
    tail = seq_for(rng(ZERO, more), x, seq([one(ONE, x)]))
    tail = c.ev.seq_run(tail, lambda e, st: seq([one(ONE, make(st))]), c.st, c.fr)
    if not c.st.dead:
        c.ev.write(p, mk_vec(seq_cat(parts(v, ZERO, minv(n, k, True)), tail)), c.st)
    return UNIT


@fn('Vec::resize')
def _resize(c):
    r = _resize0(c)
    return r if r is not NotImplemented else resized(c, lambda st: c.v(2))


@fn('Vec::resize_with')
def _resize_with(c):
    return resized(c, lambda st: c.app(c.args[2], st=st))


@fn('slice::concat')
def _concat(c):
    t = elemty(c.ev, c.at(0))
    return mk_vec(c.ev.seq_bind(c.ev.iterseq(c.v(0), c.at(0), c.st), lambda e: c.ev.iterseq(e, t, c.st)))


@fn('slice::split_first', 'slice::split_last')
def _split_end(c):
    v = c.v(0)
    n = mk_len(v)
    if 'first' in c.e['fn']:
        r = tup(mk_idx(v, ZERO), part(v, ONE, n))
    else:
        r = tup(mk_idx(v, sub(n, ONE)), part(v, ZERO, sub(n, ONE)))
    return ite(eq0(n, True), NONE, some(r))


@fn('slice::split_at')
def _split_at(c):
    v, i = c.v(0), c.v(1)
    n = mk_len(v)
    must(c, le(i, n, True))
    return tup(part(v, ZERO, i), part(v, i, n))


@fn('slice::split_at_mut')
def _split_at_mut(c):
    p = c.pl(0)
    if p is None:
        return NotImplemented
    i = c.v(1)
    n = mk_len(c.ev.read(p, c.st))
    must(c, le(i, n, True))
    return tup(c.ev.place_ref(c.ev.ext(p, ('r', ZERO, i))), c.ev.place_ref(c.ev.ext(p, ('r', i, n))))


@fn('slice::copy_from_slice', 'slice::clone_from_slice')
def _copy_from(c):
    p = c.pl(0)
    if p is None:
        return NotImplemented
    v = c.v(1)
    must(c, eq(mk_len(c.ev.read(p, c.st)), mk_len(v), True))
    if not c.st.dead:
        c.ev.write(p, v, c.st)
    return UNIT


@fn('slice::starts_with', 'slice::ends_with')
def _starts(c):
    return raw('b', raw('call', c.e['fn'].split('::')[-1], c.v(0), c.v(1)))


@fn('slice::rotate_left', 'slice::rotate_right')
def _rotate(c):
    p = c.pl(0)
    v, k = c.ev.read(p, c.st), c.v(1)
    n = mk_len(v)
    must(c, le(k, n, True))
    if c.st.dead:
        return BOT
    m = k if c.e['fn'].endswith('left') else sub(n, k)
    c.ev.write(p, mk_vec(seq_cat(parts(v, m, n), parts(v, ZERO, m))), c.st)
    return UNIT


@fn('slice::repeat')
def _srepeat(c):
    v = c.v(0)
    x, y = fresh('u'), fresh('u')
    return mk_vec(seq_for(rng(ZERO, c.v(1)), x, seq_for(rng(ZERO, mk_len(v)), y, seq([one(ONE, mk_idx(v, y))]))))


@fn('Vec::dedup', 'Vec::dedup_by_key')
def _dedup(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    n = mk_len(v)
    t = elemty(c.ev, c.at(0))
    key = lambda i: mk_idx(v, i)
    if c.e['fn'].endswith('by_key'):
        cell = {}
        x = fresh('u')
        s = seq_for(rng(ZERO, n), x, seq([one(ONE, mk_idx(v, x))]))

        def f(e, st):
            k = c.ev.newcell(st, e)
            r = c.ev.val(c.app(c.args[1], raw('ref', k, ()), st=st), st)
            return seq([one(ONE, r)])
        ks = posv(c.ev, c.ev.seq_run(s, f, c.st, c.fr))
        key, t = ks[1], (c.ga[-1] if c.ga else None)
        same = lambda a, b: eqv(a, b) if not TM.scalar(a) else eq(a, b, False)
    else:
        same = lambda a, b: value_eq(c.ev, a, b, t, c.st)
    x = fresh('u')
    first = eq0(x, True)
    keep = or_(first, not_(same(key(x), key(sub(x, ONE)))))
    c.ev.write(p, mk_vec(seq_for(rng(ZERO, n), x, seq([one(keep, mk_idx(v, x))]))), c.st)
    return UNIT


@fn('slice::sort_by', 'slice::sort_unstable_by')
def _sort_by(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    n = mk_len(v)
    # what the comparison says of each pair
    x, y = fresh('u'), fresh('u')
    s = seq_for(rng(ZERO, n), x, seq_for(rng(ZERO, n), y, seq([one(ONE, tup(mk_idx(v, x), mk_idx(v, y)))])))
    m = c.ev.seq_run(s, lambda e, st: seq([one(ONE, c.ev.val(c.app(c.args[1], mk_field(e, '0'), mk_field(e, '1'), st=st), st))]), c.st, c.fr)
    if c.st.dead:
        return BOT
    c.ev.write(p, raw('call', 'sort_by', v, mk_vec(m)), c.st)
    return UNIT


@fn('slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def _sort_by_key(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    x = fresh('u')
    s = seq_for(rng(ZERO, mk_len(v)), x, seq([one(ONE, mk_idx(v, x))]))
    ks = c.ev.seq_run(s, lambda e, st: seq([one(ONE, c.ev.val(c.app(c.args[1], e, st=st), st))]), c.st, c.fr)
    if c.st.dead:
        return BOT
    c.ev.write(p, raw('call', 'sort_by_key', v, mk_vec(ks)), c.st)
    return UNIT


@fn('slice::binary_search')
def _bsearch(c):
    v, e = c.v(0), c.v(1)
    return raw('call', 'binary_search', v, e)


@fn('slice::partition_point')
def _ppoint(c):
    v = c.v(0)
    x = fresh('u')
    s = seq_for(rng(ZERO, mk_len(v)), x, seq([one(ONE, mk_idx(v, x))]))
    r = c.ev.seq_run(s, lambda e, st: seq([one(tobool(c.app(c.args[1], e, st=st)), UNIT)]), c.st, c.fr)
    return seq_len(r)


@fn('array::map')
def _amap(c):
    return mk_vec(c.ev.seq_run(vec_seq(c.v(0)), lambda e, st: seq([one(ONE, c.app(c.args[1], e, st=st))]), c.st, c.fr))


@fn('array::from_fn')
def _afrom(c):
    if c.rt is None or c.rt[0] != 'array' or not str(c.rt[2]).isdigit():
        return NotImplemented
    x = fresh('u')
    s = seq_for(rng(ZERO, num(int(c.rt[2]))), x, seq([one(ONE, x)]))
    return mk_vec(c.ev.seq_run(s, lambda e, st: seq([one(ONE, c.app(c.args[0], e, st=st))]), c.st, c.fr))


@fn('VecDeque::pop_front')
def _pop_front(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    n = mk_len(v)
    e = eq0(n, True)
    r = ite(e, NONE, some(mk_idx(v, ZERO)))
    c.ev.write(p, part(v, not_(e), n), c.st)
    return r


@fn('VecDeque::pop_back')
def _pop_back(c):
    return SM._pop(c)


@fn('VecDeque::push_front')
def _push_front(c):
    p = c.pl(0)
    c.ev.write(p, mk_vec(seq_cat(seq([one(ONE, c.v(1))]), vec_seq(c.ev.read(p, c.st)))), c.st)
    return UNIT


@fn('VecDeque::front')
def _front(c):
    return SM._first(c)


@fn('VecDeque::back')
def _back(c):
    return FN['slice::last'](c)


# ---------------------------------------------------------------- maps and sets
@fn('HashMap::get_key_value', 'BTreeMap::get_key_value')
def _gkv(c):
    m, k = c.v(0), c.v(1)
    return ite(mk_contains(m, k), some(tup(k, mk('mget', m, k))), NONE)


@fn('HashMap::remove_entry', 'BTreeMap::remove_entry')
def _rentry(c):
    p = c.pl(0)
    m, k = c.ev.read(p, c.st), c.v(1)
    c.ev.write(p, mk('mremove', m, k), c.st)
    return ite(mk_contains(m, k), some(tup(k, mk('mget', m, k))), NONE)


def setofs(s):
    return set_seq(mk_set(s))


def notin(c, a, b):
    return seq_filter(raw_elems(a), lambda e: not_(mk_contains(b, e)))


_union0 = FN['BTreeSet::union']


@fn('BTreeSet::union', 'HashSet::union', 'BTreeSet::symmetric_difference', 'HashSet::symmetric_difference')
def _union(c):
    a, b = c.v(0), c.v(1)
    if c.e['fn'].endswith('union'):
        return setofs(seq_cat(raw_elems(a), raw_elems(b)))
    return setofs(seq_cat(notin(c, a, b), notin(c, b, a)))


def setop(op):
    old = FN.get(op)

    def g(c):
        if c.kind(c.at(0)) != 'set':
            return old(c) if old else NotImplemented
        a, b = c.v(0), c.v(1)
        m = op.split('::')[1]
        if m == 'bitor':
            s = seq_cat(raw_elems(a), raw_elems(b))
        elif m == 'bitand':
            s = seq_filter(raw_elems(a), lambda e: mk_contains(b, e))
        elif m == 'sub':
            s = notin(c, a, b)
        else:
            s = seq_cat(notin(c, a, b), notin(c, b, a))
        return mk_set(s)
    return g


for _o in ('BitOr::bitor', 'BitAnd::bitand', 'BitXor::bitxor', 'Sub::sub'):
    FN[_o] = setop(_o)


@fn('BTreeSet::pop_first', 'BTreeSet::pop_last')
def _spop(c):
    p = c.pl(0)
    v = c.ev.read(p, c.st)
    n = mk_len(v)
    e = mk('nth', v, ZERO if c.e['fn'].endswith('first') else sub(n, ONE))
    c.ev.write(p, ite(eq0(n, True), v, mk('sremove', v, e)), c.st)
    return ite(eq0(n, True), NONE, some(e))


@fn('BTreeSet::append')
def _sappend(c):
    p = c.pl(0)
    v, w = c.ev.read(p, c.st), c.v(1)
    c.ev.write(p, mk_set(seq_cat(raw_elems(v), raw_elems(w))), c.st)
    c.put(1, mk_set(seq([])))
    return UNIT


@fn('BTreeSet::get', 'HashSet::get')
def _sget(c):
    return ite(mk_contains(c.v(0), c.v(1)), some(c.v(1)), NONE)


@fn('BTreeSet::take', 'HashSet::take')
def _stake(c):
    v, e = c.v(0), c.v(1)
    r = ite(mk_contains(v, e), some(e), NONE)
    c.put(0, mk('sremove', v, e))
    return r


@fn('BTreeSet::is_disjoint', 'HashSet::is_disjoint')
def _disj(c):
    return SM._disj(c)


# ---------------------------------------------------------------- ranges and numbers
def rel_range(c, x, incl_hi=False):
    r = c.v(0)
    k = c.kind(unref(c.ats[1])) if len(c.ats) > 1 and c.ats[1] is not None else 'u'
    I = k != 'r'
    n = c.e['fn']
    r_ = []
    if 'RangeTo' not in n:
        r_.append(le(mk_field(r, 'start'), x, I))
    if 'RangeFrom' not in n:
        hi = mk_field(r, 'end')
        r_.append(le(x, hi, I) if 'Inclusive' in n else lt(x, hi, I))
    return muls(ONE, *r_)


@fn('RangeTo::contains', 'RangeFrom::contains', 'RangeToInclusive::contains', 'Range::contains', 'RangeInclusive::contains')
def _contains(c):
    return rel_range(c, c.v(1))


@fn('Range::is_empty')
def _rempty(c):
    r = c.v(0)
    return not_(lt(mk_field(r, 'start'), mk_field(r, 'end'), True))


@fn('num::signum')
def _signum(c):
    x = c.v(0)
    return sub(lt(ZERO, x, True), lt(x, ZERO, True))


@fn('num::is_positive')
def _ispos(c):
    return lt(ZERO, c.v(0), True)


@fn('num::is_negative')
def _isneg(c):
    return lt(c.v(0), ZERO, True)


@fn('num::unsigned_abs')
def _uabs(c):
    return mk('abs', c.v(0))


@fn('num::checked_div', 'num::checked_rem')
def _checked_div(c):
    a, b = c.v(0), c.v(1)
    if c.kind(c.at(0)) != 'u':
        return NotImplemented
    return ite(eq0(b, True), NONE, some(idiv(a, b) if c.e['fn'].endswith('div') else imod(a, b)))


@fn('Ord::clamp', 'f64::clamp', 'f32::clamp')
def _clamp(c):
    k = c.kind(c.at(0))
    if k in ('u', 'i'):
        must(c, le(c.v(1), c.v(2), True))
        return minv(maxv(c.v(0), c.v(1), True), c.v(2), True)
    if k == 'r':
        must(c, le(c.v(1), c.v(2), False))
        return mk('min', mk('max', c.v(0), c.v(1)), c.v(2))
    return NotImplemented


@fn('f64::mul_add', 'f32::mul_add')
def _mul_add(c):
    return add(mul(c.v(0), c.v(1)), c.v(2))


@fn('f64::recip', 'f32::recip')
def _recip(c):
    return div(ONE, c.v(0))


@fn('f64::trunc', 'f64::fract', 'f64::signum')
def _ftrunc(c):
    return raw('fn', c.e['fn'].split('::')[-1], c.v(0))


@fn('Ordering::then', 'Ordering::then_with')
def _othen(c):
    v = c.v(0)
    e = sub(ONE, add(mk_is(v, 'Less'), mk_is(v, 'Greater')))
    if c.e['fn'].endswith('with'):
        return br(c, e, lambda s: c.ev.val(c.app(c.args[1], st=s), s), lambda s: v)
    return ite(e, c.v(1), v)


# ---------------------------------------------------------------- entries of maps
@fn('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def _eget(c):
    p, k = entry_place(c)
    if p is None:
        return NotImplemented
    if c.e['fn'].endswith('::get'):
        return mk('mget', c.ev.read(p, c.st), k)
    return c.ev.place_ref(c.ev.ext(p, ('k', k)))


@fn('OccupiedEntry::insert', 'VacantEntry::insert', 'VacantEntry::insert_entry', 'Entry::insert_entry')
def _eins(c):
    p, k = entry_place(c)
    if p is None:
        return NotImplemented
    m = c.ev.read(p, c.st)
    c.ev.write(p, mk('minsert', m, k, c.v(1)), c.st)
    if c.e['fn'].endswith('insert_entry'):
        return c.v(0)
    return mk('mget', m, k) if 'Occupied' in c.e['fn'] else c.ev.place_ref(c.ev.ext(p, ('k', k)))


@fn('OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def _erem(c):
    p, k = entry_place(c)
    if p is None:
        return NotImplemented
    m = c.ev.read(p, c.st)
    c.ev.write(p, mk('mremove', m, k), c.st)
    v = mk('mget', m, k)
    return tup(k, v) if c.e['fn'].endswith('entry') else v


@fn('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key', 'VacantEntry::into_key')
def _ekey(c):
    e = c.v(0)
    return e.a[1] if e.op == 'entry' else NotImplemented


@fn('Entry::or_insert_with_key')
def _oiwk(c):
    p, k = entry_place(c)
    if p is None:
        return NotImplemented
    m = c.ev.read(p, c.st)
    v = br(c, mk_contains(m, k), lambda s: mk('mget', m, k), lambda s: c.ev.val(c.app(c.args[1], k, st=s), s))
    if c.st.dead:
        return v
    c.ev.write(p, mk('minsert', c.ev.read(p, c.st), k, v), c.st)
    return c.ev.place_ref(c.ev.ext(p, ('k', k)))


@fn('BTreeSet::range')
def _srange(c):
    r = c.v(1)
    t = elemty(c.ev, c.at(0))
    if c.kind(t) not in ('u', 'i') or r.op != 'rec':
        return NotImplemented

    def inside(e):
        g = ONE
        if r.a[0] != 'RangeTo':
            g = mul(g, le(mk_field(r, 'start'), e, True))
        if r.a[0] != 'RangeFrom':
            hi = mk_field(r, 'end')
            g = mul(g, le(e, hi, True) if 'Inclusive' in r.a[0] else lt(e, hi, True))
        return g
    return seq_filter(c.ev.iterseq(c.v(0), c.at(0), c.st), inside)


@fn('num::next_power_of_two')
def _npot(c):
    return raw('fn', 'next_power_of_two', c.v(0))
