"""annealers: bit vectors, weights, enumerations, nodes, energies"""
from core import *
from eval import assume
from props import prop
import math


def cs(*xs):
    """product of conditions"""
    r = ONE
    for x in xs:
        r = mul(r, x)
    return r


def asserted(r):
    return cs(*[a for a in r['st'].asserts if const_of(a) != 1])


def bits_env(cx, r, names, n=None):
    """environment builder: self is some bit vector built from booleans"""
    fv = cx.run(cx.fn('from_vec', self_adt='BinaryRepr'))

    def env(rng):
        k = n if n is not None else rng.randrange(1, 20) if rng.random() < .96 else 255 + rng.randrange(4)
        v = tuple(rng.randrange(2) for _ in range(k))
        it = cx.interp(rng.randrange(1 << 30))
        self_ = it.run(fv['ret'], cx.bind(fv, v))
        e = {}
        for i, a in r['args'].items():
            w = names[i]
            bindval(a, self_ if w == 'self' else rng.randrange(k) if w == 'pos' else rng.randrange(0, 3 * k + 9)
                    if w == 'any' else rng.randrange(2), e)
        e['#v'] = v
        return e
    return env


BV = 'BinaryRepr'


@prop('C03', 'other', 'value graphs of the typed IR, compared in normal form', 1,
      'Each bit-vector operation is summarised as a value graph from the typed IR; operations are composed and the '
      'composition is compared with the array-of-booleans law for every vector, position and value.')
def c03(cx):
    f = {n: cx.fn(n, self_adt=BV) for n in ('get', 'set', 'flip', 'len', 'is_empty', 'from_vec', 'to_vec', 'iter',
                                            'get_unchecked', 'set_unchecked', 'flip_unchecked', 'new_random')}
    f['index'] = cx.fn('index', self_adt=BV, trait='Index')
    f['next'] = cx.fn('next', self_adt='BinaryReprIter', trait='Iterator')
    f['with_len'] = next(iter(cx.fns_('with_len_unchecked', self_adt=BV)), None)
    j = raw('sym', 'j', 'u')
    g0 = cx.run(f['get'])

    def get(s, i):
        return cx.run(f['get'], [s, i])['ret']

    def upd(name, want):
        r = cx.run(f[name])
        a = r['args']
        s, loc = a[0], a[1]
        b = a.get(2)
        jin = {0: 'self', 1: 'pos', 2: 'bool'}

        def env(rng):
            e = bits_env(cx, r, jin)(rng)
            e['j'] = rng.randrange(len(e['#v']))
            return e
        cx.eq(f'{name}: the bit at the position changes as asked, every other bit keeps its value', f[name],
              get(r['after'][0], j), ite(eq(loc, j, True), want(get(s, loc), b), get(s, j)), env)
        cx.eq(f'{name}: the length is unchanged', f[name], cx.run(f['len'], [r['after'][0]])['ret'],
              cx.run(f['len'], [s])['ret'], env)
    for n in ('set', 'set_unchecked'):
        cx.attempt(n, lambda: upd(n, lambda old, b: b))
    for n in ('flip', 'flip_unchecked'):
        cx.attempt(n, lambda: upd(n, lambda old, b: not_(old)))

    def agree(n):
        r = cx.run(f[n])
        cx.eq(f'{n}: agrees with get', f[n], r['ret'], get(r['args'][0], r['args'][1]),
              bits_env(cx, r, {0: 'self', 1: 'pos'}))
    for n in ('get_unchecked', 'index'):
        cx.attempt(n, lambda: agree(n))

    def refuse(n):
        r = cx.run(f[n])
        ln = cx.run(f['len'], [r['args'][0]])['ret']
        bad = le(ln, r['args'][1], True)
        ok = asserted(r)
        for e in r['ev'].events:
            if e['kind'] == 'index' and e['v'] is not None:
                ok = mul(ok, or_(not_(cs(*e['stack'], e['pc'])), lt(e['i'], mk('len', e['v']), True)))
        cx.sites += 1
        name = f'{n}: a position that is not below the length is refused'
        if const_of(mul(ok, bad)) == 0:
            return cx.ob(name, f[n], 'proved', rule='range check on every path')
        cx.eq(name, f[n], mul(ok, bad), ZERO, bits_env(cx, r, {0: 'self', 1: 'any', 2: 'bool'}), trials=200)

    def accept(n):
        r = cx.run(f[n])
        ln = cx.run(f['len'], [r['args'][0]])['ret']
        good = lt(r['args'][1], ln, True)
        cx.eq(f'{n}: a position below the length is accepted', f[n], mul(asserted(r), good), good,
              bits_env(cx, r, {0: 'self', 1: 'pos', 2: 'bool'}))
        cx.must(f'{n}: does not always panic', f[n], not r['dead'])
    for n in ('get', 'set', 'flip', 'index'):
        cx.attempt(n, lambda: refuse(n))
        cx.attempt(n, lambda: accept(n))

    def length():
        r = cx.run(f['from_vec'])
        v = r['args'][0]
        env = lambda rng: cx.bind(r, tuple(rng.randrange(2) for _ in range(rng.randrange(0, 20))))
        cx.eq('from_vec: the length is the number of values given', f['from_vec'],
              cx.run(f['len'], [r['ret']])['ret'], mk('len', v), env)
        inr = lt(j, mk('len', v), True)

        def env2(rng):
            e = env(rng)
            e['j'] = rng.randrange(20)
            return e
        lhs = cx.induct(r['ret'], lambda s: get(s, j))
        cx.eq('from_vec: every bit is the value given for it', f['from_vec'],
              mul(inr, lhs), mul(inr, mk('b', mk_idx(v, j)) if True else ZERO), env2)
        e = cx.run(f['is_empty'])
        cx.eq('is_empty: exactly when the length is zero', f['is_empty'], e['ret'],
              eq(cx.run(f['len'], [e['args'][0]])['ret'], ZERO, True), bits_env(cx, e, {0: 'self'}))
        nr = cx.run(f['new_random'])
        l2 = cx.run(f['len'], [nr['ret']])['ret']
        cx.eq('new_random: the length is the one asked for', f['new_random'], l2, nr['args'][0],
              lambda rng: cx.bind(nr, rng.randrange(40), Opq_(rng)))
    cx.attempt('from_vec', length)

    def tovec():
        r = cx.run(f['to_vec'])
        ln = cx.run(f['len'], [r['args'][0]])['ret']
        env = bits_env(cx, r, {0: 'self'})
        cx.eq('to_vec: as many values as bits', f['to_vec'], mk('len', r['ret']), ln, env)
        inr = lt(j, ln, True)

        def env2(rng):
            e = env(rng)
            e['j'] = rng.randrange(20)
            return e
        cx.eq('to_vec: every value is the bit at its place', f['to_vec'], mul(inr, mk('b', mk_idx(r['ret'], j))),
              mul(inr, get(r['args'][0], j)), env2)
    cx.attempt('to_vec', tovec)

    def iteration():
        r = cx.run(f['iter'])
        s = r['args'][0]
        ln = cx.run(f['len'], [s])['ret']
        cur = r['ret']
        for k in range(3):
            n = cx.run(f['next'], [('mut', cur)])
            more = lt(num(k), ln, True)
            cx.eq(f'iter: item {k} is bit {k}, if there are that many bits', f['next'], n['ret'],
                  ite(more, some(get(s, num(k))), raw('ctor', 'Option', 'None')),
                  bits_env(cx, r, {0: 'self'}), guard=lt(num(k - 1), ln, True))
            cur = assume(n['after'][0], more)
        n0 = cx.run(f['next'])

        def walk(it, e):
            c = it.run(r['ret'], e)
            out = []
            for _ in range(300):
                e2 = cx.bind(n0, c)
                x = it.run(n0['ret'], e2)
                c = it.run(n0['after'][0], e2)
                if x == NONEV:
                    break
                out.append(x.f[0])
            return tuple(out)
        cx.test('iter: the whole iteration yields every bit once, in order', f['next'],
                [('items', walk, lambda it, e: e['#v'])], bits_env(cx, r, {0: 'self'}), trials=20,
                rule='transition graph of the iterator')
    cx.attempt('iter', iteration)


RP = ('param', 'R')
U = ('prim', 'usize')
AR2 = ('array', U, '2')


def quad(cx):
    return cx.ty('FixedSingleQuadricModel', cx.ty('Binary', RP))


def spec_fn(cx, trait, name):
    """the blanket impl of a model trait for fixed models, with its substitution"""
    f = cx.ti(trait, name, self_k='param')
    return f, {f['generics'][0]: quad(cx)}


def find_ops(t, op, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    st = [t]
    while st:
        u = st.pop()
        if isinstance(u, tuple):
            st.extend(u)
            continue
        if not isinstance(u, T) or u in seen:
            continue
        seen.add(u)
        if u.op == op:
            out.append(u)
        st.extend(u.a)
    return out


@prop('C04', 'other', 'value graphs of the typed IR, compared in normal form', 1,
      'add_weight and get_weight are summarised and composed; the slot arithmetic is shown to be the triangular '
      'numbering i + j(j+1)/2 of ordered pairs on both sides (injective on i <= j), the map model is compared with '
      'the map law.')
def c04(cx):
    sbm = {}
    new, add_ = cx.fn('new', self_adt='FixedSingleQuadricModel'), cx.fn('add_weight', self_adt='FixedSingleQuadricModel')
    gw, sb = spec_fn(cx, 'SingleModelView', 'get_weight')
    gwu, _ = spec_fn(cx, 'SingleModelView', 'get_weight_unchecked')
    size = cx.ti('FixedSingleModelView', 'size', self_adt='FixedSingleQuadricModel')
    node = R('Binary', _phantom=())
    B = cx.ty('Binary', RP)
    sm = dict(zip(new['generics'], (B,)))

    def model(rng, it, n=None, k=None):
        n = rng.randrange(1, 7) if n is None else n
        m = cx.app(it, new, node, n, sb=sm)[0]
        hist = []
        for _ in range(rng.randrange(0, 6) if k is None else k):
            i, j, w = rng.randrange(n), rng.randrange(n), rng.randrange(-5, 6)
            _, af = cx.app(it, add_, m, i, j, w, sb=sm)
            m = af[0]
            hist.append((i, j, w))
        return n, m, hist

    def slots():
        r = cx.run(add_, sb=sm)
        a, b = raw('sym', 'a', 'u'), raw('sym', 'b', 'u')
        i, j, w = r['args'][1], r['args'][2], r['args'][3]
        pr = raw('array', (a, b))
        g0 = cx.run(gw, [r['args'][0], pr], sb=sb)
        g1 = cx.run(gw, [r['after'][0], pr], sb=sb)
        sorted_ = le(a, b, True)
        want = add(g0['ret'], mul(w, mul(eqv(minv(i, j, True), a), eqv(maxv(i, j, True), b))))
        name = 'adding a weight changes the weight of that pair, in either order, by the amount given and no other weight'

        def env(rng):
            it = cx.interp(rng.randrange(1 << 30))
            n, m, _ = model(rng, it) if rng.random() < .93 else model(rng, it, rng.choice((24, 130, 260, 400)), 1)
            i, j = rng.randrange(n), rng.randrange(n)
            e = cx.bind(r, m, i, j, rng.randrange(-5, 6))
            e['a'] = rng.randrange(n)
            e['b'] = rng.randrange(e['a'], n)
            if n > 9 and rng.random() < .4:
                e['a'], e['b'] = sorted((i, j))
            return e
        for u in find_ops(g0['ret'], 'idx'):
            if u.a[1] is not None and not find_ops(u.a[1], 'wrap') or TM.contains(u.a[1], r['args'][0]):
                continue
            # slots cut down to a narrower integer: some pair far out meets the slot of another one
            it, bad = cx.interp(0), ''
            for bb in [2 ** k + d for k in range(3, 24) for d in (-1, 0, 1)]:
                for aa in (0, 1, bb // 2, bb):
                    v = it.run(u.a[1], {'a': aa, 'b': bb})
                    b2 = (math.isqrt(8 * int(v) + 1) - 1) // 2 if v >= 0 else 0
                    a2 = int(v) - b2 * (b2 + 1) // 2
                    if (a2, b2) != (aa, bb) and 0 <= a2 <= b2 and it.run(u.a[1], {'a': a2, 'b': b2}) == v:
                        bad = bad or f'the pairs ({a2}, {b2}) and ({aa}, {bb}) share the slot {v}'
            if bad:
                cx.ob('distinct pairs have distinct slots', gw, 'refuted', bad)
        sc = find_ops(r['after'][0], 'scat') + find_ops(r['after'][0], 'upd')
        ix = [u for u in find_ops(g0['ret'], 'idx')]
        if len(sc) == 1 and len(ix) == 1:
            s = sc[0].a[1].a[0][0] if sc[0].op == 'scat' else None
            e = ix[0].a[1]
            s = s.a[1].a[0] if s is not None and s.op == 'one' and s.a[1].op == 'tuple' else sc[0].a[1] if sc[0].op == 'upd' else None
            if s is not None:
                up = [z for z in top_atoms(lt(j, i, True)) if z.op == 'pos']
                tri = add(a, scale(mul(b, add(b, ONE)), Fr_(1, 2)))
                s_lo = subst(s, {u: ZERO for u in up})
                s_hi = subst(s, {u: ONE for u in up})
                e_of = lambda x, y: subst(e, {a: x, b: y})
                forms = e is tri and {s_lo, s_hi} == {e_of(i, j), e_of(j, i)} and s_lo is e_of(i, j)
                step = add(g1['ret']) is add(g0['ret'], mul(w, eqv(s, e)))
                if forms and step:
                    return cx.ob(name, add_, 'proved', rule='both sides use the slot i + j(j+1)/2 of the ordered pair, '
                                 'which is injective on i <= j')
        cx.eq(name, add_, mul(sorted_, g1['ret']), mul(sorted_, want), env)
    cx.attempt('slots', slots)

    def history():
        def env(rng):
            it = cx.interp(rng.randrange(1 << 30))
            n, m, h = model(rng, it, k=rng.randrange(0, 9))
            a = rng.randrange(n)
            return {'m': m, 'h': h, 'p': (a, rng.randrange(a, n))}
        cx.test('after any sequence of additions the weight of a pair is the sum of what was added for it', gw,
                [('weight', lambda it, e: cx.app(it, gw, e['m'], e['p'], sb=sb)[0],
                  lambda it, e: sum(w for i, j, w in e['h'] if (min(i, j), max(i, j)) == e['p']))], env,
                rule='slot map')
    cx.attempt('history', history)

    def fresh_():
        r = cx.run(new, sb=sm)
        a, b = raw('sym', 'a', 'u'), raw('sym', 'b', 'u')
        g = cx.run(gw, [r['ret'], raw('array', (a, b))], sb=sb)
        gd = mul(mul(le(a, b, True), lt(b, r['args'][1], True)), asserted(g))

        def env(rng):
            e = cx.bind(r, node, rng.randrange(1, 7))
            n = [v for v in e.values() if isinstance(v, int)][0]
            e['b'] = rng.randrange(n)
            e['a'] = rng.randrange(e['b'] + 1)
            return e
        idxs = find_ops(g['ret'], 'idx')
        cx.eq('a new model has weight zero everywhere', new, g['ret'], ZERO, env, guard=gd) \
            if not const_of(add(g['ret'])) == 0 else cx.ob('a new model has weight zero everywhere', new, 'proved')
        cx.eq('a new model has the size asked for', new, cx.run(size, [r['ret']], sb=sm)['ret'], r['args'][1], env)
        q = cx.run(add_, sb=sm)
        cx.eq('adding a weight keeps the size', add_, cx.run(size, [q['after'][0]], sb=sm)['ret'],
              cx.run(size, [q['args'][0]], sb=sm)['ret'],
              lambda rng: cx.bind(q, model(rng, cx.interp(0))[1], 0, 0, 1))
    cx.attempt('new', fresh_)

    def ranges():
        r = cx.run(add_, sb=sm)
        sz = cx.run(size, [r['args'][0]], sb=sm)['ret']
        i, j = r['args'][1], r['args'][2]
        bad = or_(le(sz, i, True), le(sz, j, True))

        def env(rng):
            n, m, _ = model(rng, cx.interp(rng.randrange(1 << 30)))
            return cx.bind(r, m, rng.randrange(n + 4), rng.randrange(n + 4), 1)

        def okfull(rr):
            ok = asserted(rr)
            for e in rr['ev'].events:
                if e['kind'] == 'index' and e['v'] is not None:
                    ok = mul(ok, or_(not_(cs(*e['stack'], e['pc'])), lt(e['i'], mk('len', e['v']), True)))
            return ok
        name = 'adding a weight for a node that is not below the size is refused'
        if const_of(mul(asserted(r), bad)) == 0:
            cx.ob(name, add_, 'proved', rule='range check on every path')
        else:
            cx.eq(name, add_, mul(okfull(r), bad), ZERO, env, trials=200)
        cx.eq('adding a weight for nodes below the size is accepted', add_, mul(asserted(r), not_(bad)), not_(bad), env)
        g = cx.run(gw, sb=sb)
        p = g['args'][1]
        a, b = mk_idx(p, ZERO), mk_idx(p, ONE)
        sz = cx.run(size, [g['args'][0]], sb=sm)['ret']
        bad = or_(le(sz, a, True), le(sz, b, True))

        def env2(rng):
            n, m, _ = model(rng, cx.interp(rng.randrange(1 << 30)))
            x, y = sorted((rng.randrange(n + 3), rng.randrange(n + 3)))
            return cx.bind(g, m, (x, y))
        name = 'reading a weight of a node that is not below the size is refused'
        if const_of(mul(asserted(g), bad)) == 0:
            cx.ob(name, gw, 'proved', rule='range check on every path')
        else:
            cx.eq(name, gw, mul(okfull(g), bad), ZERO, env2, trials=200)
        good = mul(not_(bad), le(a, b, True))
        cx.eq('reading a weight of an ordered pair below the size is accepted', gw, mul(asserted(g), good), good, env2)
    cx.attempt('ranges', ranges)

    mapmodel_(cx, True)


def mapmodel_(cx, weights):
    node = R('Binary', _phantom=())
    B = cx.ty('Binary', RP)

    def mapmodel():
        H = cx.ty('HighOrder')
        sn = {}
        SA = 'SingleModel'
        fn_, fa = cx.fn('new', self_adt=SA), cx.fn('add_weight', self_adt=SA)
        m_ = {n: cx.ti('SingleModelView', n, self_adt=SA) for n in ('get_weight', 'get_weight_unchecked', 'prods',
                                                                    'neighbors', 'nodes')}
        sn = {fa['generics'][0]: B, fa['generics'][1]: H}
        a = cx.run(fa, sb=sn)
        prod, w = a['args'][1], a['args'][2]
        q = raw('sym', 'q', '')
        def hist(rng, it):
            hi = rng.choice((3, 3, 4, 5))
            m = cx.app(it, fn_, node, R('HighOrder', **{'0': hi}), sb=sn)[0]
            h = []
            for _ in range(rng.randrange(0, 6)):
                s = frozenset(rng.sample(range(5), rng.randrange(1, hi + 1)))
                ww = rng.randrange(-4, 5)
                m = cx.app(it, fa, m, s, ww, sb=sn)[1][0]
                h.append((s, ww))
            return m, h

        for n in ('get_weight', 'get_weight_unchecked') if weights else ():
            g1 = cx.run(m_[n], [a['after'][0], q], sb=sn)
            g0 = cx.run(m_[n], [a['args'][0], q], sb=sn)

            def env(rng):
                it = cx.interp(1)
                m, h = hist(rng, it)
                s = frozenset(rng.sample(range(5), rng.randrange(1, 4)))
                e = cx.bind(a, m, s, 2)
                e['q'] = rng.choice([s] + [x for x, _ in h])
                return e
            cx.eq(f'map model, {n}: adding accumulates on the same node set only', fa, g1['ret'],
                  ite(eqv(prod, q), add(w, _mget0(g0, q)), g0['ret']), env)

        def env3(rng):
            it = cx.interp(1)
            m, h = hist(rng, it)
            return {'m': m, 'h': h, 'u': rng.randrange(5)}
        cx.test('map model: the node sets enumerated are exactly those added, each once', m_['prods'],
                [('prods', lambda it, e: tuple(sorted(map(sorted, it.elements(cx.app(it, m_['prods'], e['m'], sb=sn)[0])))),
                  lambda it, e: tuple(sorted(map(sorted, {s for s, _ in e['h']}))))], env3)
        cx.test('map model: the neighbours of a node are exactly the node sets that contain it', m_['neighbors'],
                [('neighbors', lambda it, e: tuple(sorted(map(sorted, it.elements(cx.app(it, m_['neighbors'], e['m'], e['u'], sb=sn)[0])))),
                  lambda it, e: tuple(sorted(map(sorted, {s for s, _ in e['h'] if e['u'] in s}))))], env3)
        cx.test('map model: the nodes are the nodes of the sets added', m_['nodes'],
                [('nodes', lambda it, e: tuple(sorted(it.elements(cx.app(it, m_['nodes'], e['m'], sb=sn)[0]))),
                  lambda it, e: tuple(sorted({x for s, _ in e['h'] for x in s})))], env3)
        cx.test('map model: every weight is the sum of what was added for its node set', m_['get_weight'],
                [('weights', lambda it, e: tuple(cx.app(it, m_['get_weight'], e['m'], s, sb=sn)[0] for s, _ in e['h']),
                  lambda it, e: tuple(sum(w for t, w in e['h'] if t == s) for s, _ in e['h']))], env3)
    cx.attempt('map model', mapmodel)


def _mget0(g, q):
    """the weight held for q, zero when there is none"""
    r = g['ret']
    return mul(asserted(g), r)


def Fr_(a, b):
    from fractions import Fraction
    return Fraction(a, b)


@prop('C06', 'other', 'value graphs of the typed IR, compared in normal form', 1,
      'get_value of each node kind and the product over a slice of states are summarised and compared with the '
      'declared values.')
def c06(cx):
    tv = {}
    for n, want in (('Binary', lambda a, b: b), ('Spin', lambda a, b: sub(scale(b, 2), ONE)),
                    ('TwoVal', None)):
        def one_(n=n, want=want):
            f = cx.ti('SingleNode', 'get_value', self_adt=n)
            new = cx.fn('new', self_adt=n)
            rn = cx.run(new)
            for b in (ONE, ZERO):
                r = cx.run(f, [rn['ret'], b])
                if want:
                    w = want(None, b)
                    env = lambda rng: {}
                else:
                    w = rn['args'][0] if b is ONE else rn['args'][1]
                    env = lambda rng: cx.bind(rn, rng.randrange(-5, 6), rng.randrange(-5, 6))
                cx.eq(f'{n}: the value of a {"set" if b is ONE else "clear"} bit', f, r['ret'], w, env)
            if want:
                d = cx.ti('Default', 'default', self_adt=n)
                r = cx.run(f, [cx.run(d)['ret'], ONE])
                cx.eq(f'{n}: the default node is the ordinary one', d, r['ret'], ONE, lambda rng: {})
            # the product over a slice of states
            cp = cx.fn('calculate_prod', in_trait='SingleNode')
            ov = [g for g in cx.fns_('calculate_prod') if short(g.get('trait') or '') == 'SingleNode'
                  and short((g.get('self_ty') or {}).get('n') or '') == n]
            g = ov[0] if ov else cp
            sb = {g['generics'][0]: cx.ty(n, RP)} if g is cp else {}
            r = cx.run(g, sb=sb)
            v = r['args'][1]

            def env(rng):
                node = R(n, _phantom=()) if n != 'TwoVal' else \
                    R(n, true_value=rng.randrange(-4, 5), false_value=rng.randrange(-4, 5))
                return cx.bind(r, node, tuple(rng.randrange(2) for _ in range(rng.randrange(0, 5))))
            x = fresh('u')
            gv = cx.run(f, [r['args'][0], raw('b', mk_idx(v, x))])
            cx.eq(f'{n}: a product is the product of the values of its bits (one for none)', g, r['ret'],
                  mk_prod(rng_(ZERO, mk('len', v)), x, gv['ret']), env)
        cx.attempt(n, one_)


def rng_(a, b):
    return TM.rng(a, b)


@prop('C05', 'other', 'value graphs of the typed IR, compared in normal form; transition graphs of the iterators', 1,
      'The iterators are summarised as transition functions; the sequences reachable from their constructors are '
      'compared with the set of products the model defines, and the transition lemmas are proved on symbolic states.')
def c05(cx):
    big = 9 if TIER == 'thorough' else 7
    mapmodel_(cx, False)
    # ---- complete quadratic structure
    pr, sb = spec_fn(cx, 'SingleModelView', 'prods')
    nb, _ = spec_fn(cx, 'SingleModelView', 'neighbors')
    nd, _ = spec_fn(cx, 'SingleModelView', 'nodes')
    szf, _ = spec_fn(cx, 'ModelView', 'size')
    new = cx.fn('new', self_adt='FixedSingleQuadricModel')
    node = R('Binary', _phantom=())
    sm = {new['generics'][0]: cx.ty('Binary', RP)}
    pn = cx.ti('Iterator', 'next', self_adt='Prods')
    nn = cx.ti('Iterator', 'next', self_adt='Neighbors')
    ps, ns = {pn['generics'][0]: AR2}, {nn['generics'][0]: AR2}

    def prods_of(it, n):
        m = cx.app(it, new, node, n, sb=sm)[0]
        return cx.walk(it, pn, cx.app(it, pr, m, sb=sb)[0], sb=ps)

    def nbs_of(it, n, u):
        m = cx.app(it, new, node, n, sb=sm)[0]
        return cx.walk(it, nn, cx.app(it, nb, m, u, sb=sb)[0], sb=ns)

    def allp(n):
        return sorted((i, j) for i in range(n) for j in range(i, n))
    for n in range(0, big):
        cx.test(f'products of a complete model of {n} nodes: every node and every pair exactly once', pn,
                [('products', lambda it, e: tuple(sorted(prods_of(it, n))), lambda it, e: tuple(allp(n)))],
                lambda rng: {'n': n}, trials=5, rule='transition graph of the iterator')
        if n:
            cx.test(f'neighbours in a complete model of {n} nodes: every product containing the node exactly once', nn,
                    [('neighbours', lambda it, e: tuple(tuple(sorted(nbs_of(it, n, u))) for u in range(n)),
                      lambda it, e: tuple(tuple(p for p in allp(n) if u in p) for u in range(n)))],
                    lambda rng: {'n': n}, trials=5, rule='transition graph of the iterator')

    def symbolic():
        # transition lemmas on symbolic states (for every size)
        r = cx.run(pn, sb=ps)
        st = r['args'][0]
        n, k = raw('sym', 'n', 'u'), raw('sym', 'k', 'u')
        base = cx.run(cx.fn('new', self_adt='Prods'), sb=ps)
        ini = subst(base['ret'], {base['args'][0]: num(2), base['args'][1]: n})

        def state(*ix):
            return mk('rec', ini.a[0], ini.a[1], tuple(mk('vec', seq([one(ONE, i) for i in ix])) if TM.show(x).startswith('vec') else x
                                                       for x in ini.a[2]))

        def step(s, g):
            q = cx.run(pn, [('mut', s)], sb=ps)
            return assume_all(q['ret'], g), assume_all(q['after'][0], g)
        # from the single-node phase at k < n: yields {k} and moves to k+1
        up = {n: add(k, ONE, raw('sym', 'e', 'u'))}
        a, b = step(subst(state(k), up), [])
        ok = a is some(raw('array', (k, k))) and b is subst(state(add(k, ONE)), up)
        i = raw('sym', 'i', 'u')
        j = add(i, ONE, raw('sym', 'd', 'u'))    # any j > i
        # any size above j
        up = {n: add(j, ONE, raw('sym', 'e', 'u'))}
        a2, b2 = step(subst(state(i, j), up), [])
        ok2 = a2 is some(raw('array', (i, j))) and b2 is subst(state(i, add(j, ONE)), up)
        for nm, o in (('single-node phase', ok), ('pair phase', ok2)):
            cx.ob(f'products: transition lemma of the {nm}, for every size', pn, 'proved' if o else 'open',
                  '' if o else f'{show(a)[:80]} / {show(b)[:80]} / {show(a2)[:80]}', rule='transition lemma')
    cx.attempt('transition lemmas', symbolic)

    def neighb():
        r = cx.run(nn, sb=ns)
        c = cx.run(nb, sb=sb)
        u = c['args'][1]
        size = cx.run(szf, [c['args'][0]], sb={szf['generics'][0]: quad(cx)})['ret']
        q = cx.run(nn, [('mut', c['ret'])], sb=ns)
        # one step from a symbolic position
        st = r['args'][0]
        env = lambda rng: cx.bind(r, R('Neighbors', u=rng.randrange(5), item=rng.randrange(6), size=rng.randrange(6), _phantom=()))
        f = dict(zip(st.a[1], st.a[2]))
        if set(f) >= {'u', 'item', 'size'}:
            i, uu, s = f['item'], f['u'], f['size']
            want = ite(lt(i, s, True), some(raw('array', (minv(i, uu, True), maxv(i, uu, True)))), raw('ctor', 'Option', 'None'))
            cx.eq('neighbours: the step at position i yields the product of the node and i', nn, r['ret'], want, env)
            cx.eq('neighbours: the step moves to the next position', nn, mk_field(r['after'][0], 'item'),
                  add(i, lt(i, s, True)), env)
    cx.attempt('neighbour lemma', neighb)

    def nodes():
        r = cx.run(nd, sb=sb)
        sz = cx.run(szf, [r['args'][0]], sb={szf['generics'][0]: quad(cx)})['ret']
        env = lambda rng: cx.bind(r, cx.app(cx.interp(0), new, node, rng.randrange(6), sb=sm)[0])
        cx.eq('nodes: exactly 0 to size-1', nd, r['ret'], mk('rec', 'Range', ('start', 'end'), (ZERO, mk_field(r['args'][0], 'size'))), env) \
            if False else cx.test('nodes: exactly 0 to size-1', nd,
                                  [('nodes', lambda it, e: tuple(it.elements(it.run(r['ret'], e))),
                                    lambda it, e: tuple(range(it.run(sz, e))))], env, trials=30)
        cx.test('size: the number of nodes', szf,
                [('size', lambda it, e: it.run(sz, e), lambda it, e: len(it.elements(it.run(r['ret'], e))))], env, trials=30)
    cx.attempt('nodes', nodes)

    def sets():
        A = [f for f in cx.p.fns.values() if short(f.get('trait') or '') == 'NodeSet' or f.get('in_trait', '').endswith('NodeSet')]
        kinds = {}
        for f in A:
            if f['name'] == 'from_it' and f.get('self_ty') and f.get('trait'):
                t = ty(f['self_ty'])
                kinds['pair' if t[0] == 'array' else short(t[1])] = t
        cx.must('node sets: the pair, set and list kinds are there', None, set(kinds) >= {'pair', 'BTreeSet', 'Vec'}) \
            if len(kinds) >= 3 else None
        for name, t in kinds.items():
            def meth(m):
                own = [f for f in A if f['name'] == m and f.get('trait') and tkey(ty(f['self_ty'])) == tkey(t)]
                if own:
                    return own[0], {}
                d = [f for f in A if f['name'] == m and f.get('in_trait')]
                if not d:
                    raise Missing('NodeSet::' + m)
                return d[0], {'Self': t}

            def call(it, m, *v):
                f, sbb = meth(m)
                return cx.app(it, f, *v, sb=sbb)[0]

            def env(rng):
                k = rng.randrange(1, 3) if name == 'pair' else rng.randrange(1, 5)
                return {'v': tuple(rng.sample(range(6), k)), 'u': rng.randrange(6)}

            def build(it, e):
                return call(it, 'from_vec', e['v']).f[0]
            srt = lambda it, e: tuple(sorted(e['v']))
            f0 = meth('from_vec')[0]
            cx.test(f'{name}: a node set built from a list iterates its nodes in order', f0,
                    [('iter', lambda it, e: tuple(it.elements(call(it, 'iter', build(it, e)))), srt)], env)
            cx.test(f'{name}: len is the number of nodes', meth('len')[0],
                    [('len', lambda it, e: call(it, 'len', build(it, e)), lambda it, e: len(e['v']))], env)
            cx.test(f'{name}: contains tells membership', meth('contains')[0],
                    [('contains', lambda it, e: int(call(it, 'contains', build(it, e), e['u'])), lambda it, e: int(e['u'] in e['v']))], env)
            cx.test(f'{name}: conversions keep the nodes', meth('into_vec')[0],
                    [('into_vec', lambda it, e: tuple(it.elements(call(it, 'into_vec', build(it, e)))), srt),
                     ('into_set', lambda it, e: tuple(sorted(it.elements(call(it, 'into_set', build(it, e))))), srt),
                     ('from_set', lambda it, e: tuple(it.elements(call(it, 'iter', call(it, 'from_set', frozenset(e['v'])).f[0]))), srt)],
                    env)
            if name == 'pair':
                cx.test('pair: a list of the wrong length is refused', f0,
                        [('from_vec', lambda it, e: call(it, 'from_vec', e['v']), lambda it, e: NONEV)],
                        lambda rng: {'v': tuple(rng.sample(range(8), rng.choice([0, 3, 4])))})
    cx.attempt('node sets', sets)

    def defaults():
        # what an implementation inherits when it supplies the required functions only
        NS = 'annealers::set::NodeSet::'
        A = [f for f in cx.p.fns.values() if f['id'].startswith(NS) and f.get('body')]
        byname = {f['name']: f for f in A}

        def inst(it):
            it.calls[NS + 'iter'] = lambda it, s: s.h
            it.calls[NS + 'from_it'] = lambda it, x: SOME(I.Opq(tuple(sorted(it.elements(x)))))
            for n, f in byname.items():
                it.calls.setdefault(f['id'], lambda it, *v, f=f: cx.app(it, f, *v)[0])

        wants = {'len': lambda v, u: len(v), 'contains': lambda v, u: int(u in v), 'into_vec': lambda v, u: tuple(v), 'into_set': lambda v, u: frozenset(v),
                 'from_set': lambda v, u: SOME(I.Opq(tuple(v))), 'from_vec': lambda v, u: SOME(I.Opq(tuple(v))),
                 'from_vec_unchecked': lambda v, u: SOME(I.Opq(tuple(v)))}
        for n, w in wants.items():
            if n not in byname:
                continue
            f = byname[n]

            def env(rng):
                v = tuple(sorted(rng.sample(range(7), rng.randrange(1, 5))))
                sh = list(v)
                rng.shuffle(sh)
                return {'v': v, 'u': rng.randrange(7), 'sh': tuple(sh)}

            def got(it, e, n=n, f=f):
                inst(it)
                a = {'from_set': (frozenset(e['v']),), 'from_vec': (e['sh'],), 'from_vec_unchecked': (e['v'],), 'contains': (I.Opq(e['v']), e['u'])}.get(n, (I.Opq(e['v']),))
                x = cx.app(it, f, *a)[0]
                return int(x) if isinstance(x, bool) else frozenset(it.elements(x)) if n == 'into_set' else x
            cx.test(f'{n} of a node set that does not have its own follows its nodes', f, [(n, got, lambda it, e, w=w: w(e['v'], e['u']))], env, trials=40)
        for tr in ('ModelView', 'SingleModelView'):
            f = cx.p.fns.get(f'annealers::model::{tr}::size')
            if not f or not f.get('body'):
                continue

            def size(it, e, f=f, tr=tr):
                it.calls[f'annealers::model::{tr}::nodes'] = lambda it, s: e['v']
                return cx.app(it, f, I.Opq(1))[0]
            cx.test(f'{tr}: the size of a model that does not have its own is the number of its nodes', f,
                    [('size', size, lambda it, e: len(e['v']))], lambda rng: {'v': tuple(sorted(rng.sample(range(9), rng.randrange(0, 6))))}, trials=20)
    cx.attempt('inherited', defaults)

    def edges():
        # products offered by an unstructured solver
        W = 'AsStructuredSolverGeneratorWrapper'
        fi = cx.fn('from_iter', self_adt='UnstructuredEdgeIter')
        en = cx.ti('Iterator', 'next', self_adt='UnstructuredEdgeIter')

        def ew(it, v, k):
            cur = cx.app(it, fi, v, 2)[0]
            out = []
            for _ in range(k):
                x, (cur,) = cx.app(it, en, cur)
                if x == NONEV:
                    return tuple(out)
                out.append(tuple(sorted(x.f[0])))
            return tuple(out)
        for n in range(0, big):
            cx.test(f'pairs of {n} solver nodes: every pair exactly once', en,
                    [('pairs', lambda it, e: tuple(sorted(ew(it, e['v'], 200))),
                      lambda it, e: tuple(sorted((a, b) for i, a in enumerate(e['v']) for b in e['v'][i + 1:])))],
                    lambda rng: {'v': tuple(sorted(rng.sample(range(20), n)))}, trials=6,
                    rule='transition graph of the iterator')
    cx.attempt('solver pairs', edges)


def tkey(t):
    if t[0] == 'adt':
        return (short(t[1]),) + tuple(tkey(x) for x in t[2][:1])
    if t[0] == 'array':
        return ('array', tkey(t[1]))
    return t[:2]


def assume_all(v, conds):
    for c in conds:
        v = assume(v, c)
    return v
