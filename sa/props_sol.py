"""solutions, annealing, schedules, generators, numbers"""
import math
from core import *
from eval import assume
from props import prop
from props_ann import cs, asserted, RP, U, AR2, find_ops, Fr_

NODES = ('Binary', 'Spin', 'TwoVal')


def sub_(f, *types):
    return dict(zip(f['generics'], types))


def wt(rng):
    """a weight, now and then one that is not a double"""
    return rng.choice((-3, -2, -1, 1, 2, 5)) if rng.random() < .97 else rng.choice((-1, 1)) * ((1 << 55) + rng.randrange(4))


class Models:
    """concrete models made by the program's own constructors"""

    def __init__(self, cx, node='Binary', rp=RP):
        self.cx, self.node = cx, node
        self.B = cx.ty(node, rp)
        self.Q = cx.ty('FixedSingleQuadricModel', self.B)
        self.H = cx.ty('SingleModel', self.B, cx.ty('HighOrder'))
        self.qn, self.qa = (cx.fn(n, self_adt='FixedSingleQuadricModel') for n in ('new', 'add_weight'))
        self.hn, self.ha = (cx.fn(n, self_adt='SingleModel') for n in ('new', 'add_weight'))

    def nodev(self, rng):
        if self.node == 'TwoVal':
            return R('TwoVal', true_value=rng.randrange(-3, 4), false_value=rng.randrange(-3, 4))
        return R(self.node, _phantom=())

    def value(self, nv, b):
        return {'Binary': b, 'Spin': 2 * b - 1}[self.node] if self.node != 'TwoVal' else \
            nv.get('true_value') if b else nv.get('false_value')

    def quad(self, it, rng, n, ints=True, scale=1):
        nv = self.nodev(rng)
        m = self.cx.app(it, self.qn, nv, n, sb=sub_(self.qn, self.B))[0]
        w = {}
        for _ in range(rng.randrange(0, 2 * n + 2)):
            i, j = rng.randrange(n), rng.randrange(n)
            x = wt(rng) * scale
            m = self.cx.app(it, self.qa, m, i, j, x, sb=sub_(self.qa, self.B))[1][0]
            k = frozenset((i, j))
            w[k] = w.get(k, 0) + x
        return m, w, nv

    def high(self, it, rng, n, scale=1):
        nv = self.nodev(rng)
        sb = sub_(self.hn, self.B, self.cx.ty('HighOrder'))
        m = self.cx.app(it, self.hn, nv, R('HighOrder', **{'0': 4}), sb=sb)[0]
        w = {}
        sets = [frozenset([i]) for i in range(n)] + [frozenset(rng.sample(range(n), rng.randrange(1, min(n, 4) + 1)))
                                                      for _ in range(rng.randrange(1, n + 2))]
        for k in sets:
            x = wt(rng) * scale
            m = self.cx.app(it, self.ha, m, k, x, sb=sub_(self.ha, self.B, self.cx.ty('HighOrder')))[1][0]
            w[k] = w.get(k, 0) + x
        return m, w, nv

    def energy(self, w, nv, s):
        t = 0
        for k, x in w.items():
            p = x
            for u in k:
                p *= self.value(nv, s[u])
            t += p
        return t

    def field(self, w, nv, s, k):
        f = list(s)
        f[k] = 1 - f[k]
        return self.energy(w, nv, f) - self.energy(w, nv, s)


def bits_of(cx, it, rep):
    return cx.app(it, cx.fn('to_vec', self_adt='BinaryRepr'), rep)[0]


def rep_of(cx, it, v):
    return cx.app(it, cx.fn('from_vec', self_adt='BinaryRepr'), tuple(v))[0]


SS = 'SingleSolution'
NONET = raw('ctor', 'Option', 'None')


def solterm(a, **over):
    """a solution record with some fields replaced"""
    return mk('rec', a.a[0], a.a[1], tuple(over.get(n, x) for n, x in zip(a.a[1], a.a[2])))


@prop('C07', 'other', 'value graphs of the typed IR, compared in normal form', 1,
      'calculate_energy and calculate_local_field are summarised for an arbitrary model (sums over its products); the '
      'energy graph is compared with the defining sum and each component of the local field with the difference of '
      'product values at the flipped and the given state. Caching, construction and comparison are compared with their laws.')
def c07(cx):
    f = {n: cx.fn(n, self_adt=SS) for n in ('from_vec', 'from_state', 'len', 'compare_energy', 'with_local_field',
                                            'with_energy', 'calculate_energy', 'calculate_local_field', 'get', 'get_unchecked')}
    idxf = cx.ti('Index', 'index', self_adt=SS)
    k = raw('sym', 'k', 'u')
    MV = 'annealers::model::SingleModelView::'

    def solve(rng, it, m, n, energy=False, field=False, occ=1):
        v = tuple(rng.randrange(2) for _ in range(n))
        s = R('SingleSolution', state=rep_of(cx, it, v), energy=SOME(rng.randrange(50, 90)) if energy else NONEV,
              occurrences=rng.randrange(1, 5), local_field=SOME(tuple(rng.randrange(50, 90) for _ in range(n))) if field else NONEV,
              _phantom=())
        return v, s

    def scen(M, kind, **kw):
        def env(rng):
            it = cx.interp(rng.randrange(1 << 30))
            n = rng.randrange(1, 6)
            m, w, nv = (M.quad if kind == 'quad' else M.high)(it, rng, n)
            v, s = solve(rng, it, m, n, **kw)
            return {'m': m, 'w': w, 'nv': nv, 'v': v, 's': s}
        return env

    def types(M, kind):
        return M.B, (M.Q if kind == 'quad' else M.H)

    # ---- energy
    def energy():
        g = f['calculate_energy']
        r = cx.run(g)
        s, m = r['args'][0], r['args'][1]
        none = {raw('is', mk_field(s, 'energy'), 'Some'): ZERO}
        x = fresh('')
        n0 = r['ret'].op
        got = add(subst(r['ret'], none))
        prods = raw('call', MV + 'prods', m)
        rec = s
        want = mk_sum(raw('elems', prods), x, mul(raw('call', MV + 'get_weight', m, x), raw('call', MV + 'calculate_prod', m, x, solterm_of(cx, s))))
        nm = 'energy: the sum of weight times product value over the products of the model'
        if got is want:
            cx.ob(nm, g, 'proved', rule='value-graph equality')
        for node in NODES:
            M = Models(cx, node)
            for kind in ('quad', 'high'):
                if node != 'Binary' and kind == 'high' and node == 'TwoVal':
                    continue
                B, MT = types(M, kind)
                cx.test(nm + f' ({node}, {"complete" if kind == "quad" else "any-order"} model)', g,
                        [('energy', lambda it, e: cx.app(it, g, e['s'], e['m'], sb=sub_(g, B, MT))[0],
                          lambda it, e: M.energy(e['w'], e['nv'], e['v']))], scen(M, kind), trials=40,
                        rule='identity of the composed value graphs')
        M = Models(cx)
        cx.test('energy: a solution that carries an energy reports that one', g,
                [('energy', lambda it, e: cx.app(it, g, e['s'], e['m'], sb=sub_(g, M.B, M.Q))[0],
                  lambda it, e: e['s'].get('energy').f[0])], scen(M, 'quad', energy=True), trials=20)
    cx.attempt('energy', energy)

    def field():
        g = f['calculate_local_field']
        r = cx.run(g)
        s, m = r['args'][0], r['args'][1]
        fresh_ = subst(r['ret'], {raw('is', mk_field(s, 'local_field'), 'Some'): ZERO})
        got = mk_idx(fresh_, k)
        flip = cx.run(cx.fn('flip', self_adt='BinaryRepr'), [('mut', mk_field(s, 'state')), k])
        s0 = solterm_of(cx, s)
        x = fresh('')
        cp = lambda t: raw('call', MV + 'calculate_prod', m, x, t)
        for st0 in (s0, solterm(s0, local_field=NONET)):
            s1 = solterm(st0, state=flip['after'][0])
            want = mk_sum(raw('elems', raw('call', MV + 'prods', m)), x,
                          cs(mk('contains', raw('call', 'annealers::set::NodeSet::iter', x), k), raw('call', MV + 'get_weight', m, x),
                             sub(cp(s1), cp(st0))))
            if add(got) is add(want):
                cx.ob('local field: each entry is the change of the energy when that node is flipped', g, 'proved',
                      rule='value-graph equality')
                break
        for node in NODES:
            M = Models(cx, node)
            for kind in ('quad', 'high'):
                B, MT = types(M, kind)
                cx.test(f'local field: the energy change of flipping each node ({node}, '
                        f'{"complete" if kind == "quad" else "any-order"} model)', g,
                        [('field', lambda it, e: cx.app(it, g, e['s'], e['m'], sb=sub_(g, B, MT))[0],
                          lambda it, e: tuple(M.field(e['w'], e['nv'], e['v'], i) for i in range(len(e['v']))))],
                        scen(M, kind), trials=40, rule='identity of the composed value graphs')
        M = Models(cx)
        cx.test('local field: a solution that carries one reports that one', g,
                [('field', lambda it, e: cx.app(it, g, e['s'], e['m'], sb=sub_(g, M.B, M.Q))[0],
                  lambda it, e: e['s'].get('local_field').f[0])], scen(M, 'quad', field=True), trials=20)
        cx.test('local field: an energy the solution carries does not matter', g,
                [('field', lambda it, e: cx.app(it, g, e['s'], e['m'], sb=sub_(g, M.B, M.Q))[0],
                  lambda it, e: tuple(M.field(e['w'], e['nv'], e['v'], i) for i in range(len(e['v']))))],
                scen(M, 'quad', energy=True), trials=20)
    cx.attempt('local field', field)

    def caching():
        M = Models(cx)
        for kw in (dict(), dict(energy=True), dict(field=True), dict(energy=True, field=True)):
            d = ' and '.join(kw) or 'nothing'
            we, wl = f['with_energy'], f['with_local_field']

            def obs(it, s):
                return (tuple(int(b) for b in bits_of(cx, it, s.get('state'))), s.get('occurrences'), s.get('energy'), s.get('local_field'))

            def E(e):
                s = e['s']
                return s.get('energy') if s.get('energy') != NONEV else SOME(M.energy(e['w'], e['nv'], e['v']))

            def L(e):
                s = e['s']
                return s.get('local_field') if s.get('local_field') != NONEV else \
                    SOME(tuple(M.field(e['w'], e['nv'], e['v'], i) for i in range(len(e['v']))))
            cx.test(f'with_energy on a solution that carries {d}: the energy is set, the rest is kept', we,
                    [('solution', lambda it, e: obs(it, cx.app(it, we, e['s'], e['m'], sb=sub_(we, M.B, M.Q))[0]),
                      lambda it, e: (e['v'], e['s'].get('occurrences'), E(e), e['s'].get('local_field')))], scen(M, 'quad', **kw), trials=25)
            cx.test(f'with_local_field on a solution that carries {d}: the field is set, the rest is kept', wl,
                    [('solution', lambda it, e: obs(it, cx.app(it, wl, e['s'], e['m'], sb=sub_(wl, M.B, M.Q))[0]),
                      lambda it, e: (e['v'], e['s'].get('occurrences'), e['s'].get('energy'), L(e)))], scen(M, 'quad', **kw), trials=25)
    cx.attempt('caching', caching)

    def compare():
        g = f['compare_energy']
        r = cx.run(g)
        ea, eb = (mk_field(r['args'][i], 'energy') for i in (0, 1))

        def env(rng):
            base = rng.choice((0, 0, 1 << 60))
            sol = lambda: R('SingleSolution', state=R('BinaryRepr', state=(0,), len=1), energy=SOME(rng.randrange(-3, 4) + base)
                            if rng.random() < .8 else NONEV, occurrences=rng.randrange(3), local_field=NONEV, _phantom=())
            a, b = sol(), sol()
            return {**cx.bind(r, a, b), '#a': a, '#b': b}

        def want(it, e):
            x, y = e['#a'].get('energy'), e['#b'].get('energy')
            if x == NONEV or y == NONEV:
                return NONEV
            x, y = x.f[0], y.f[0]
            return SOME(C('Less' if x < y else 'Equal' if x == y else 'Greater'))
        cx.test('comparison: by energy, only when both have one', g, [('order', r['ret'], want)], env)
    cx.attempt('comparison', compare)

    def construct():
        for n in ('from_vec', 'from_state'):
            g = f[n]
            r = cx.run(g)
            st = r['ret']
            st_want = cx.run(cx.fn('from_vec', self_adt='BinaryRepr'), [r['args'][0]])['ret'] if n == 'from_vec' else r['args'][0]
            for fld, w in (('energy', NONET), ('local_field', NONET), ('occurrences', ONE), ('state', st_want)):
                if fld == 'state':
                    def env(rng):
                        v = tuple(rng.randrange(2) for _ in range(rng.randrange(0, 20)))
                        return cx.bind(r, v if n == 'from_vec' else rep_of(cx, cx.interp(0), v))
                    cx.eqt(f'{n}: the state is the one given', g, [(mk_field(st, fld), w)],
                           [('state', lambda it, e: tuple(map(int, bits_of(cx, it, it.run(mk_field(st, fld), e)))),
                             lambda it, e: tuple(map(int, bits_of(cx, it, it.run(w, e)))))], env)
                else:
                    cx.eq(f'{n}: no {fld} is known yet' if fld != 'occurrences' else f'{n}: the solution occurs once', g,
                          mk_field(st, fld), w, lambda rng: cx.bind(r, (1,) if n == 'from_vec' else R('BinaryRepr', state=(1,), len=1)))
        for n, g in (('get', f['get']), ('get_unchecked', f['get_unchecked']), ('index', idxf)):
            def env(rng):
                it = cx.interp(0)
                v = tuple(rng.randrange(2) for _ in range(rng.randrange(1, 20)))
                s = R('SingleSolution', state=rep_of(cx, it, v), energy=NONEV, occurrences=1, local_field=NONEV, _phantom=())
                i = rng.randrange(len(v))
                return {**cx.bind(cx.R(g), s, i), '#v': v, '#i': i}
            r = cx.R(g)
            bg = cx.run(cx.fn('get', self_adt='BinaryRepr'), [mk_field(r['args'][0], 'state'), r['args'][1]])
            cx.eqt(f'{n}: the bit at that position', g, [(r['ret'], bg['ret'])], [('bit', r['ret'], lambda it, e: e['#v'][e['#i']])], env)
        r = cx.R(f['len'])
        bl = cx.run(cx.fn('len', self_adt='BinaryRepr'), [mk_field(r['args'][0], 'state')])
        cx.eq('len: the number of nodes', f['len'], r['ret'], bl['ret'], lambda rng: cx.bind(r, R(
            'SingleSolution', state=rep_of(cx, cx.interp(0), (0,) * rng.randrange(0, 20)), energy=NONEV, occurrences=rng.randrange(9), local_field=NONEV, _phantom=())))
    cx.attempt('construction', construct)


def solterm_of(cx, s):
    """the record form of a symbolic solution, as the constructor of a record update writes it"""
    return mk('rec', s.a[0], s.a[1], s.a[2]) if s.op == 'rec' else s


@prop('C08', 'other', 'value graphs of the typed IR, compared in normal form; loop invariant by induction over the step graph', 1,
      'The annealing loop is summarised as nested folds over (random source, bits, flip costs). The initial costs and the '
      'change a step makes are compared with the flip cost of an arbitrary model; the acceptance condition and the loop domains '
      'are compared with the Metropolis rule; complete runs of the graph are compared on small models for every draw.')
def c08(cx):
    f = cx.fn('simulated_annealing')
    M = Models(cx)
    gens = f['generics']
    low = 1e-19

    def ref(e, ps=None):
        s = list(e['v'])
        n = len(s)
        k = 0
        for b in e['betas']:
            for _ in range(e['sweeps']):
                for i in range(n):
                    d = M.field(e['w'], e['nv'], s, i)
                    if d > 0:
                        k += 1
                        if ps is not None:
                            ps.append(math.exp(-d * b))
                    if d <= 0 or math.exp(-d * b) > e['u']:
                        s[i] = 1 - s[i]
        e['#draws'] = k
        return tuple(s)

    def scen(kind, sweeps=None):
        def env(rng):
            it = cx.interp(rng.randrange(1 << 30))
            n = rng.randrange(1, 5)
            scale = rng.choice((1, 1, 1, 1000, 10 ** 6, Fr_(1, 1000)))
            m, w, nv = (M.quad if kind == 'quad' else M.high)(it, rng, n, scale=scale)
            u = rng.choice([0.5, 0.9, 0.05, 1e-3, 1e-8, 1e-17, rng.random()])
            e = {'m': m, 'w': w, 'nv': nv, 'v': tuple(rng.randrange(2) for _ in range(n)), 'u': u,
                 'sweeps': rng.randrange(1, 3) if sweeps is None else sweeps,
                 'betas': tuple(Fr_(rng.randrange(1, 40), rng.choice([1, 3, 10, 40])) / scale if rng.random() < .9 else 0
                                for _ in range(rng.randrange(1, 3)))}
            if rng.random() < .5:       # a draw next to the probability of an uphill step
                ps = []
                ref(e, ps)
                ps = [p for p in ps if 1e-16 < p <= 1]
                if ps:
                    e['u'] = min(rng.choice(ps) * rng.choice((1 - 1e-4, 1 + 1e-4)), 1 - 1e-4)
            return e
        return env

    def runit(it, e, log=None):
        def rand(it_, *a):
            if log is not None:
                log.add(I.okey(a[0]))
            return After(a[1] + (a[2] - a[1]) * e['u'], Opq(I.hsh(I.okey(a[0]))))
        it.calls = {**it.calls, 'rand': rand}
        it.steps = 3000000
        it.eps = 0
        it.zdiv = True
        ret, after = cx.app(it, f, Opq(7), rep_of(cx, it, e['v']), e['betas'], e['sweeps'], e['m'],
                            sb={gens[1]: e['#t']})
        return tuple(map(int, bits_of(cx, it, after[1])))
    for kind, nm in (('quad', 'complete'), ('high', 'any-order')):
        T_ = M.Q if kind == 'quad' else M.H

        def go(it, e):
            return runit(it, {**e, '#t': T_})
        cx.test(f'a run flips exactly the nodes that the Metropolis rule flips, for any draw ({nm} model)', f,
                [('state', go, lambda it, e: ref(e))], scen(kind), trials=60, rule='identity of the composed value graphs')

        def fresh_draws(it, e):
            log = set()
            got = runit(it, {**e, '#t': T_}, log)
            if got != ref(e):
                raise NoVal('other path')
            return int(len(log) >= sum_uphill(e))

        def sum_uphill(e):
            # decisions between the always-flip and the cut-off
            s = list(e['v'])
            k = 0
            for b in e['betas']:
                for _ in range(e['sweeps']):
                    for i in range(len(s)):
                        d = M.field(e['w'], e['nv'], s, i)
                        if d > 0 and math.exp(-d * b) > 1e-17:
                            k += 1
                        if d <= 0 or math.exp(-d * b) > e['u']:
                            s[i] = 1 - s[i]
            return k
        cx.test(f'every uphill decision uses a draw of its own ({nm} model)', f,
                [('fresh', fresh_draws, lambda it, e: 1)], scen(kind), trials=30, rule='identity of the composed value graphs')

    def refused():
        r = cx.run(f, sb={gens[1]: M.Q})
        sz = cx.run(cx.ti('ModelView', 'size', self_k='param'), [r['args'][4]],
                    sb={cx.ti('ModelView', 'size', self_k='param')['generics'][0]: M.Q})['ret']
        ln = cx.run(cx.fn('len', self_adt='BinaryRepr'), [r['args'][1]])['ret']
        ok = asserted(r)
        name = 'a state whose length is not the number of nodes is refused'
        if const_of(mul(ok, not_(eq(ln, sz, True)))) == 0:
            cx.ob(name, f, 'proved', rule='check on every path')
        else:
            def env(rng):
                it = cx.interp(0)
                m, w, nv = M.quad(it, rng, rng.randrange(1, 4))
                return {'m': m, 'w': w, 'nv': nv, 'v': tuple(rng.randrange(2) for _ in range(rng.randrange(0, 6))), 'u': 0.5,
                        'sweeps': 1, 'betas': (1,)}

            def tryit(it, e):
                try:
                    runit(it, {**e, '#t': M.Q})
                except Undef:
                    return 0
                return 1
            cx.test(name, f, [('accepted', tryit, lambda it, e: int(len(e['v']) == e['m'].get('size')))], env)
        cx.must('the annealing loop does not always panic', f, not r['dead'])
    cx.attempt('refused', refused)


@prop('C09', 'other', 'value graphs of the typed IR, compared in normal form', 1,
      'The schedule is summarised for every request and an arbitrary model. The explicit schedule and its length are read off '
      'the graph; the values are compared with the geometric progression and with the range derived from the weights.')
def c09(cx):
    g = cx.fn('generate_schedule')
    M = Models(cx)
    BT = next(a for a in cx.p.adts if short(a) == 'BetaType')
    var = {v['n']: v for v in cx.p.adts[BT]['variants']}
    V = lambda n, *a: C(f'BetaType.{n}', *a)
    r = cx.R(g)
    bt = r['args'][0]

    def explicit():
        on = {raw('is', bt, 'BetaType.' + n): ONE if n == 'Schedule' else ZERO for n in var}
        got = subst(r['ret'], on)
        name = 'a schedule given explicitly is used as it is'
        if got is mk('vf', bt, 'BetaType.Schedule', 0):
            return cx.ob(name, g, 'proved', rule='value-graph equality')
        cx.test(name, g, [('schedule', r['ret'], lambda it, e: e['#v'])], lambda rng: (lambda v: {
            **cx.bind(r, V('Schedule', v), ()), '#v': v})(tuple(rng.randrange(1, 9) for _ in range(rng.randrange(0, 5)))))
    cx.attempt('explicit', explicit)

    def scen(node, kind, req):
        MM = Models(cx, node)

        def env(rng):
            it = cx.interp(rng.randrange(1 << 30))
            n = rng.randrange(1, 5)
            scale = rng.choice((1, 1, 1, 10 ** 6, Fr_(1, 1000), Fr_(1, 10 ** 7)))
            m, w, nv = (MM.quad if kind == 'quad' else MM.high)(it, rng, n, scale=scale)
            k = rng.randrange(1, 7)
            lo = Fr_(rng.randrange(1, 20), rng.choice([1, 7, 10])) * rng.choice((1, 1, scale))
            hi = lo * rng.randrange(2, 9)
            return {'m': m, 'w': w, 'nv': nv, 'n': n, 'k': k, 'lo': lo, 'hi': hi,
                    'req': V('Count', k) if req == 'Count' else V('CountRange', k, lo, hi)}
        return env, MM, (MM.Q if kind == 'quad' else MM.H)

    def sched(it, e, T_):
        it.zdiv = True
        return tuple(map(float, it.elements(cx.app(it, g, e['req'], e['m'], sb=sub_(g, T_))[0])))

    def geo(lo, hi, k):
        return tuple(float(lo) * (float(hi) / float(lo)) ** (i / max(1, k - 1)) for i in range(k))
    env, MM, T_ = scen('Binary', 'quad', 'CountRange')
    cx.test('a count with a range: that many values in geometric progression from the first to the last', g,
            [('schedule', lambda it, e: sched(it, e, T_), lambda it, e: geo(e['lo'], e['hi'], e['k']))], env, trials=60, close=True)

    def count():
        gs = cx.fn('generate_beta_schedule')
        rr = cx.run(gs)
        cx.eq('a range makes as many values as asked', gs, mk('len', rr['ret']), rr['args'][2],
              lambda rng: cx.bind(rr, 1, 2, rng.randrange(9)))
    cx.attempt('count', count)
    for node in ('Binary', 'Spin'):
        for kind in ('quad', 'high'):
            env, MM, T2 = scen(node, kind, 'Count')
            nd = MM.value(R(node), 1) - MM.value(R(node), 0)

            def rngs(e):
                big = max(abs(x) for x in e['w'].values()) if e['w'] else 0
                tot = max(sum(abs(x) for p, x in e['w'].items() if i in p) for i in range(e['n'])) if e['w'] else 0
                return big, tot

            def want(it, e, nd=nd):
                big, tot = rngs(e)
                if not big:
                    raise NoVal('no energy scale')
                return geo(math.log(2) / (nd * tot), math.log(100) / (nd * big), e['k'])
            label = f'({node}, {"complete" if kind == "quad" else "any-order"} model)'
            cx.test('a count alone: the range follows from the largest weights of the model ' + label, g,
                    [('schedule', lambda it, e, T2=T2: sched(it, e, T2), want)], env, trials=40, close=True)
            cx.test('a count alone: the schedule never decreases ' + label, g,
                    [('non-decreasing', lambda it, e, T2=T2: (lambda s: int(all(a <= b * (1 + 1e-9) for a, b in zip(s, s[1:])) and all(x > 0 for x in s)))(sched(it, e, T2)),
                      lambda it, e: 1)], env, trials=40)


RANK = ['i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64']


@prop('C22', 'other', 'enumeration of the impl matrix with the compiler\'s types; value graphs with explicit numeric casts', 1,
      'Every impl of the numeric traits for the seven types is looked up in the type-checked program; its methods are summarised with '
      'casts kept explicit (a cast that represents every value of its source is the identity) and compared with the direct cast.')
def c22(cx):
    p = cx.p
    tr = {short(i['trait']): i['trait'] for i in p.impls if i.get('trait')}

    def imp(trait, self_t, targ=None):
        for i in p.by_trait.get(tr[trait], []):
            names = set(i['generics'])
            sb = {}
            from load import unify
            if unify(i['_self'], ('prim', self_t), names, sb) and \
                    (targ is None or unify(i['_targs'][-1], ('prim', targ), names, sb)):
                return i, sb
        return None

    def vals(rng, a):
        if a in TM.INTS:
            k = TM.INTS[a]
            return rng.choice([0, 1, -1, 5, -7, 2 ** k - 1, -2 ** k, rng.randrange(-2 ** k, 2 ** k), rng.randrange(-2 ** min(k, 40), 2 ** min(k, 40))])
        return rng.choice([0, 1, -1, Fr_(5, 2), -Fr_(7, 2), Fr_(2 ** 20 + 1, 1), -Fr_(2 ** 10 + 1, 2), 300, -40000, 2 ** 23 - 1] +
                          ([2 ** 40 + Fr_(1, 2), 2 ** 52 + 1, Fr_(2 ** 30 + 1, 2 ** 9)] if a == 'f64' else []))

    def runf(i, sb, n):
        f = p.fns[i['_items'][n]['id']]
        return f, cx.run(f, sb=sb, keep_casts=True)

    def same_(name, f, r, want, types, trials=60):
        cx.eq(name, f, r['ret'], want, lambda rng: cx.bind(r, *[vals(rng, t) for t in types]), trials=trials)
    cast = lambda v, a, b: TM.mk_cast(v, a, b)
    for a in RANK:
        def real(a=a):
            got = imp('Real', a)
            if not got:
                raise Missing(f'Real for {a}')
            i, sb = got
            for n, w in (('as_f64', lambda x: cast(x[0], a, 'f64')), ('from_i32', lambda x: cast(x[0], 'i32', a)),
                         ('from_f64', lambda x: cast(x[0], 'f64', a)), ('abs', lambda x: mk('abs', x[0])),
                         ('is_finite', lambda x: raw('b', mk('finite', x[0])) if a[0] == 'f' else ONE),
                         ('nan_or', lambda x: raw('sym', 'f64::NAN', 'r') if a[0] == 'f' else x[0]),
                         ('min', lambda x: mk('min', *x) if a[0] == 'f' else minv(x[0], x[1], True)),
                         ('max', lambda x: mk('max', *x) if a[0] == 'f' else maxv(x[0], x[1], True))):
                f, r = runf(i, sb, n)
                src = {'from_i32': 'i32', 'from_f64': 'f64'}.get(n, a)
                lim = 2 ** TM.INTS[a] - 1 if a in TM.INTS else None

                def env(rng, r=r, src=src, n=n):
                    v = [vals(rng, src) for _ in r['args']]
                    if n == 'abs' and lim is not None and v[0] == -lim - 1:
                        return None
                    return cx.bind(r, *v)
                cx.eq(f'{a}: {n} is that of the type', f, r['ret'], w(list(r['args'].values())), env)
            for n in ('MAX', 'MIN'):
                f = p.fns[i['_items'][n]['id']]
                g = cx.run(f)['ret']
                want = raw('sym', f'{a}::{n}', 'r')
                ok = g is want or g.op == 'sym' and g.a[0] == want.a[0]
                c = const_of(g) if g.op in ('poly', 'num') or TM.scalar(g) else None
                exact = None if a not in TM.INTS else (2 ** TM.INTS[a] - 1 if n == 'MAX' else -2 ** TM.INTS[a])
                bad = g.op == 'sym' and g.a[0] != want.a[0] and g.a[0].endswith(('::MAX', '::MIN')) or (c is not None and exact is not None and c != exact)
                cx.ob(f'{a}: {n} is that of the type', f, 'proved' if ok or (c is not None and c == exact) else 'refuted' if bad else 'open', show(g)[:80])
            for n, w in (('zero', 0), ('one', 1)):
                if n in i['_items']:
                    f, r = runf(i, sb, n)
                else:
                    f = next(q for q in cx.fns_(n) if short(q.get('in_trait') or '') == 'Real')
                    r = cx.run(f, sb={'Self': ('prim', a)}, keep_casts=True)
                cx.eq(f'{a}: {n} is {w}', f, r['ret'], num(w), lambda rng: {})
        cx.attempt(f'Real for {a}', real)

    wide = 0
    for x, a in enumerate(RANK):
        for y, b in enumerate(RANK):
            def pair(a=a, b=b, x=x, y=y):
                out = RANK[max(x, y)]
                got = imp('ConvertForce', a, b)
                cx.sites += 1
                if not got:
                    cx.ob(f'{a} to {b}: the forced conversion exists', None, 'refuted', f'no impl ConvertForce<{b}> for {a}')
                else:
                    f, r = runf(*got, 'convert_force')
                    same_(f'{a} to {b}: the forced conversion is the cast', f, r, cast(r['args'][0], a, b), [a])
                got = imp('ConvertFrom', b, a)
                name = f'{a} to {b}: conversion without force exactly when it widens'
                if (got is not None) != (y >= x):
                    cx.ob(name, None, 'refuted', f'ConvertFrom<{a}> for {b} is ' + ('offered' if got else 'missing'),
                          rule='impl matrix')
                else:
                    cx.ob(name, None, 'proved', rule='impl matrix')
                    if got:
                        f, r = runf(*got, 'convert_from')
                        same_(f'{a} to {b}: the widening conversion is the cast', f, r, cast(r['args'][0], a, b), [a])
                got = imp('ConvertWith', a, b)
                if not got:
                    return cx.ob(f'{a} with {b}: mixing is offered', None, 'refuted', f'no impl ConvertWith<{b}> for {a}', rule='impl matrix')
                i, sb = got
                o = tsub(ty(i['_items']['Output']['ty']), sb)
                cx.ob(f'{a} with {b}: the result type is the wider one', None, 'proved' if o == ('prim', out) else 'refuted',
                      f'Output is {tshow(o)}', rule='impl matrix')
                f, r = runf(i, sb, 'convert_lhs')
                same_(f'{a} with {b}: the left operand is converted as itself', f, r, cast(r['args'][0], a, out), [a])
                f, r = runf(i, sb, 'convert_rhs')
                same_(f'{a} with {b}: the right operand is converted as itself', f, r, cast(r['args'][0], b, out), [b])
            cx.attempt(f'{a}, {b}', pair)

    def to():
        i = p.by_trait[tr['ConvertTo']][0]
        f = p.fns[i['_items']['convert_to']['id']]
        g = f['generics']
        for a, b in (('i8', 'f64'), ('i32', 'i64'), ('f32', 'f64')):
            fx = next(y for y in i['preds'] if short(y['trait']) == 'ConvertFrom')
            r2 = ty(fx['args'][0])[1]
            r1 = ty(fx['args'][1])[1]
            r = cx.run(f, sb={r1: ('prim', a), r2: ('prim', b)}, keep_casts=True)
            same_(f'{a} to {b}: convert_to is the widening conversion', f, r, cast(r['args'][0], a, b), [a])
    cx.attempt('convert_to', to)


@prop('C23', 'other', 'value graphs of the typed IR, compared in normal form', 1,
      'The wrapper\'s and the generator\'s methods are summarised; delegation is the equality of the graph with the call on the '
      'wrapped value, and the arguments that reach the annealing loop are compared with the configured ones.')
def c23(cx):
    W = 'AsStructuredSolverGeneratorWrapper'
    SGT = 'annealers::solver::SolverGenerator::'
    UGT = 'annealers::solver::UnstructuredSolverGenerator::'

    def wrapper():
        into = cx.fn('into_structured', in_trait='UnstructuredSolverGenerator')
        w = cx.run(into)
        g = w['args'][0]
        m = raw('sym', 'model', '')
        gen = cx.ti('SolverGenerator', 'generate', self_adt=W)
        r = cx.run(gen, [w['ret'], m])
        cx.eq('wrapper: generation is that of the wrapped solver, errors included', gen, r['ret'], raw('call', SGT + 'generate', g, m),
              lambda rng: {n: Opq_(rng) for n in ('self', 'model')})
        try:
            vr = cx.ti('SolverGenerator', 'value_range', self_adt=W)
            r = cx.run(vr, [w['ret']])
            got = r['ret']
        except Missing:
            vr = cx.fn('value_range', in_trait='SolverGenerator')
            got = cx.run(vr, [w['ret']])['ret']
        cx.eq('wrapper: the range of values is that of the wrapped solver', vr, got, raw('call', SGT + 'value_range', g),
              lambda rng: {n: Opq_(rng) for n in ('self',)})
        i = next(i for i in cx.p.impls if short(i.get('trait') or '') == 'SolverGenerator' and i['_self'][0] == 'adt' and short(i['_self'][1]) == W)
        for n in ('SolverType', 'ErrorType'):
            t = ty(i['_items'][n]['ty'])
            cx.ob(f'wrapper: {n} is that of the wrapped solver', None, 'proved' if t[0] == 'proj' and short(t[1]) == n and t[2][0] == ('param', i['_self'][2][1][1] if i['_self'][2][0][0] != 'param' else i['_self'][2][0][1])
                  else 'open', tshow(t), rule='associated types of the impl')
    cx.attempt('wrapper', wrapper)

    def nodes():
        into = cx.fn('into_structured', in_trait='UnstructuredSolverGenerator')
        nd = cx.ti('StructuredSolverGenerator', 'nodes', self_adt=W)
        pr = cx.ti('StructuredSolverGenerator', 'prods', self_adt=W)
        qo = cx.ti('Order', 'order', self_adt='Quadric')

        def world(e, order=2):
            return {UGT + 'size': lambda it, s: e['size'], UGT + 'order': lambda it, s: R('Quadric'),
                    'annealers::order::Order::order': lambda it, o: order}

        def env(rng):
            return {'size': SOME(rng.randrange(0, 7)) if rng.random() < .7 else NONEV, 'g': Opq_(rng)}

        def nds(it, e):
            it.calls = world(e)
            it.passenv = ()
            v = cx.app(it, nd, cx.app(it, into, e['g'])[0])[0]
            return first(it, v, 8)

        def first(it, v, k):
            if isinstance(v, R) and v.t == 'RangeFrom':
                return tuple(range(v.get('start'), v.get('start') + k))
            return tuple(it.elements(v))[:k]
        cx.test('wrapper: the nodes are all nodes, or those below the limit of the wrapped solver', nd,
                [('nodes', nds, lambda it, e: tuple(range(8 if e['size'] == NONEV else min(8, e['size'].f[0]))))], env)
        en = cx.ti('Iterator', 'next', self_adt='UnstructuredEdgeIter')

        def pairs(it, e):
            it.calls = world(e)
            it.inf_ok = True
            cur = cx.app(it, pr, cx.app(it, into, e['g'])[0])[0]
            out = []
            for _ in range(40):
                x, (cur,) = cx.app(it, en, cur)
                if x == NONEV:
                    break
                out.append(tuple(sorted(x.f[0])))
            if e['size'] != NONEV:
                return tuple(sorted(out))
            ok = len(set(out)) == len(out) and all(len(p) == 2 for p in out) and \
                all((i, j) in out for j in range(5) for i in range(j))
            return int(ok)
        cx.test('wrapper: the pairs are exactly the pairs of its nodes', pr,
                [('pairs', pairs, lambda it, e: 1 if e['size'] == NONEV else
                  tuple(sorted((i, j) for j in range(e['size'].f[0]) for i in range(j))))], env, trials=20)
        r = cx.run(qo)
        cx.eq('the quadratic order is two', qo, r['ret'], num(2), lambda rng: {})
        ho = cx.ti('Order', 'order', self_adt='HighOrder')
        hn = cx.fn('new', self_adt='HighOrder')
        h = cx.run(hn)
        cx.eq('a high order is the one asked for', ho, cx.run(ho, [h['ret']])['ret'], h['args'][0], lambda rng: cx.bind(h, rng.randrange(9)))
        r = cx.run(pr)
        od = [c for c in find_ops(asserted(r), 'call') if c.a[0].endswith('Order::order')]
        cx.ob('wrapper: the pairs follow the order of the wrapped solver', pr, 'proved' if any(
            any(x.a[0] == UGT + 'order' for x in find_ops(c, 'call')) for c in od) else 'open')
    cx.attempt('nodes', nodes)

    def defaults():
        f = cx.fn('value_range', in_trait='SolverGenerator')
        r = cx.run(f)
        cx.eq('the default range of values spans the numeric type', f, r['ret'],
              raw('tuple', raw('sym', 'Real::MIN', 'r'), raw('sym', 'Real::MAX', 'r')), lambda rng: {'self': Opq_(rng)})
        f = cx.fn('size', in_trait='UnstructuredSolverGenerator')
        cx.eq('a solver is unlimited unless it says otherwise', f, cx.run(f)['ret'], NONET, lambda rng: {'self': Opq_(rng)})
    cx.attempt('defaults', defaults)

    def annealer():
        G = 'SimulatedAnnealerGenerator'
        gen = cx.ti('SolverGenerator', 'generate', self_adt=G)
        sched = cx.fn('generate_schedule')
        loop = cx.fn('simulated_annealing')
        r = cx.run(gen, opaque_fns={sched['id']})
        s, m = r['args'][0], r['args'][1]
        ok = mk('vf', r['ret'], 'Ok', 0)
        cx.ob('annealer: generation does not fail', gen, 'proved' if r['ret'].op == 'ctor' and r['ret'].a[1] == 'Ok' else 'open')
        seen = []

        def rec(ev, e, args, ga, st, fr):
            a = [ev.val(x, st) if not (isinstance(x, tuple)) else x for x in args]
            seen.append(args)
            return NotImplemented
        sv = cx.ti('ClassicalSolver', 'solve_with_rng', self_adt='SimulatedAnnealer')
        e = cx.ev(opaque_fns={loop['id'], sched['id']})
        q = cx.run(sv, [ok, raw('sym', 'rng', '')], ev=e)
        calls = {c for c in find_ops((q['ret'],) + tuple(q['after'].values()), 'call') if c.a[0] == loop['id']}
        name = 'annealer: the run uses the configured schedule, sweeps and model'
        if len(calls) != 1:
            return cx.ob(name, sv, 'open', f'{len(calls)} runs')
        a = next(iter(calls)).a[1:]
        names = [x['n'] if isinstance(x, dict) and 'n' in x else '' for x in loop.get('params', [])]
        env = lambda rng: {}
        for lab, got, want in (('the configured schedule', a[2], raw('call', sched['id'], mk_field(s, 'beta'), m)),
                               ('the configured number of sweeps', a[3], mk_field(s, 'sweeps_per_round')),
                               ('the given model', a[4], m)):
            if got is want:
                cx.ob(f'annealer: the run uses {lab}', sv, 'proved', rule='value-graph equality')
            else:
                cx.test(f'annealer: the run uses {lab}', sv, [('argument', got, want)],
                        lambda rng: {'self': R(G, sweeps_per_round=rng.randrange(1, 90), beta=Opq_(rng)), 'model': Opq_(rng), 'rng': Opq_(rng),
                                     'self.sweeps_per_round': rng.randrange(1, 90), 'self.beta': Opq_(rng)})
        size = lambda it, *x: x[0].h % 20 if isinstance(x[0], Opq) else NotImplemented
        world = {'annealers::model::SingleModelView::size': size, 'annealers::model::ModelView::size': size,
                 loop['id']: lambda it, *x: After((), Opq(77), rep_of(cx, it, (1, 0, 1)), *x[2:])}

        def env(rng):
            m_ = Opq_(rng)
            return {'self': R(G, sweeps_per_round=rng.randrange(1, 90), beta=Opq_(rng)), 'model': m_, 'rng': Opq_(rng),
                    'self.sweeps_per_round': rng.randrange(1, 90), 'self.beta': Opq_(rng), '#n': m_.h % 20}, world
        ln = cx.run(cx.fn('len', self_adt='BinaryRepr'), [a[1]])['ret']
        if any(ln is raw('call', n, m) for n in world):
            cx.ob('annealer: the start state has one bit per node', sv, 'proved', rule='value-graph equality')
        else:
            cx.test('annealer: the start state has one bit per node', sv, [('length', ln, lambda it, e: e['#n'])], env)
        sol = mk('vf', q['ret'], 'Ok', 0)
        cx.eq('annealer: it returns one sample', sv, mk('len', sol), ONE, env)
        cx.eq('annealer: the sample is the state the run ends in', sv, mk_field(mk_idx(sol, ZERO), 'state'),
              raw('post', next(iter(calls)), 1), env)
        od = cx.ti('UnstructuredSolverGenerator', 'order', self_adt=G)
        cx.eq('annealer: the order offered is the quadratic one', od, cx.run(
            cx.ti('Order', 'order', self_adt='Quadric'), [cx.run(od)['ret']])['ret'], num(2), lambda rng: {})
    cx.attempt('annealer', annealer)
