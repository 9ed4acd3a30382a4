"""groups of variables, rewriting of expressions, copies and comparisons"""
from lang import *
from props import prop
from props_expr import IND
from props_model import Subsets
import itertools


# ---------------------------------------------------------------- C24
@prop('C24', 'other', 'value graph of the recursive enumeration, evaluated exhaustively on small sets; value graph of the count against its definition', 1,
      'The enumeration is summarised with its recursive calls modular and a callback that records; the recorded sequence is compared with the '
      'set of all groups for every set of up to six variables and every admissible pair of bounds. The count is summarised with the enumeration and the '
      'sign claim at their specification and compared with the number of terms per group for polynomials of every shape.')
def c24(cx):
    RULE = 'exhaustive evaluation of the summary'

    def enum():
        sub = Subsets(cx)
        bad = ''
        n = 0
        combos = [(size, lo, hi) for size in range(0, 7) for lo in range(0, size + 1) for hi in [NONEV] + [SOME(k) for k in range(lo, size + 3)]]
        for size, lo, hi in combos + [(7, 2, NONEV), (8, 2, NONEV), (8, 7, NONEV), (9, 8, SOME(9))]:
            s = frozenset(range(size))
            it = cx.interp(0)
            it.steps, it.longest = 4000000, 2000
            sub.install(it)
            try:
                got = [frozenset(x) for x in sub.emitted(it, s, lo, hi)]
            except Undef as x:
                if str(x) not in ('refused', 'index out of range'):
                    raise
                bad = bad or f'panics for {size} variables, bounds {lo} and {hi!r}'
                continue
            n += 1
            want = set(sub.ref(s, lo, hi))
            if len(got) != len(set(got)) or set(got) != want:
                bad = bad or f'{size} variables, bounds {lo} and {hi!r}: visits {[sorted(x) for x in got]}, ' \
                    f'the groups are {sorted(sorted(x) for x in want)}'
        cx.ob('every group within the bounds is visited, and visited once', sub.gen, 'refuted' if bad else 'identical',
              bad or f'{n} combinations of size and bounds', rule=RULE)
        if bad:
            return

        def got(it, e):
            it.steps, it.longest = 4000000, 2000
            sub.install(it)
            return tuple(sorted(tuple(sorted(x)) for x in sub.emitted(it, frozenset(range(e['#n'])), e['#lo'], e['#hi'])))

        def env(rng):
            n, lo, hi = rng.choice(combos)
            return {'#n': n, '#lo': lo, '#hi': hi}
        cx.test('no size is treated differently', sub.gen, [('groups', got, lambda it, e: tuple(sorted(tuple(sorted(x)) for x in sub.ref(
            frozenset(range(e['#n'])), e['#lo'], e['#hi']))))], env, trials=60)
    cx.attempt('enumeration', enum)

    def count():
        sub = Subsets(cx)
        h = sub.cnt

        def want(it, e):
            d = {}
            for q, c in e['#m'].d.items():
                if len(q) <= e['#k']:
                    continue
                p = cx.app(it, sub.pos, c)[0]
                for g in sub.ref(q, e['#lo'], e['#hi']):
                    if len(g) <= 2:
                        key = (g, NONEV)
                    elif p == NONEV:
                        continue
                    else:
                        key = (g, p)
                    d[key] = d.get(key, 0) + 1
            return d

        def got(it, e):
            sub.install(it)
            m, _ = sub.count(it, e['#m'], e['#k'], e['#lo'], e['#hi'])
            return dict(m.d)

        def env(rng, hi=False):
            return {'#m': gpoly(rng, order=rng.choice((3, 4, 5)), terms=rng.choice((0, 1, 3, 6)), n=rng.choice((4, 5, 6)), co=lambda r: gstatic(r, r.randrange(3))),
                    '#k': 2 if rng.random() < .7 else rng.choice((1, 3)), '#lo': 2, '#hi': SOME(rng.choice((2, 3, 4))) if hi else NONEV}
        cx.test('a group is counted once for every term that is too long and contains it, larger groups by the sign of the term', h,
                [('counts', got, want)], env, trials=60)
        cx.test('a bound on the size of the groups is kept', h, [('counts', got, want)], lambda rng: env(rng, True), trials=40)
    cx.attempt('counts', count)

    def offered():
        red = cx.fn('reduce_order', self_adt='CompiledModel')
        h = cx.fn('count_qubit_subsets')
        r = cx.run(red, opaque_fns={h['id'], cx.fn('generate_replace', self_adt='CompiledModel')['id']} |
                   {f['id'] for n in ('get_order', 'is_superset', 'remove_qubits', 'simplify', 'abs_bound') for f in cx.fns_(n)})
        k = list(r['args'].values())[1]
        ts, seen = [], set()
        todo = [r['ret'], *r['after'].values(), r['st'].pc]
        while todo:
            t = todo.pop()
            if not isinstance(t, T) or t in seen:
                continue
            seen.add(t)
            if t.op == 'call' and t.a[0] == h['id']:
                ts.append(t)
            todo += [x for y in t.a for x in (y if isinstance(y, (tuple, list)) else (y,))]
        if not ts:
            raise Unsupported('no call of the count in the summary')
        for t in ts[:3]:
            cx.eq('the terms that are too long are those above the order that was asked for', red, t.a[2], k,
                  lambda rng: {k.a[0]: rng.randrange(1, 6)})
            lo, hi = const_of(t.a[3]), t.a[4]
            hi = const_of(hi.a[-1]) if hi.op == 'ctor' and len(hi.a) > 2 else None
            cx.must('groups of two variables are always offered', red, (lo is None or lo <= 2) and (hi is None or hi >= 2),
                    f'groups have from {show(t.a[3])} to {show(t.a[4])} variables')
    cx.attempt('offered', offered)


# ---------------------------------------------------------------- C25
class Step(I.Log):
    """a callback with a state: what it has seen decides what it answers"""

    def __init__(self, rule, items=()):
        self.rule, self.items = rule, items
        self.f, self.name = (lambda x: rule(items, x)), 'step'

    def push(self, *a):
        return Step(self.rule, self.items + a)


def rewritten(e, s):
    """(result, callback afterwards) of rewriting from the root down"""
    x = s.f(e)
    s = s.push(e)
    k = x.v.split('.')[-1]
    if k in ('Placeholder', 'Number', 'Binary', 'Spin'):
        return x, s
    if k == 'Constraint':
        y, s = rewritten(x.f[1], s)
        return E(k, x.f[0], y), s
    a, s = rewritten(x.f[0], s)
    b, s = rewritten(x.f[1], s)
    return E(k, a, b), s


def grule(rng):
    """a random callback: keeps, replaces or swaps, by kind and by the number of calls so far"""
    tab = {k: rng.randrange(5) for k in ('Placeholder', 'Number', 'Binary', 'Spin', 'Add', 'Mul', 'Constraint', 'WithPenalty')}

    def rule(seen, x):
        k = x.v.split('.')[-1]
        m = tab[k]
        n = len(seen)
        if m <= 1 or n > 30:
            return x
        if k in ('Add', 'Mul'):
            return E('Add' if k == 'Mul' else 'Mul', x.f[1], x.f[0]) if m == 2 else x.f[n % 2] if m == 3 else E(k, x.f[0], E('Number', n))
        if k == 'Constraint':
            return x.f[1] if m == 2 else E(k, x.f[0] if m == 3 else n, x.f[1])
        if k == 'WithPenalty':
            return E(k, x.f[1], x.f[0]) if m == 2 else x.f[0] if m == 3 else E('Add', x.f[0], x.f[1])
        return E('Number', n) if m == 2 else E('Binary', n) if m == 3 else E('Add', x, E('Number', n)) if n < 12 else x
    return rule


@prop('C25', 'other', 'value graph of the rewriting, with the callback as an unknown function with a state; structural induction', 1,
      'The rewriting is summarised with its recursive calls modular and the callback as a function whose state changes with every call. The '
      'summary is compared with the definition, result and sequence of calls, for callbacks that keep, replace and rearrange what they are given.')
def c25(cx):
    f = cx.fn('map', self_adt='Expr')

    def go():
        r = cx.run(f, [None, ('mut', raw('sym', 'cb', ''))], fnstate=True, opaque_fns={f['id']})

        def rec(it, e, cb):
            env = cx.bind(r, e)
            env['cb'] = cb
            return it.run(r['ret'], env), lambda i: it.run(r['after'][i], env)

        def both(it, e, s):
            it.calls[f['id']] = lambda it_, x, c: rewritten(x, c)[0]
            return rec(it, e, s)

        def summ(it):
            base = it.summ
            it.summ = lambda n: r2 if n == f['id'] else base(n)
            it.spec = None
        r2 = r
        # the parameter of the callback is a reference to a symbol of its own
        r2 = dict(r, args={0: r['args'][0], 1: raw('sym', 'cb', '')})

        def run(it, e):
            summ(it)
            env = cx.bind(r2, e['#e'], e['#f'])
            x = it.run(r['ret'], env)
            s = it.run(r['after'][1], env)
            return x, s.items

        def want(it, e):
            x, s = rewritten(e['#e'], e['#f'])
            return x, s.items
        for k, _ in expr_ctors(cx):
            cx.test(f'rewriting: {k}', f, [('result and sequence of calls', run, want)],
                    lambda rng, k=k: {'#e': gexpr_k(rng, k, rng.choice((1, 2, 3))), '#f': Step(grule(rng))}, rule=IND, trials=60)
    cx.attempt('rewriting', go)

    def number():
        g = cx.fn('map_number', self_adt='Expr')

        def want(e, h):
            k = e.v.split('.')[-1]
            if k == 'Number':
                return E(k, h(e.f[0]))
            if k in ('Placeholder', 'Binary', 'Spin'):
                return e
            if k == 'Constraint':
                return E(k, e.f[0], want(e.f[1], h))
            return E(k, want(e.f[0], h), want(e.f[1], h))
        h = lambda x: 3 * x + 1
        for k, c in expr_ctors(cx):
            cx.test(f'change of the numeric type: {k}', g,
                    [('expression', lambda it, e: cx.app(it, g, e['#e'])[0], lambda it, e: want(e['#e'], h))],
                    lambda rng, k=k: {'#e': gexpr_k(rng, k)}, calls={'annealers::variable::ConvertFrom::convert_from': lambda it, x: h(x)}, rule=IND)
    if cx.fns_('map_number', self_adt='Expr'):
        cx.attempt('numbers', number)


# ---------------------------------------------------------------- C26
@prop('C26', 'other', 'value graphs of every Clone and comparison impl against structural equality', 1,
      'Every impl of Clone, PartialEq, PartialOrd, Ord and Hash for a type of the three crates is enumerated from the type-checked program, derived or written '
      'by hand, and summarised. A copy has to have the same summary as the original, field by field; comparisons are evaluated for all pairs of small '
      'values and have to be those of the structure.')
def c26(cx):
    fns = [f for f in cx.p.fns.values() if f['kind'] == 'AssocFn' and f.get('trait') and (f.get('self_ty') or {}).get('n')]
    own = lambda f: short(f['self_ty']['n'])
    tr = lambda f: short(f['trait'] if isinstance(f['trait'], str) else f['trait'].get('n', ''))

    def copies(f):
        r = cx.run(f)
        if const_of(asserted_(r)) != 1:
            raise Unsupported('may panic')
        t = cx.p.norm(ty(f['self_ty']))

        def env(rng):
            return {'#v': Gen(cx.p, rng, depth=rng.choice((1, 2, 3))).of(t)}

        def got(it, e):
            it.spec = None
            return cx.app(it, f, e['#v'])[0]
        cx.eqt(f'a copy of {own(f)} equals the original', f, [(r['ret'], r['args'][0])], [('copy', got, lambda it, e: e['#v'])], env)
    for f in fns:
        if f['name'] == 'clone' and tr(f) == 'Clone':
            cx.attempt(f'copy {own(f)}', lambda f=f: copies(f))
    pools = dict(
        Qubit=[QB(0), QB(1), QB(2), ANC(0), ANC(1), ANC(2)],
        Placeholder=[PPH(0), PPH(1), PPH(2), PCO(0), PCO(1), PCO(2)],
        HighOrder=[R('HighOrder', **{'0': i}) for i in (0, 1, 2, 3, 255, 256)],
        Quadric=[R('Quadric')])
    small = [E('Number', 0), E('Number', 1), E('Number', -1), E('Placeholder', 0), E('Placeholder', 1), E('Binary', 0), E('Binary', 1), E('Spin', 0), E('Spin', 1)]
    pairs_ = small[:1] + small[3:6:2]
    pools['Expr'] = small + [E(k, a, b) for k in ('Add', 'Mul', 'WithPenalty') for a in pairs_ for b in pairs_] + \
        [E('Constraint', i, a) for i in (0, 1) for a in pairs_]
    leaf = [S('Number', 0), S('Number', 1), S('Placeholder', 0), S('Placeholder', 1)]
    pools['StaticExpr'] = leaf + [S('Number', -1)] + [S(k, t) for k in ('Add', 'Mul') for t in [()] + [(a,) for a in leaf[:3]] + [(a, b) for a in leaf[:3] for b in leaf[:3]]]
    LAW = 'evaluation of the summary on all pairs of small values'

    def pairs(f, name, vals, good):
        bad = ''
        for a in vals:
            for b in vals:
                it = cx.interp(0)
                it.spec = None
                try:
                    r, _ = cx.app(it, f, a, b)
                except Undef as x:
                    r = f'panic ({x})'
                if not good(a, b, r):
                    bad = bad or f'{a!r} against {b!r} gives {r!r}'
        cx.ob(name, f, 'refuted' if bad else 'identical', bad or f'{len(vals) ** 2} pairs', rule=LAW)
    cmps = {}
    for f in fns:
        n = own(f)
        if n not in pools or tr(f) not in ('PartialEq', 'PartialOrd', 'Ord'):
            continue
        v = pools[n]
        if f['name'] in ('eq', 'ne'):
            pos_ = f['name'] == 'eq'
            cx.attempt(f'{f["name"]} {n}', lambda f=f, n=n, v=v, pos_=pos_: pairs(
                f, f'{n}: {f["name"]} is {"equality" if pos_ else "difference"} of structure', v, lambda a, b, r: r in (0, 1) and bool(r) == ((a == b) == pos_)))
        if f['name'] in ('cmp', 'partial_cmp'):
            cmps.setdefault(n, {})[f['name']] = f

    def order(n, f, wrap):
        v = pools[n]
        t = {}
        bad = ''
        for a in v:
            for b in v:
                it = cx.interp(0)
                it.spec = None
                r, _ = cx.app(it, f, a, b)
                if wrap:
                    r = r.f[0] if r != NONEV else r
                t[a, b] = getattr(r, 'v', repr(r))
        flip = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
        for a in v:
            for b in v:
                if t[a, b] not in flip or (t[a, b] == 'Equal') != (a == b) or t[b, a] != flip[t[a, b]]:
                    bad = bad or f'{a!r} against {b!r}: {t[a, b]} and {t[b, a]}'
                for c in v:
                    if t[a, b] == t[b, c] == 'Less' and t[a, c] != 'Less':
                        bad = bad or f'{a!r} < {b!r} < {c!r}, but not {a!r} < {c!r}'
        cx.ob(f'{n}: {f["name"]} is a total order that is equal for equal values only', f, 'refuted' if bad else 'identical',
              bad or f'{len(v) ** 3} triples', rule='evaluation of the summary on all triples of small values')
        return t
    for n, d in sorted(cmps.items()):
        def both(n=n, d=d):
            ts = {k: order(n, f, k == 'partial_cmp') for k, f in d.items()}
            if len(ts) == 2:
                diff = [(k, ts['cmp'][k], ts['partial_cmp'][k]) for k in ts['cmp'] if ts['cmp'][k] != ts['partial_cmp'][k]]
                cx.must(f'{n}: the partial order is the order', d['partial_cmp'], not diff, str(diff[:1]), rule=LAW)
        cx.attempt(f'order {n}', both)


def asserted_(r):
    t = ONE
    for a in r['st'].asserts:
        t = mul(t, tobool(a))
    return t


# ---------------------------------------------------------------- C27
@prop('C27', 'other', 'value graphs of constructors, additions and accessors, composed', 1,
      'Constructors, additions and accessors of the models are summarised and composed: what the accessors report on a new model and after an addition is compared '
      'with the arguments of the constructor. The blanket impls that show a model through a more general view are summarised for both models and compared with the '
      'view they forward to.')
def c27(cx):
    R_ = ('param', 'R')
    T2 = cx.ty('TwoVal', R_)
    fq = cx.ty('FixedSingleQuadricModel', T2)
    sm = cx.ty('SingleModel', T2, cx.ty('HighOrder'))
    two = lambda rng: R('TwoVal', true_value=rng.randrange(-4, 5), false_value=rng.randrange(-4, 5))
    SINGLE, FIXED = 'SingleModel', 'FixedSingleQuadricModel'
    sbm = lambda f, *ts: dict(zip(f['generics'], ts))
    new = {SINGLE: cx.fn('new', self_adt=SINGLE), FIXED: cx.fn('new', self_adt=FIXED)}
    add_ = {SINGLE: cx.fn('add_weight', self_adt=SINGLE), FIXED: cx.fn('add_weight', self_adt=FIXED)}
    mty = {SINGLE: sm, FIXED: fq}
    margs = {SINGLE: (T2, cx.ty('HighOrder')), FIXED: (T2,)}

    def accessor(view, name, model):
        """the body that answers `name` of `view` for the model, with its substitution"""
        try:
            f = cx.ti(view, name, self_adt=model)
            return f, sbm(f, *margs[model])
        except Missing:
            pass
        if (view, model) != ('SingleModelView', SINGLE):
            try:
                f = cx.ti(view, name, self_k='param')
                return f, sbm(f, mty[model])
            except Missing:
                pass
        for f in cx.fns_(name):
            if short(f.get('trait') or f.get('in_trait') or '') == view and not f.get('self_ty'):
                return f, {'Self': mty[model]}
        raise Missing(f'{view}::{name}')

    def build(it, model, rng_):
        n, t, w = rng_
        f = new[model]
        m = cx.app(it, f, t, R('HighOrder', **{'0': n}) if model == SINGLE else n, sb=sbm(f, *margs[model]))[0]
        g = add_[model]
        for s, x in w:
            l = sorted(s)
            args = (frozenset(s), x) if model == SINGLE else (l[0], l[-1], x)
            m = cx.app(it, g, m, *args, sb=sbm(g, *margs[model]))[1][0]
        return m

    def env(rng):
        n = rng.randrange(1, 7)
        k = rng.randrange(1, 4)
        return {'#c': (n, two(rng), tuple((frozenset(rng.sample(range(n), rng.randrange(1, min(n, 2) + 1))), rng.randrange(-3, 4)) for _ in range(rng.randrange(0, k + 1))))}
    for model in (SINGLE, FIXED):
        for view in (('SingleModelView',) if model == SINGLE else ('FixedSingleModelView', 'SingleModelView')) + ('ModelView',):
            for name in ('node', 'order', 'size', 'nodes'):
                if (view, name) in (('ModelView', 'order'), ('FixedSingleModelView', 'nodes')):
                    continue

                def go(model=model, view=view, name=name):
                    f, sb = accessor(view, name, model)

                    def got(it, e):
                        m = build(it, model, e['#c'])
                        r = cx.app(it, f, m, sb=sb)[0]
                        if name == 'nodes':
                            if isinstance(r, R) and 'start' in r.d:
                                return tuple(range(r.get('start'), r.get('end')))
                            return tuple(sorted(it.elements(r)))
                        return r

                    def want(it, e):
                        n, t, w = e['#c']
                        if name == 'node':
                            return t
                        if name == 'order':
                            return R('HighOrder', **{'0': n}) if model == SINGLE else R('Quadric')
                        ns = sorted({x for s, _ in w for x in s}) if model == SINGLE else range(n)
                        return len(ns) if name == 'size' else tuple(ns)
                    what = {'node': 'the node kind', 'order': 'the order', 'size': 'the number of nodes', 'nodes': 'the nodes'}[name]
                    cx.test(f'{model} seen as {view}: {what} it was made with', f, [(name, got, want)], env, trials=40)
                cx.attempt(f'{model} {view} {name}', go)

    def numbers():
        for n, want in (('Quadric', lambda x: 2), ('HighOrder', lambda x: x)):
            f = cx.ti('Order', 'order', self_adt=n)
            mkv = (lambda it, x: R('Quadric')) if n == 'Quadric' else (lambda it, x: cx.app(it, cx.fn('new', self_adt='HighOrder'), x)[0])
            cx.test(f'the degree of {n}', f, [('degree', lambda it, e, f=f, mkv=mkv: cx.app(it, f, mkv(it, e['#n']))[0], lambda it, e, w=want: w(e['#n']))],
                    lambda rng: {'#n': rng.choice((0, 1, 2, 3, 7, 255, 256, 65536))})
    cx.attempt('degrees', numbers)

    def weights():
        # the weight does not depend on the view
        for model, view in ((FIXED, 'SingleModelView'),):
            f, sb = accessor(view, 'get_weight', model)
            g, sg_ = accessor('FixedSingleModelView', 'get_weight', model)

            def env2(rng):
                e = env(rng)
                n = e['#c'][0]
                a = rng.randrange(n)
                e['#p'] = (a, rng.randrange(a, n))
                return e
            cx.test('a weight is the same in every view', f,
                    [('weight', lambda it, e: cx.app(it, f, build(it, model, e['#c']), e['#p'], sb=sb)[0],
                      lambda it, e: sum(x for s, x in e['#c'][2] if (min(s), max(s)) == e['#p']))], env2)
    cx.attempt('weights', weights)
