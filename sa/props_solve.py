"""the solving loop: selection of samples, strengths of the constraints, reported labels"""
from lang import *
from props import prop
from props_ann import cs, asserted, find_ops
from props_expr import cmodel
from props_model import gcons
import itertools

WORLD, ROUND = 'world', 'round'


class Solve:
    """solve_with_constraints with the calls into the other parts modular:

    - the QUBO generator is given the strength of every placeholder of the model (the closure is run for each of them)
    - every run of a solver is a draw of its own, numbered by a counter that is part of the state
    - energies, local fields and the judgement of the constraints are functions of their arguments"""

    def __init__(self, cx):
        self.cx = cx
        p = cx.p
        self.f = cx.fn('solve_with_constraints', self_adt='SimpleSolver')
        hooks, op = {}, set()
        for own in ('CompiledModel', 'Expanded'):
            for g in cx.fns_('generate_qubo', self_adt=own):
                hooks[g['id']] = self.qubo
            for n in ('get_unsatisfied_constraints', 'get_placeholders', 'get_qubits'):
                op |= {g['id'] for g in cx.fns_(n, self_adt=own)}
        for n in ('is_satisfied',):
            op |= {g['id'] for g in cx.fns_(n, self_adt='Constraint')}
        self.view = cx.fn('new', self_adt='SolutionView')
        for n in ('with_energy', 'with_local_field', 'calculate_energy', 'calculate_local_field'):
            for g in cx.fns_(n):
                op.add(g['id'])
                setattr(self, n, g['id'])
        hooks['annealers::solver::ClassicalSolver::solve_with_rng'] = self.draw
        hooks['annealers::solver::ClassicalSolver::solve'] = self.draw
        self.placeholders = [g['id'] for own in ('CompiledModel', 'Expanded') for g in cx.fns_('get_placeholders', self_adt=own)]
        self.unsat = [g['id'] for g in cx.fns_('get_unsatisfied_constraints', self_adt='CompiledModel')]
        self.satisfied = [g['id'] for g in cx.fns_('is_satisfied', self_adt='Constraint')]
        TM.DROP[0] = True
        try:
            self.r = cx.run(self.f, hooks=hooks, opaque_fns=op, namebig=6, world=True)
        finally:
            TM.DROP[0] = False

    def qubo(self, ev, e, args, ga, st, fr):
        m = ev.val(args[0], st)
        if 'Expanded' in e['fn'] or e['fn'].startswith('rustqubo::expanded'):
            m = raw('call', 'of_expanded', m)
        x = fresh('')
        ph = raw('call', 'placeholders_of', m)
        base = seq_for(raw('elems', ph), x, seq([one(ONE, x)]))
        s = ev.seq_run(base, lambda y, s2: seq([one(ONE, ev.apply(args[2], [y], s2, fr))]), st, fr)
        q = ev.val(args[1], st)
        w = st.store[ROUND]
        st.store[ROUND] = add(w, ONE)
        return raw('call', 'qubo', m, q, TM.mk_vec(s), w)

    def draw(self, ev, e, args, ga, st, fr):
        w = st.store[WORLD]
        r = raw('call', 'draw', ev.val(args[0], st), w)
        st.store[WORLD] = add(w, ONE)
        return r


class World:
    """one possible behaviour of everything the loop calls"""

    def __init__(self, cx, sv, rng, fail=False, ints=False, nq=None):
        self.cx, self.sv = cx, sv
        self.seed = rng.randrange(1 << 30)
        self.nq = nq or rng.randrange(1, 5)
        names = [(QB if rng.random() < (.98 if nq else .7) else ANC)(i) for i in range(self.nq)]
        rng.shuffle(names)
        self.qubits = tuple(names)
        self.ncon = rng.choice((0, 1, 2, 2, 3))
        labs = [rng.randrange(3) for _ in range(self.ncon)]
        cons = []
        for i, l in enumerate(labs):
            k = rng.random()
            cons.append(R('Constraint', label=SOME(l) if k < .8 else NONEV, expr=E('Number', i),
                          placeholder=SOME(PCO(l)) if k < .9 else NONEV))
        self.cons = tuple(cons)
        # energies: whole numbers, fractions close to each other, or whole numbers that a double cannot tell apart
        self.scale, self.base = rng.choice(((1, 0), (1, 0), (F(1, 4), 0), (F(1, 1024), 0), (1, 1 << 60), (1, -1 << 62)))
        self.phs = tuple(sorted({c.get('placeholder').f[0] for c in cons if c.get('placeholder') != NONEV} |
                                ({PCO(5)} if rng.random() < .3 else set()), key=I.okey))
        self.iterations, self.samples, self.generations = rng.randrange(1, 3), rng.randrange(1, 4), rng.randrange(1, 5)
        if rng.random() < .05:          # more points than a byte counts
            self.phs = tuple(sorted(set(self.phs) | {PCO(10 + i) for i in range(27)}, key=I.okey))
        self.cs = rng.choice((50, 7, 20)) if not ints else rng.choice((50, 100, 33))
        self.model = cmodel(M({frozenset([q]): S('Number', 1) for q in names}), self.cons, 9)
        self.fail = (rng.choice(('generate', 'draw')), rng.randrange(0, 6)) if fail else None
        self.happy = rng.random() < .3
        self.level = rng.choice((3, 8))
        if rng.random() < .5:
            self.happy = None
        self.self_ = R('SimpleSolver', model=self.model, qubits=self.qubits, _phantom=(), iterations=self.iterations, samples=self.samples,
                       generations=self.generations, coeff_strength=self.cs, solver_generator='G')

        try:
            # the order in which the program lists the variables
            it = cx.interp(self.seed)
            qs = cx.app(it, cx.fn('with_solver', self_adt='SimpleSolver'), self.model, 'G')[0].get('qubits')
            if frozenset(qs) == frozenset(names) and len(qs) == len(names):
                self.qubits = tuple(qs)
        except (NoVal, Undef):
            pass
        self.self_ = R('SimpleSolver', **{**self.self_.d, 'qubits': self.qubits})

    def h(self, *a):
        return I.hsh(self.seed, repr(a))

    # oracles
    def qubo(self, m, q, n):
        return (self.h('c', n) % 7 - 3, R('Qubo', q=q, n=n, m=m))

    def generate(self, model):
        if self.fail and self.fail[0] == 'generate' and model.get('n') == self.fail[1]:
            return C('Err', ('generate', model.get('n')))
        return C('Ok', R('Solver', m=model))

    def draw(self, solver, w):
        if self.fail and self.fail[0] == 'draw' and w == self.fail[1]:
            return C('Err', ('draw', w))
        n = 1 + (self.h('n', w) % 3 == 0)
        if self.h('z', w) % 5 == 0 and self.samples > 1 and w % self.samples:
            n = 0
        return C('Ok', tuple(self.sol(solver, w, i) for i in range(n)))

    def sol(self, solver, w, i):
        return R('SingleSolution', state=R('BinaryRepr', state=self.bytes_(w, i), len=self.nq), energy=NONEV,
                 occurrences=1 + w * 10 + i, local_field=NONEV, _phantom=())

    def bytes_(self, w, i):
        n = self.nq
        return tuple(self.h('s', w, i, *[k] * (k > 0)) % (1 << min(8, n - 8 * k)) for k in range((n + 7) // 8))

    def energy(self, s, m):
        return self.base + self.scale * (self.h('e', s.get('state').get('state'), m.get('n')) % self.level - 5)

    def with_energy(self, s, m):
        if s.get('energy') != NONEV:
            return s
        return R('SingleSolution', **{**s.d, 'energy': SOME(self.energy(s, m))})

    def field(self, s, m):
        return tuple(self.h('l', s.get('state').get('state'), m.get('n'), k) % 9 for k in range(self.nq))

    def with_lf(self, s, m):
        if s.get('local_field') != NONEV:
            return s
        return R('SingleSolution', **{**s.d, 'local_field': SOME(self.field(s, m))})

    def violated(self, c, ans):
        if self.happy:
            return False
        m = 3 if self.happy is None else 2
        return self.h('v', c.get('expr').f[0], sorted((repr(k), int(bool(v))) for k, v in ans.items())) % m != 0

    def install(self, it):
        sv = self.sv
        C_ = it.calls
        self.strengths, self.models, self.draws, self.failed = {}, {}, {}, []

        def qubo(it, m, q, st, n):
            self.strengths[n] = tuple(st)
            if m != self.model or tuple(q) != self.qubits:
                raise Undef('refused')
            return self.qubo(m, q, n)

        def generate(it, g, m):
            r = self.generate(m)
            self.models[m.get('n')] = m
            if r.v == 'Err':
                self.failed.append((m.get('n'), r))
            return r

        def draw(it, s, w):
            if not isinstance(s, R):
                raise Undef('bottom: no solver')
            r = self.draw(s, w)
            if r.v == 'Err':
                self.failed.append((s.get('m').get('n'), r))
            else:
                self.draws.setdefault(s.get('m').get('n'), {})[w] = r.f[0]
            return r
        for n in sv.placeholders:
            C_[n] = lambda it, m: frozenset(self.phs) if m in (self.model, self.model.get('expanded')) else NotImplemented
        C_['placeholders_of'] = lambda it, m: self.phs
        C_['qubo'] = qubo
        C_['of_expanded'] = lambda it, m: self.model if m == self.model.get('expanded') else ('?', m)
        C_['annealers::solver::SolverGenerator::generate'] = generate
        C_['draw'] = draw
        C_[sv.with_energy] = lambda it, s, m: self.with_energy(s, m)
        C_[sv.with_local_field] = lambda it, s, m: self.with_lf(s, m)
        C_[sv.calculate_energy] = lambda it, s, m: self.energy(s, m)
        C_[sv.calculate_local_field] = lambda it, s, m: self.field(s, m)
        for n in sv.unsat:
            C_[n] = lambda it, m, ans: tuple(c for c in m.get('constraints') if self.violated(c, ans.d))
        for n in sv.satisfied:
            C_[n] = lambda it, c, ans: int(not self.violated(c, ans.d))

    def ans(self, s):
        x = s.get('state').get('state')[0]
        return {q: x >> i & 1 for i, q in enumerate(self.qubits)}

    def labels(self, s):
        a = self.ans(s)
        return tuple(k.get('label').f[0] for k in self.cons if self.violated(k, a) and k.get('label') != NONEV)

    def consistent(self, r):
        """the result against the rounds that were run: 'ok', or what does not fit"""
        bad = min(self.failed, key=lambda x: (x[0], x[1].f[0][1])) if self.failed else (1 << 60, None)
        if r.v == 'Err' and bad[1]:
            return 'ok' if r == bad[1] else f'the solver failed with {bad[1]!r} first, the result is {r!r}'
        if r.v != 'Ok':
            return f'no solver failed, the result is {r!r}'
        e, view, labels = r.f[0]
        s = view.get('0')
        for n, m in self.models.items():
            sols = [self.with_energy(x, m) for w in sorted(self.draws.get(n, {})) for x in self.draws[n][w]]
            if not sols:
                continue
            low = min(x.get('energy').f[0] for x in sols)
            c, _ = self.qubo(self.model, self.qubits, n)
            for x in sols:
                if x.get('energy').f[0] == low and s == self.with_lf(x, m) and e == low + c:
                    if sorted(labels) != sorted(self.labels(x)):
                        return f'labels {labels!r}, the assignment leaves {self.labels(x)!r} unsatisfied'
                    if bad[1] and (labels or n >= bad[0]):
                        continue
                    if len(self.models) < self.iterations * self.generations and labels:
                        return f'stopped after {len(self.models)} rounds with {labels!r} unsatisfied'
                    return 'ok'
        if bad[1]:
            return f'the solver failed with {bad[1]!r} in round {bad[0]}, the result is {r!r}'
        return f'energy {e!r} with {s!r} is not the lowest sample of any round: ' + \
            repr([(n, self.qubo(0, 0, n)[0], [(x.get('state').get('state'), self.energy(x, m)) for y in self.draws.get(n, {}).values() for x in y])
                  for n, m in self.models.items()])[:300]

    def shares(self, ints):
        """the strengths of every round against the points: 'ok', or what does not fit"""
        for p0 in [10] + [x for x in range(1, 60) if x != 10]:
            r = self.shares_(p0, ints)
            if r == 'ok':
                return r
            first = r if p0 == 10 else first
        return first

    def shares_(self, p0, ints):
        n = 0
        last = max(self.strengths)
        for i in range(self.iterations):
            pts = {p: p0 for p in self.phs}
            old = None
            for g in range(self.generations):
                if n > last:
                    return 'ok'
                tot = sum(pts.values())
                want = tuple(F(pts[p] * self.cs, tot) for p in self.phs)
                got = self.strengths.get(n)
                if got is None:
                    return f'round {n} has no strengths'
                for p, a, b in zip(self.phs, got, want):
                    if abs(a - b) >= 1 if ints else a != b:
                        return f'round {n}: strength {a!r} of {p!r}, points {pts!r} of {tot} give {b}'
                m = self.models.get(n)
                sols = [self.with_energy(x, m) for w in sorted(self.draws.get(n, {})) for x in self.draws[n][w]]
                n += 1
                if not sols:
                    continue
                best = min(sols, key=lambda x: x.get('energy').f[0])
                e = best.get('energy').f[0]
                if old is not None and old <= e:
                    continue
                old = e
                a = self.ans(best)
                for k in self.cons:
                    if self.violated(k, a) and k.get('placeholder') != NONEV and k.get('placeholder').f[0] in pts:
                        pts[k.get('placeholder').f[0]] += 1
        return 'ok'


def result(cx, sv, it, w):
    it.steps = 5000000
    w.install(it)
    e = cx.bind(sv.r, w.self_)
    r = it.run(sv.r['ret'], e)
    n = len(w.failed)
    for a in sv.r['st'].asserts:
        try:
            ok = it.truth(a, (e, {}, {}))
        except Undef:
            raise
        except NoVal:
            # a conjunction whose factors are not all defined: the result itself is judged by the law
            continue
        if not ok and not w.failed:
            raise Undef('refused')
    del w.failed[n:]
    return r


def worlds(cx, sv, fail=False, ints=False, nq=None):
    return lambda rng: {'#w': World(cx, sv, rng, fail and rng.random() < .5, ints, nq)}


@prop('C18', 'other', 'value graph of the solving loop against a consistency law; calls modular, draws numbered by an effect counter', 1,
      'solve_with_constraints is summarised with the generation, the draws, the energies and the judgement of constraints modular; the resulting fold is evaluated '
      'for arbitrary behaviours of those calls, and the result it denotes must be the lowest sample of a round, with the energy, offset, local field and unsatisfied labels of that sample.')
def c18(cx):
    def drop():
        f = cx.fn('solve', self_adt='SimpleSolver')
        g = cx.fn('solve_with_constraints', self_adt='SimpleSolver')
        r = cx.run(f, opaque_fns={g['id']})

        def env(rng):
            v = C('Ok', (rng.randrange(9), ('view', rng.randrange(9)), tuple(range(rng.randrange(3))))) if rng.random() < .7 else C('Err', rng.randrange(9))
            return {'#v': v}

        def got(it, e):
            it.calls[g['id']] = lambda it, s: e['#v']
            return it.run(r['ret'], cx.bind(r, R('SimpleSolver', _phantom=(), model=cmodel(M({})), qubits=(), iterations=1, samples=1, generations=1, coeff_strength=1, solver_generator=0)))
        cx.test('solve is solve_with_constraints without the labels', f,
                [('result', got, lambda it, e: C('Ok', e['#v'].f[0][:2]) if e['#v'].v == 'Ok' else e['#v'])], env, trials=20)
    cx.attempt('solve', drop)

    def loop():
        sv = Solve(cx)
        for name, fail in (('the result is the lowest sample of a round, with its energy, offset and unsatisfied labels; early stops only when none is left', False),
                           ('an error of the underlying solver is returned', True)):
            def got(it, e):
                w = e['#w']
                return w.consistent(result(cx, sv, it, w))
            cx.test(name, sv.f, [('consistency', got, lambda it, e: 'ok')], worlds(cx, sv, fail), trials=80, rule='consistency law over all numbered draws')
    cx.attempt('loop', loop)


@prop('C20', 'other', 'value graph of the solving loop against the law of points; calls modular, draws numbered by an effect counter', 1,
      'solve_with_constraints is summarised with its callees modular; the strengths that the loop passes to the generator in every round are compared with the shares '
      'that the points give, for arbitrary outcomes of the samples and arbitrary judgements of the constraints.')
def c20(cx):
    def start():
        # placeholders of a model: the strengths that have to be shared out
        f = cx.fn('get_placeholders', self_adt='CompiledModel')
        P4 = [('param', x) for x in ('Tp', 'Tq', 'Tc', 'R')]

        def env(rng):
            names = [QB(i) for i in range(3)]
            m = gpoly(rng, terms=4, order=2, names=names, co=lambda r: gstatic(r, 2, ph=lambda q: PCO(q.randrange(4))))
            return {'#m': m}

        def want(it, e):
            from props_model import phs_static
            return frozenset().union(*[phs_static(c) for c in e['#m'].d.values()])
        cx.test('the strengths that are shared out are those that occur in the polynomial', f,
                [('placeholders', lambda it, e: frozenset(cx.app(it, f, cmodel(e['#m']))[0]), want)], env, trials=40)
    cx.attempt('placeholders', start)

    def loop():
        sv = Solve(cx)
        for name, ints in (('strengths are the shares of the total by points, and the unsatisfied constraints gain a point', False),
                           ('integer strengths are rounded shares', True)):
            def got(it, e, ints=ints):
                w = e['#w']
                result(cx, sv, it, w)
                return w.shares(ints)
            cx.test(name, sv.f, [('shares', got, lambda it, e: 'ok')], worlds(cx, sv, ints=ints), trials=80, ints=ints, rule='law of points over all numbered draws')
    cx.attempt('loop', loop)
