"""Obligations, their discharge, and reporting."""
import contextlib
import ctypes
import json
import os
import random
import sys
import threading
import time
from fractions import Fraction as F

sys.setrecursionlimit(60000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from load import load, ty, tsub, short, tshow, BuildError  # noqa: E402
from terms import *  # noqa: E402
import terms as TM  # noqa: E402
from eval import Ev, St, Fr, BOT as TBOT  # noqa: E402
import interp as I  # noqa: E402
from interp import Opq, Interp, C, R, M, Fn, NoVal, Undef, bindval, SOME, NONE as NONEV, After  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')


LIMIT = float(os.environ.get('RQ_LIMIT', 3000 if TIER == 'thorough' else 700))    # seconds for one property


class Late(BaseException):
    """the time of an obligation family is up"""


class Missing(Exception):
    """an anchor of the property is not in the program"""


class Gen:
    """random values of a type"""

    def __init__(self, prog, rng, nlab=4, depth=3, ints=True):
        self.p, self.r, self.nlab, self.depth, self.ints = prog, rng, nlab, depth, ints
        self.over = {}
        self.pos = False

    def real(self):
        r = self.r
        v = r.choice([-3, -2, -1, 0, 1, 1, 2, 3, 5]) if not self.pos else r.choice([1, 2, 3, 5])
        if not self.ints and r.random() < .3:
            v = F(v) / r.choice([2, 3, 4])
        return v

    def label(self):
        return self.r.randrange(self.nlab)

    def of(self, t, d=None):
        d = self.depth if d is None else d
        r = self.r
        t = self.p.norm(t)
        k = t[0]
        if k == 'ref':
            return self.of(t[2], d)
        if k == 'prim':
            n = t[1]
            if n == 'bool':
                return r.randrange(2)
            if n in ('f64', 'f32'):
                return self.real()
            if n[0] == 'u':
                return r.randrange(0, 6)
            if n[0] == 'i':
                return r.randrange(-5, 6)
            if n == 'str':
                return 's'
        if k == 'param':
            n = t[1]
            if n in self.over:
                return self.over[n](self)
            if n in ('R', 'R1', 'R2'):
                return self.real()
            if n.startswith('F'):
                s = r.randrange(1 << 30)
                return Fn(lambda *a: 1 + I.hsh(s, [I.okey(x) for x in a]) % 5)
            return self.label()
        if k == 'proj':
            return self.real()
        if k == 'tuple':
            return tuple(self.of(x, d) for x in t[1])
        if k == 'slice':
            return tuple(self.of(t[1], d - 1) for _ in range(r.randrange(0, 4)))
        if k == 'array':
            n = int(t[2]) if t[2].isdigit() else 2
            return tuple(self.of(t[1], d - 1) for _ in range(n))
        if k == 'adt':
            n = short(t[1])
            if n in self.over:
                return self.over[n](self)
            if n == 'Box':
                return self.of(t[2][0], d)
            if n in ('Vec', 'VecDeque'):
                return tuple(self.of(t[2][0], d - 1) for _ in range(r.randrange(0, 4) if d > 0 else 0))
            if n in ('BTreeSet', 'HashSet'):
                return frozenset(self.of(t[2][0], d - 1) for _ in range(r.randrange(0, 4)))
            if n in ('HashMap', 'BTreeMap'):
                return M({self.of(t[2][0], d - 1): self.of(t[2][1], d - 1) for _ in range(r.randrange(0, 4))})
            if n == 'Option':
                return SOME(self.of(t[2][0], d)) if r.random() < .7 else NONEV
            if n == 'PhantomData':
                return ()
            if n == 'NonZero':
                return r.randrange(1, 5)
            a = self.p.adts.get(t[1])
            if a:
                sb = self.sb(a, t)
                if a['kind'] == 'Struct':
                    v = R(short(a['id']))
                    for f in a['variants'][0]['f']:
                        v.d[f['n']] = self.of(tsub(ty(f['ty']), sb), d)
                    return v
                vs = a['variants']
                if d <= 0:
                    leaf = [v for v in vs if not any(self.mentions(f['ty'], a['id']) for f in v['f'])]
                    vs = leaf or vs
                v = r.choice(vs)
                return C(f'{short(a["id"])}.{v["n"]}', *[self.of(tsub(ty(f['ty']), sb), d - 1) for f in v['f']])
        raise NoVal('no generator for ' + str(t)[:80])

    def mentions(self, j, aid):
        return aid in json.dumps(j)

    def sb(self, a, t):
        return Ctx.cur.ev0.adt_sb(a, t)


class Ctx:
    cur = None

    def __init__(self, prop, prog=None):
        Ctx.cur = self
        self.prop = prop
        self.t0 = time.time()
        self.p = prog or load()
        self.ev0 = Ev(self.p)
        for vs in TM.VARIANTS.values():
            for i, v in enumerate(vs):
                I.ORDER[v] = i
        I.ORDER.update({'None': 0, 'Some': 1, 'Less': 0, 'Equal': 1, 'Greater': 2})
        self.obs = []
        self.violations = []
        self.ends = []
        self._summ = {}
        self._byc = {}
        self.fns = set()
        self.sites = 0
        self.rules = []
        self.notes = []
        self.assume = []

    # ------------------------------------------------------------ program
    def fn(self, name, **k):
        """the unique function of that name"""
        r = self.p.find(name, **k)
        if not r:
            raise Missing(f'{k.get("self_adt") or k.get("in_trait") or ""}::{name}')
        return r[0]

    def fns_(self, name, **k):
        return self.p.find(name, **k)

    def ev(self, **attrs):
        e = Ev(self.p)
        for k, v in attrs.items():
            setattr(e, k, v)
        return e

    def run(self, f, args=None, sb=None, ev=None, **attrs):
        e, r = self.run_(f, args, sb, ev, attrs)
        self.fns |= {x for x in e.visited}
        r['ev'] = e
        r['unknown'] = e.unknown
        return r

    def run_(self, f, args, sb, ev, attrs):
        e = ev or self.ev(**attrs)
        try:
            return e, e.run(f, args=args, sb=sb)
        except Budget as x:
            # conditions that grow too large: again, with large conditions as atoms
            if ev is not None or 'namebig' in attrs or str(x) != 'poly':
                raise
        e = self.ev(**attrs, namebig=16)
        return e, e.run(f, args=args, sb=sb)

    def summ(self, fid):
        if fid in self._summ:
            return self._summ[fid]
        f = self.p.fns.get(fid)
        r = None
        if f is not None and f['kind'] in ('Fn', 'AssocFn'):
            self._summ[fid] = None
            try:
                e, r = self.run_(f, None, None, None, {})
                self.fns |= e.visited
                if r['ret'].op == 'bottom' and r['dead']:
                    r = None
            except (Unsupported, Budget):
                r = None
        self._summ[fid] = r
        return r

    # ---- functions by recursion over an enum: one summary per constructor of the first argument
    def recursive(self, f):
        """does the function (or a callee of its own type) call itself"""
        if not hasattr(self, '_rec'):
            self._rec = {}
        r = self._rec.get(f['id'])
        if r is None:
            self._rec[f['id']] = False
            r = False
            me = '"fn": ' + json.dumps(f['id'])
            r = any(me in json.dumps(g.get('body')) for g in self.p.fns.values()
                    if g['id'] == f['id'] or g['id'].startswith(f['id'] + '::'))
            self._rec[f['id']] = r
        return r

    def ctor_term(self, v):
        """symbolic constructor of the shape of v"""
        adt, k = v.v.split('.')
        return raw('ctor', adt, v.v, *[raw('sym', f'{k}#{i}', 'r' if isinstance(x, (int, F)) and k == 'Number' else '')
                                       for i, x in enumerate(v.f)])

    def by_ctor(self, f, v):
        """summary of f for the constructor of v, or None"""
        if not isinstance(v, C) or '.' not in v.v or not f['params'] or v.v.split('.')[0] not in ('Expr', 'StaticExpr'):
            return None
        if not self.recursive(f):
            return None
        k = (f['id'], v.v)
        if k not in self._byc:
            self._byc[k] = None
            try:
                r = self.run(f, [self.ctor_term(v)], opaque_fns={f['id']})
                if not (r['ret'].op == 'bottom' and r['dead']):
                    self._byc[k] = r
            except (Unsupported, Budget):
                pass
        return self._byc[k]

    def interp(self, seed=0, calls=None, ints=False):
        it = Interp(self.summ, calls, seed, ints)
        it.spec = lambda fid, args: self.by_ctor(self.p.fns[fid], args[0]) if args and fid in self.p.fns else None
        it.walker = self.elems_of
        return it

    def elems_of(self, it, v):
        """items of a value of an iterator type of the program"""
        try:
            f = self.ti('Iterator', 'next', self_adt=v.t)
        except Missing:
            raise NoVal(f'elements of {v!r}'[:60])
        return self.walk(it, f, v, sb={g: ('array', ('prim', 'usize'), '2') for g in f['generics']})

    # ------------------------------------------------------------ types and concrete runs
    def adt_id(self, n):
        a = self.p.adt(n)
        if a is None:
            raise Missing('type ' + n)
        return a['id']

    def ty(self, n, *args):
        return ('adt', self.adt_id(n), args)

    def ti(self, trait, name, self_k=None, self_adt=None, crate=None):
        """method `name` of an impl of `trait` (for a type parameter, or a named type)"""
        for f in self.p.fns.values():
            if f['name'] == name and f['kind'] == 'AssocFn' and short(f.get('trait') or '') == trait:
                if crate and f['crate'] != crate:
                    continue
                s = f.get('self_ty') or {}
                if self_k and s.get('k') != self_k:
                    continue
                if self_adt and short(s.get('n') or '') != self_adt:
                    continue
                return f
        raise Missing(f'{trait}::{name} for {self_adt or self_k}')

    _runs = None

    def R(self, f, sb=None):
        """cached symbolic run"""
        if self._runs is None:
            self._runs = {}
        k = (f['id'], tuple(sorted((sb or {}).items())))
        if k not in self._runs:
            self._runs[k] = self.run(f, sb=sb)
        return self._runs[k]

    def app(self, it, f, *vals, sb=None):
        """(result, arguments afterwards) of a summarised function on given values"""
        r = (self.by_ctor(f, vals[0]) if vals and not sb else None) or self.R(f, sb)
        env = self.bind(r, *vals)
        c = (env, {}, {})
        for a in r['st'].asserts:
            if not it.truth(a, c):
                raise Undef('refused')
        ret = it.ev(r['ret'], c)
        return ret, [it.ev(x, c) if x is not r['args'][i] else vals[i] for i, x in r['after'].items()]

    def walk(self, it, nextf, cur, sb=None, limit=200):
        """all the items of an iterator value"""
        out = []
        for _ in range(limit):
            x, (cur,) = self.app(it, nextf, cur, sb=sb)
            if x == NONEV:
                return tuple(out)
            out.append(x.f[0])
        raise NoVal('iteration does not end')

    def bind(self, r, *vals):
        e = {}
        for a, v in zip(r['args'].values(), vals):
            bindval(a, v, e)
        return e

    def induct(self, t, obs):
        """observation of a value that holds one loop result: proved by induction over the loop.

        obs(F) for F = fold(dom, init, step) becomes an ite over the domain when
        obs(step(S, x)) = ite(c(x), w(x), obs(S)) with c(x) true for one x only."""
        fs = []

        def find(u, seen):
            if not isinstance(u, T):
                if isinstance(u, tuple):
                    for y in u:
                        find(y, seen)
                return
            if u in seen:
                return
            seen.add(u)
            if u.op == 'fold':
                fs.append(u)
                return
            if u.op == 'poly':
                for m, _ in u.a[0]:
                    for at, _e in m:
                        find(at, seen)
                return
            for y in u.a:
                find(y, seen)
        find(t, set())
        if len(fs) != 1 or len(fs[0].a[1]) != 1:
            return obs(t)
        dom, x, (s,), ini, nx = open_(fs[0])
        base = obs(subst(t, {fs[0]: s}))
        step = obs(subst(t, {fs[0]: nx[0]}))
        # step = ite(c, w, base) as polynomials: step = base + c*(w-base), c = [x == e]
        init = obs(subst(t, {fs[0]: ini[0]}))
        for at in top_atoms(add(step)):
            if at.op != 'eq':
                continue
            r = TM.solve_eq(at.a[0])
            on = TM.poly_subst_top(add(step), {at: ONE})
            off = TM.poly_subst_top(add(step), {at: ZERO})
            if off is not add(base) or s.id in on.fvs:
                continue
            e = None
            for v, d in ((r,) if r else ()):
                if v is x:
                    e = d
            if e is None:
                p = at.a[0]
                lin = TM.lin_in(p, x)
                if lin is None or abs(lin[0]) != 1:
                    continue
                e = scale(lin[1], -1 / lin[0])
            return ite(TM.in_dom(dom, e), subst(on, {x: e}), init)
        return obs(t)

    def where(self, f):
        return f'{f["sp"].rsplit(":", 1)[0]} {f["id"]}' if f else ''

    # ------------------------------------------------------------ obligations
    def ob(self, name, f, verdict, detail='', rule=''):
        """record the outcome of one obligation"""
        self.obs.append(dict(name=name, fn=f['id'] if f else '', verdict=verdict, rule=rule, detail=detail[:400]))
        if os.environ.get('RQ_V'):
            print(f'  [{verdict}] {name} {detail[:300]}')
        if os.environ.get('RQ_LOG'):
            with open(os.environ['RQ_LOG'], 'a') as fh:
                fh.write(json.dumps([self.obs[-1], self.where(f) if f else '', detail, len(self.fns), self.sites], default=str) + '\n')
        if verdict == 'refuted':
            self.violations.append(dict(name=name, where=self.where(f) if f else '', detail=detail, rule=rule))

    def eq(self, name, f, lhs, rhs, env=None, guard=None, calls=None, trials=60, ints=False, rule='value-graph equality',
           close=False):
        """two value graphs denote the same value for every valuation (of `env`)"""
        if lhs is rhs:
            return self.ob(name, f, 'proved', rule=rule)
        if guard is not None and guard.op != 'tuple':
            try:
                if TM.scalar(lhs) or TM.scalar(rhs):
                    if const_of(mul(guard, sub(lhs, rhs))) == 0:
                        return self.ob(name, f, 'proved', rule=rule)
            except Exception:
                pass
        if env is None:
            return self.ob(name, f, 'open', f'{show(lhs)[:180]} =?= {show(rhs)[:180]}', rule=rule)
        return self.test(name, f, [('value', lhs, rhs)], env, guard, calls, trials, ints, rule, close)

    def test(self, name, f, pairs, env, guard=None, calls=None, trials=60, ints=False, rule='', close=False):
        """identity testing of pairs of graphs; a separating valuation refutes"""
        if TIER == 'thorough':
            trials *= 5
        I.SEEN.clear()
        I.Interp.lowered = {}
        v, detail = self.trials(name, pairs, env, guard, calls, trials, ints, close)
        if v == 'identical':
            # a comparison with a constant that no valuation reached: what holds below the constant has to hold
            # whatever the constant is, so the constant is moved into the range that was seen
            seen = {t: xs for t, xs in I.SEEN.items() if len({x == 0 if t.op == 'eq' else x > 0 for x in xs}) == 1 and
                    not (t.op in ('idiv', 'imod') and xs[0] > 0)}
            for t, xs in sorted(seen.items(), key=lambda kv: repr(kv[0]))[:6]:
                xs = sorted(set(xs))
                mid = xs[len(xs) // 2] if t.op == 'eq' or xs[1:] else xs[0] - (xs[0] <= 0)
                if t.op in ('min', 'max'):
                    c = const_of(t.a[I.LIMITS[t] - 1])
                else:
                    c = dict(t.a[0].a[0])[()] if t.op in ('pos', 'eq') else const_of(t.a[1])
                sg = 1 if t.op in ('pos', 'eq') else -1
                mid = int(mid)
                I.Interp.lowered = {c: c - sg * mid, -c: sg * mid - c}
                try:
                    w, d = self.trials(name, pairs, env, guard, calls, trials, ints, close, total=False)
                except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError):
                    w = d = None
                finally:
                    I.Interp.lowered = {}
                if w == 'refuted':
                    v, detail = w, f'beyond the limit in {show(t)[:160]}: ' + d
                    break
        return self.ob(name, f, v, detail, rule=rule)

    def trials(self, name, pairs, env, guard, calls, trials, ints, close, total=True):
        good = 0
        why = {}
        for k in range(trials):
            rng = random.Random(f'{SEED}/{name}/{k}')
            try:
                e = env(rng)
            except NoVal as x:
                why[str(x)[:60]] = why.get(str(x)[:60], 0) + 1
                continue
            if e is None:
                continue
            it = self.interp(k, calls, ints)
            if isinstance(e, tuple):
                e, it.calls = e[0], {**(calls or {}), **e[1]}
            try:
                if guard is not None and not it.truth(guard, (e, {}, {})):
                    continue
                for lab, a, b in pairs:
                    bv = b(it, e) if callable(b) else it.run(b, e)
                    try:
                        av = a(it, e) if callable(a) else it.run(a, e)
                    except Undef as x:
                        if str(x) not in ('refused', 'index out of range'):
                            raise
                        if not total:
                            raise NoVal('panic')
                        return ('refuted', f'{lab}: the code panics ({x}), the property requires '
                                       f'{bv!r}, under ' + ', '.join(f'{n} = {v!r}' for n, v in list(e.items())[:8]))
                    if not same(av, bv, close):
                        d = f'{lab}: the code computes {av!r}, the property requires {bv!r}, under ' + \
                            ', '.join(f'{n} = {v!r}' for n, v in list(e.items())[:8])
                        return 'refuted', d
                good += 1
            except NoVal as x:
                why[str(x)[:60]] = why.get(str(x)[:60], 0) + 1
            except RecursionError:
                why['recursion'] = why.get('recursion', 0) + 1
        if good >= max(5, trials // 10):
            return 'identical', f'indistinguishable under {good} valuations'
        return 'open', f'{good} valuations; {why}'

    def eqt(self, name, f, terms, pairs, env, rule='value-graph equality', **k):
        """equality of graphs; identity testing of the given pairs when the normal forms differ"""
        try:
            if all(a is b for a, b in (terms() if callable(terms) else terms)):
                return self.ob(name, f, 'proved', rule=rule)
        except (Unsupported, Budget, AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
            if os.environ.get('RQ_V'):
                print('   (no term proof:', repr(x)[:100], ')')
        return self.test(name, f, pairs, env, rule=rule, **k)

    def must(self, name, f, cond, detail='', rule=''):
        """a structural fact read off the program"""
        self.ob(name, f, 'proved' if cond else 'refuted', detail if not cond else '', rule=rule)

    def attempt(self, name, thunk):
        """run one family of obligations; what the analysis cannot handle stays open"""
        self.depth = getattr(self, 'depth', 0) + 1
        try:
            with self.clock():
                thunk()
        except Late:
            if self.depth == 1:
                self.ends = []
            self.ob(name, None, 'open', 'out of time')
        except Missing as x:
            self.ob(name, None, 'open', f'anchor not found: {x}')
        except (Unsupported, Budget, NoVal) as x:
            self.ob(name, None, 'open', f'{type(x).__name__}: {x}')
        except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, RecursionError, MemoryError) as x:
            import traceback
            if os.environ.get('RQ_V'):
                traceback.print_exc()
            self.ob(name, None, 'open', f'{type(x).__name__}: {x}')
        finally:
            self.depth -= 1

    @contextlib.contextmanager
    def clock(self):
        """the time limit of a family of obligations (the whole property: LIMIT)"""
        left = LIMIT - (time.time() - self.t0)
        if self.depth > 1:
            left = min(left, LIMIT * .3)
        if left <= 0:
            raise Late()

        n = len(self.ends)
        self.ends.append(time.time() + left)
        if not n:
            threading.Thread(target=self.watch, args=(threading.get_ident(),), daemon=True).start()
        try:
            yield
        finally:
            del self.ends[n:]

    def watch(self, tid):
        """interrupt the analysis, again and again, as long as a time limit is overrun"""
        while self.ends:
            time.sleep(.5)
            if any(time.time() > x for x in list(self.ends)):
                setexc(tid, ctypes.py_object(Late))
                time.sleep(2)


def setexc(tid, x):
    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), x)


def Opq_(rng):
    return Opq(rng.randrange(1 << 60))


def same(a, b, close=False):
    if isinstance(a, (int, F, float)) and isinstance(b, (int, F, float)):
        if isinstance(a, float) or isinstance(b, float):
            if a != a or b != b:
                return a != a and b != b
            return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
        return a == b
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, I.Opq) and isinstance(b, (int, F, float)) or isinstance(b, I.Opq) and isinstance(a, (int, F, float)):
        if a is I.BOT or b is I.BOT:
            return False
        n = lambda v: F(v.h % 9 - 4) if isinstance(v, I.Opq) else v
        return n(a) == n(b)
    if isinstance(a, C) and isinstance(b, C):
        return a.v == b.v and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, R) and isinstance(b, R):
        return a.t == b.t and set(a.d) == set(b.d) and all(same(a.d[k], b.d[k]) for k in a.d)
    return a == b


def finish(cx, level, explanation, technique):
    """evidence file, report lines and exit status"""
    n = {v: sum(o['verdict'] == v for o in cx.obs) for v in ('proved', 'identical', 'open', 'refuted', 'known')}
    known = load_known(cx.prop)
    viol = []
    for v in cx.violations:
        k = next((q for q in known if q['obligation'] == v['name']), None)
        if k is not None:
            print(f'KNOWN-FINDING: property={cx.prop} {k["what"]}')
        else:
            viol.append(v)
    ev = dict(property=cx.prop, tier=TIER, seed=SEED, level=level,
              coverage=dict(explanation=explanation, obligations=len(cx.obs), discharged=n['proved'],
                            confirmed_by_identity_testing=n['identical'], undecided=n['open'],
                            functions_analysed=sorted(cx.fns), functions=len(cx.fns), sites=cx.sites,
                            details=cx.obs),
              wall_s=round(time.time() - cx.t0, 2), violations=len(viol), assumptions=cx.assume)
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, cx.prop + '.json')
    with open(path, 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write('\n')
    print(f'{cx.prop}: {len(cx.obs)} obligations, {n["proved"]} discharged, {n["identical"]} confirmed by identity '
          f'testing, {n["open"]} undecided, {len(cx.fns)} functions, {ev["wall_s"]} s')
    for o in cx.obs:
        if o['verdict'] == 'open':
            print(f'  undecided: {o["name"]}: {o["detail"][:160]}')
    if viol:
        rp = os.path.join(d, cx.prop + '.violation.txt')
        with open(rp, 'w') as fh:
            for v in viol:
                fh.write(f'{v["name"]}\n  at {v["where"]}\n  rule: {v["rule"]}\n  {v["detail"]}\n\n')
        for v in viol:
            print(f'  violated: {v["name"]} at {v["where"]}: {v["detail"][:300]}')
        print(f'VIOLATION property={cx.prop} replay={rp}')
        return 1
    return 0


def load_known(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    try:
        with open(path) as fh:
            return [k for k in json.load(fh)['findings'] if k['property'] == prop]
    except FileNotFoundError:
        return []
