"""entailment between linear inequalities over whole numbers (exact simplex, no external solver)

A term is read as a linear form over its monomials.  A set of facts `f >= 0` entails `g >= 0` when a non-negative
combination of the facts equals `-(-g - 1) - c` with c >= 0, i.e. when facts and `-g - 1 >= 0` add up to a contradiction.
"""
from fractions import Fraction as F
from terms import *
import terms as TM


def feasible_combination(rows):
    """non-negative weights that make the rows add up to a negative constant; rows: dict monomial -> coefficient, () the constant"""
    mons = sorted({m for r in rows for m in r if m != ()}, key=repr)
    n = len(rows)
    # sum w_k row_k[m] = 0 for all m;  sum w_k row_k[()] = -1;  w >= 0   (phase one of the simplex method)
    A = [[F(r.get(m, 0)) for r in rows] for m in mons] + [[-F(r.get((), 0)) for r in rows]]
    b = [F(0)] * len(mons) + [F(1)]
    m = len(A)
    basis = [n + i for i in range(m)]
    T_ = [A[i] + [F(int(i == j)) for j in range(m)] + [b[i]] for i in range(m)]
    z = [sum(T_[i][j] for i in range(m)) for j in range(n)] + [F(0)] * m + [sum(T_[i][-1] for i in range(m))]
    for _ in range(400):
        if z[-1] == 0:
            return True
        j = next((j for j in range(n) if z[j] > 0), None)
        if j is None:
            return False
        best = None
        for i in range(m):
            if T_[i][j] > 0:
                q = (T_[i][-1] / T_[i][j], basis[i])
                if best is None or q < best[0]:
                    best = (q, i)
        if best is None:
            return False
        i = best[1]
        p = T_[i][j]
        T_[i] = [x / p for x in T_[i]]
        for k in range(m):
            if k != i and T_[k][j]:
                c = T_[k][j]
                T_[k] = [x - c * y for x, y in zip(T_[k], T_[i])]
        c = z[j]
        z = [x - c * y for x, y in zip(z, T_[i])]
        basis[i] = j
    return False


def excl(a):
    """a comparison that holds, with those that then do not"""
    sb = {a: ONE}
    if a.op in ('pos', 'eq'):
        p, n = a.a[0], neg(a.a[0])
        for x in [raw('eq', p), raw('eq', n)] + [raw('pos', y, k) for y in (p, n) for k in 'ir']:
            if x is not a and not (x.op == 'eq' and a.op == 'eq'):
                sb[x] = ZERO
    return sb


def settled(t):
    """truth values that the conditions in a formula have whenever it holds"""
    t = add(t)
    if const_of(t) is not None:
        return {}
    out = {}
    for a in list({at for m, _ in items(t) for at, _ in m if isbool(at)})[:16]:
        if const_of(subst(t, {a: ZERO})) == 0:
            out[a] = True
        elif impossible(subst(t, excl(a))):
            out[a] = False
    return out


def impossible(t):
    c = const_of(t)
    if c is not None:
        return c <= 0
    # 0 - x: never true
    return all(k < 0 for _, k in items(t)) and all(isbool(at) for m, _ in items(t) for at, _ in m)


def known_facts(kn):
    """facts of conditions with known truth values"""
    r = []
    for a, v in kn.items():
        r += lit(a, v)
        if a.op == 'pos' and not v and a.a[1] == 'i' and any(kn.get(raw('eq', p)) is False for p in (a.a[0], neg(a.a[0]))):
            r.append(sub(neg(a.a[0]), ONE))
    return r


def literals(t):
    """facts of a condition that holds: polynomials >= 0; conditions that are not linear are dropped"""
    k = const_of(add(t))
    if k is not None:
        return [] if k != 0 else [num(-1)]
    return known_facts(settled(t))


def lit(at, v):
    if at.op == 'pos' and at.a[1] == 'i':
        p = at.a[0]
        return [sub(p, ONE)] if v else [neg(p)]
    if at.op == 'eq' and v:
        return [at.a[0], neg(at.a[0])]
    return []


ROOTS = {}


def roots(v):
    """vectors that a vector has its length from, one of them"""
    r = ROOTS.get(v)
    if r is None:
        if v.op == 'ite':
            r = roots(v.a[1]) | roots(v.a[2])
        elif v.op in ('upd', 'scat', 'mupd'):
            r = roots(v.a[0])
        elif v.op == 'bottom':
            r = frozenset()
        elif v.op == 'fold':
            # the state of the loop is what its next value refers to
            r = roots(v.a[1][0]) | (roots(v.a[2][0]) - {raw('bs', v.a[-1], 0)})
        else:
            r = frozenset([v])
        ROOTS[v] = r
    return r


class Lin:
    def __init__(self, facts):
        self.facts = [add(f) for f in facts]
        self.sub = {}
        self.seen = set()

    def norm(self, t):
        return subst(t, self.sub) if self.sub else t

    def atoms(self, ts):
        out, st, seen, had = [], list(ts), set(), set()
        while st:
            t = st.pop()
            if not isinstance(t, T) or t in seen:
                continue
            seen.add(t)
            for at in top_atoms(add(t)):
                if at in had:
                    continue
                had.add(at)
                out.append(at)
                if at.op in ('idiv', 'imod', 'umin', 'umax', 'wrap', 'min', 'max'):
                    st.extend(x for x in at.a if isinstance(x, T))
                if at.op == 'card' and at.a[0].op == 'range':
                    st.extend(at.a[0].a)
        return sorted(out, key=lambda x: x.id)

    def about(self, ts, rounds=9):
        """what is known about the operations in the terms"""
        for _ in range(rounds):
            more = False
            self.facts = list(dict.fromkeys(self.facts))
            for at in self.atoms(self.cone(ts)):
                if at in self.seen:
                    continue
                self.seen.add(at)
                more = True
                new = []
                if at.op in ('sym', 'fv') and len(at.a) > 1 and at.a[1] == 'u':
                    new += [at, sub(num(2 ** 64 - 1), at)]
                elif at.op == 'card' and at.a[0].op == 'range':
                    d = sub(at.a[0].a[1], at.a[0].a[0])
                    new += [at, sub(at, d)] + ([sub(d, at)] if self.entails(d, 2) else [])
                elif at.op in ('len', 'card'):
                    new += [at, sub(num(2 ** 63 - 1), at)]
                    e = self.kept(at.a[0]) if at.op == 'len' else None
                    if e is not None:
                        new += [sub(at, e), sub(e, at)]
                elif nonneg(at):
                    new += [at]
                d = TM.DOM.get(at)
                if d is not None and d.op == 'range':
                    new += [sub(at, d.a[0]), sub(sub(d.a[1], at), ONE)]
                if at.op == 'idiv' and const_of(at.a[1]) is not None and const_of(at.a[1]) > 0:
                    k = const_of(at.a[1])
                    new += [sub(at.a[0], scale(at, k)), sub(add(scale(at, k), num(k - 1)), at.a[0])]
                if at.op == 'imod' and const_of(at.a[1]) is not None and const_of(at.a[1]) > 0:
                    k = const_of(at.a[1])
                    q = mk('idiv', at.a[0], at.a[1])
                    e = sub(sub(at.a[0], at), scale(q, k))
                    new += [at, sub(num(k - 1), at), e, neg(e)]
                if at.op == 'wrap':
                    sg, k = TM.WIDTH[at.a[1]]
                    lo, hi = (-2 ** (k - 1), 2 ** (k - 1) - 1) if sg else (0, 2 ** k - 1)
                    x = at.a[0]
                    if self.entails(sub(x, num(lo)), 0) and self.entails(sub(num(hi), x), 0):
                        new += [sub(at, x), sub(x, at)]
                    else:
                        new += [sub(at, num(lo)), sub(num(hi), at)]
                self.facts += new
            if not more:
                return

    def cone(self, ts):
        """the terms with the facts that are connected to them"""
        want, todo, out = set(), list(ts), list(ts)
        pool = [(f, set(self.atoms([f]))) for f in self.facts]
        while todo:
            new = set(self.atoms(todo)) - want
            want |= new
            todo = [f for f, a in pool if a & new]
            pool = [(f, a) for f, a in pool if not a & new]
            out += todo
        return out

    def kept(self, v):
        """the length of a loop's state, when no iteration changes it"""
        s = TM.STATE.get(v)
        if s is None:
            r = roots(v)
            return mk_len(next(iter(r))) if len(r) == 1 and v not in r else None
        init, nxt = s
        if not all(roots(n) <= {v} for n in nxt):
            return None
        r = roots(init)
        return mk_len(next(iter(r))) if len(r) == 1 else None

    def rows(self, fs):
        out = []
        for f in fs:
            r = {}
            for m, c in items(f):
                r[m] = r.get(m, 0) + c
            out.append(r)
        return out

    def conditions(self, t):
        """conditions inside the operations of a term"""
        out, seen = [], set()

        def go(u):
            for at in top_atoms(add(u)):
                if at in seen:
                    continue
                seen.add(at)
                if isbool(at):
                    out.append(at)
                elif at.op in ('idiv', 'imod', 'wrap', 'min', 'max', 'umin', 'umax', 'tof'):
                    for x in at.a:
                        if isinstance(x, T):
                            go(x)
                elif at.op == 'card' and at.a[0].op == 'range':
                    go(at.a[0].a[0])
                    go(at.a[0].a[1])
        go(t)
        return sorted(out, key=lambda x: x.id)

    def unfold(self, g):
        """lengths of loop states replaced by the lengths before the loops"""
        for _ in range(20):
            sb = {}
            for at in self.atoms([g]):
                if at.op == 'len':
                    e = self.kept(at.a[0])
                    if e is not None:
                        sb[at] = e
            if not sb:
                break
            g = subst(g, sb)
        return g

    def entails(self, g, rounds=9, depth=5):
        """facts |= g >= 0, over the whole numbers"""
        g = self.unfold(g)
        b = self.conditions(g)
        if b and depth:
            x = b[0]
            for v in (True, False):
                sb = {x: ONE if v else ZERO}
                L = Lin([subst(f, sb) for f in self.facts] + lit(x, v))
                if x.op == 'eq' and not v:
                    # not zero: positive or negative, when one of them is out
                    p = x.a[0]
                    M_ = Lin(L.facts)
                    M_.about([p], 2)
                    if M_.direct(p):
                        L.facts.append(sub(p, ONE))
                    elif M_.direct(neg(p)):
                        L.facts.append(sub(neg(p), ONE))
                if not L.entails(subst(g, sb), rounds, depth - 1):
                    return False
            return True
        L = Lin(self.facts)
        L.seen = set(self.seen)
        if L.direct(g):
            return True
        for _ in range(rounds):
            n = len(L.facts)
            L.about([g], 1)
            if len(L.facts) == n:
                break
            if L.direct(g):
                return True
        return False

    def direct(self, g):
        neg_g = sub(neg(g), ONE)
        fs, seen = [], set()
        # only what is connected to the goal
        want = {at for m, _ in items(neg_g) for at, _ in m}
        pool = list(dict.fromkeys(self.facts))
        grown = True
        while grown:
            grown = False
            for f in pool:
                if f in seen:
                    continue
                ats = {at for m, _ in items(f) for at, _ in m}
                if not ats or ats & want:
                    seen.add(f)
                    fs.append(f)
                    if not ats <= want:
                        want |= ats
                        grown = True
        rows = fs + [neg_g]
        if feasible_combination(self.rows(rows)):
            return True
        # products of facts, when the goal is not linear
        if any(sum(e for _, e in m) > 1 for f in rows for m, _ in items(f)):
            lin = [f for f in fs if all(sum(e for _, e in m) <= 1 for m, _ in items(f)) and
                   all(abs(c) < 2 ** 32 for _, c in items(f))][:14]
            lin += [neg_g] if all(sum(e for _, e in m) <= 1 for m, _ in items(neg_g)) else []
            extra = [mul(a, b) for i, a in enumerate(lin) for b in lin[i:]]
            return feasible_combination(self.rows(rows + list(dict.fromkeys(extra))))
        return False
