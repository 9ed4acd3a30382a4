"""Value-graph construction: a structured dataflow analysis over the typed IR.

Every function body is abstracted once, joining at every merge point (gated
values, no path enumeration), and every loop is summarised from one abstract
iteration (sums, products, comprehensions, scatter updates, or a generic fold).
Nothing is executed and nothing is handed to a solver.
"""
import re
from terms import *
import terms as TM
from load import ty, tsub, short, tshow, CRATES

INF = raw('sym', 'inf', 'u')
BOT = raw('bottom')
UINT = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
SINT = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
FLT = {'f32', 'f64'}

STDNAME = {'std::option::Option': 'Option', 'std::result::Result': 'Result', 'std::cmp::Ordering': 'Ordering',
           'std::ops::ControlFlow': 'ControlFlow', 'core::option::Option': 'Option'}
TM.VARIANTS['Ordering'] = ('Less', 'Equal', 'Greater')
TM.AGG |= {'seq', 'bottom', 'post'}

_gen = re.compile(r'<[^<>]*>')


def strip(s):
    """path without generic arguments; `<A as B>::c` keeps its trait"""
    if s.startswith('<'):
        return s
    p = None
    s = s.replace('->', '')
    while p != s:
        p = s
        s = _gen.sub('', s)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s


class St:
    __slots__ = ('store', 'pc', 'dead', 'asserts')

    def __init__(self, store, pc=ONE, dead=None, asserts=()):
        self.store, self.pc, self.dead, self.asserts = store, pc, dead, asserts

    def copy(self):
        return St(dict(self.store), self.pc, self.dead, self.asserts)

    def become(self, o):
        self.store, self.pc, self.dead, self.asserts = o.store, o.pc, o.dead, o.asserts


class Fr:
    def __init__(self, f, sb, base, parent=None):
        self.f, self.sb, self.base, self.parent = f, sb, base, parent
        self.env, self.rets, self.loops = {}, [], []

    def lookup(self, v):
        fr = self
        while fr is not None:
            if v in fr.env:
                return fr.env[v]
            fr = fr.parent
        return None


class Out:
    """an early exit: where it leaves the enclosing structure, with what"""
    __slots__ = ('stack', 'pc', 'store', 'val', 'asserts')

    def __init__(self, stack, pc, store, val, asserts=()):
        self.stack, self.pc, self.store, self.val, self.asserts = stack, pc, store, val, asserts

    def cond(self, base):
        return muls(self.pc, *self.stack[base:])


class Loop:
    def __init__(self, lbl, base):
        self.lbl, self.base, self.breaks, self.conts = lbl, base, [], []


class Ev:
    MAXDEPTH = 48

    def __init__(self, prog):
        self.p = prog
        self.ncell = 0
        self.stack = []
        self.active = []
        self.hooks = {}          # function id -> contract
        self.world = False       # a counter of the draws made from outside
        self.namebig = None      # conditions of more terms than this become atoms
        self.fnstate = False     # function values of unknown origin have a state
        self.opaque_fns = set()  # never inlined
        self.inline_default = set()  # trait methods whose default body stands for the generic case
        self.events = []         # unsafe operations, panics, indexing
        self.closures = {}
        self.vcs = []            # conditions of unchecked operations
        self.okcs = []
        self.unknown = []        # constructs the analysis has no model for
        self.ncall = 0
        self.visited = set()
        self.budget = 400000
        for a in prog.adts.values():
            if a['kind'] == 'Enum':
                n = short(a['id'])
                TM.VARIANTS[n] = tuple(f'{n}.{v["n"]}' for v in a['variants'])

    # ------------------------------------------------------------ helpers
    def unk(self, what, sp=''):
        self.unknown.append((what, sp))

    def newcell(self, st, v):
        self.ncell += 1
        st.store[self.ncell] = v
        return self.ncell

    def qual(self, adt, v):
        if adt in STDNAME or not any(adt.startswith(c + '::') for c in CRATES):
            return v
        return f'{short(adt)}.{v}'

    def aname(self, adt):
        return STDNAME.get(adt, short(adt))

    def nt(self, j, fr):
        return self.p.norm(tsub(ty(j), fr.sb))

    def kind(self, t):
        """u/i/r/b for scalars, else a container class"""
        k = t[0]
        if k == 'prim':
            n = t[1]
            return 'u' if n in UINT else 'i' if n in SINT else 'r' if n in FLT else 'b' if n == 'bool' else 'o'
        if k == 'ref':
            return self.kind(t[2])
        if k == 'param':
            return 'r' if t[1] in ('R', 'R1', 'R2') else 'o'
        if k == 'proj':
            return 'r' if short(t[1]) == 'RealType' else 'o'
        if k == 'adt':
            n = short(t[1])
            if n == 'Box':
                return self.kind(t[2][0])
            if n in ('Vec', 'VecDeque'):
                return 'vec'
            if n in ('BTreeSet', 'HashSet'):
                return 'set'
            if n in ('HashMap', 'BTreeMap'):
                return 'map'
            if n == 'Option':
                return 'opt'
            if n == 'Result':
                return 'res'
            if n == 'NonZero':
                return 'u'
            return 'adt'
        if k in ('slice', 'array'):
            return 'vec'
        return 'o'

    def generic_real(self, t):
        while t[0] == 'ref':
            t = t[2]
        return t[0] in ('param', 'proj') and self.kind(t) == 'r'

    def symval(self, name, t, st):
        t = self.p.norm(t)
        k = t[0]
        if k == 'ref':
            if t[1]:
                return raw('ref', self.newcell(st, self.symval(name, t[2], st)), ())
            return self.symval(name, t[2], st)
        if k == 'tuple':
            return tup(*[self.symval(f'{name}.{i}', x, st) for i, x in enumerate(t[1])])
        kd = self.kind(t)
        if kd == 'b':
            return raw('b', raw('sym', name, ''))
        if kd in ('u', 'i', 'r'):
            return raw('sym', name, kd)
        if k == 'array' and t[2].isdigit() and int(t[2]) <= 8:
            return raw('array', tuple(self.symval(f'{name}[{i}]', t[1], st) for i in range(int(t[2]))))
        if k == 'adt':
            if short(t[1]) == 'Box':
                return self.symval(name, t[2][0], st)
            if short(t[1]) == 'PhantomData':
                return UNIT
            a = self.p.adts.get(t[1])
            if a and a['kind'] == 'Struct' and not getattr(self, 'opaque_adts', set()) & {short(t[1])}:
                sb = self.adt_sb(a, t)
                fs = a['variants'][0]['f']
                return mk('rec', short(t[1]), tuple(f['n'] for f in fs),
                          tuple(self.symval(f'{name}.{f["n"]}', tsub(ty(f['ty']), sb), st) for f in fs))
        return raw('sym', name, '')

    def adt_sb(self, a, t):
        """generic names of a type, recovered from its own impls"""
        g = a.get('generics')
        if g is None:
            names = []

            def w(x):
                if isinstance(x, tuple):
                    if x and x[0] == 'param' and x[1] not in names:
                        names.append(x[1])
                    for y in x:
                        w(y)
            for i in self.p.impls:
                if i['_self'][0] == 'adt' and i['_self'][1] == a['id'] and \
                        all(x[0] == 'param' for x in i['_self'][2]):
                    g = [x[1] for x in i['_self'][2]]
                    # the parameters of the impl need not be named like the type's own
                    own = []
                    for f in a['variants'][0]['f']:
                        w(ty(f['ty']))
                    if set(names) <= set(g):
                        break
            if g is None or not set(names) <= set(g):
                g = None
            a['generics'] = g or []
            g = a['generics']
        return dict(zip(g, t[2])) if len(g) == len(t[2]) else {}

    def coerce(self, v, t):
        if v.op == 'ite':
            k = self.kind(t)
            if k == 'b':
                return tobool(v)
            if k in ('u', 'i', 'r') and t[0] != 'ref':
                return add(v)
        return v

    # ------------------------------------------------------------ places
    def get_path(self, v, path):
        for i, p in enumerate(path):
            if v.op == 'ite' and any(x.op in ('ref', 'ctor', 'rec', 'tuple') for x in v.a[1:]):
                return ite(v.a[0], self.get_path(v.a[1], path[i:]), self.get_path(v.a[2], path[i:]))
            if p[0] == 'f':
                v = mk_field(v, p[1])
            elif p[0] == 'i':
                v = mk_idx(v, p[1])
            elif p[0] == 'v':
                v = mk_vf(v, p[1], p[2])
            elif p[0] == 'k':
                v = mk('mget', v, p[1])
            elif p[0] == 'r':
                x = fresh('u')
                v = mk_vec(seq_for(TM.rng(p[1], p[2]), x, seq([one(ONE, mk_idx(v, x))])))
        return v

    def set_path(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if v.op == 'ite':
            return ite(v.a[0], self.set_path(v.a[1], path, new), self.set_path(v.a[2], path, new))
        old = self.get_path(v, path[:1])
        n = self.set_path(old, path[1:], new)
        if p[0] == 'f':
            if v.op == 'rec':
                return mk('rec', v.a[0], v.a[1], tuple(n if k == p[1] else x for k, x in zip(v.a[1], v.a[2])))
            if v.op == 'tuple':
                l = list(v.a)
                l[int(p[1])] = n
                return raw('tuple', *l)
            return raw('fupd', v, p[1], n)
        if p[0] == 'i':
            if v.op == 'array' and const_of(p[1]) is not None:
                return mk_upd(v, p[1], n)
            if TM.scalar(n) and not TM.isbool(n):
                d = sub(n, old)
                if old not in atoms_of(d) and not any(o in atoms_of(d) for o in top_atoms(old)):
                    return mk_scat(v, seq([one(ONE, tup(p[1], d))]))
            return mk_upd(v, p[1], n)
        if p[0] == 'v':
            if v.op == 'ctor' and v.a[1] == p[1]:
                l = list(v.a)
                l[2 + p[2]] = n
                return raw('ctor', *l)
            return raw('vupd', v, p[1], p[2], n)
        if p[0] == 'k':
            return mk('minsert', v, p[1], n)
        if p[0] == 'r':
            x = fresh('u')
            part = lambda a, b: seq_for(TM.rng(a, b), x, seq([one(ONE, mk_idx(v, x))]))
            return mk_vec(seq_cat(part(ZERO, p[1]), vec_seq(n), part(p[2], mk_len(v))))
        raise Unsupported(str(p))

    def read(self, pl, st):
        k = pl[0]
        if k == 'val':
            return pl[1]
        if k == 'ite':
            return ite(pl[1], self.read(pl[2], st), self.read(pl[3], st))
        return self.get_path(st.store[pl[1]], pl[2])

    def write(self, pl, v, st):
        k = pl[0]
        if k == 'cell':
            st.store[pl[1]] = self.set_path(st.store[pl[1]], pl[2], v)
        elif k == 'ite':
            for g, q in ((pl[1], pl[2]), (not_(pl[1]), pl[3])):
                if q[0] != 'val':
                    self.write(q, ite(g, v, self.read(q, st)), st)
        else:
            self.unk('write through a value')

    def ext(self, pl, step):
        if pl[0] == 'cell':
            return ('cell', pl[1], pl[2] + (step,))
        if pl[0] == 'ite':
            return ('ite', pl[1], self.ext(pl[2], step), self.ext(pl[3], step))
        return ('val', self.get_path(pl[1], (step,)))

    def refplace(self, v):
        """the place a value designates when dereferenced"""
        if v.op == 'ref':
            return ('cell', v.a[0], v.a[1])
        if v.op == 'ite' and self.hasref(v):
            return ('ite', v.a[0], self.refplace(v.a[1]) or ('val', v.a[1]), self.refplace(v.a[2]) or ('val', v.a[2]))
        return None

    def target(self, v, st):
        """the place behind a chain of references"""
        pl = self.refplace(v)
        while pl and pl[0] == 'cell':
            x = self.read(pl, st)
            if x.op != 'ref':
                break
            pl = self.refplace(x)
        return pl

    def hasref(self, v):
        return v.op == 'ref' or (v.op == 'ite' and (self.hasref(v.a[1]) or self.hasref(v.a[2])))

    def place(self, e, st, fr):
        k = e['k']
        if k == 'var':
            c = fr.lookup(e['v'])
            if c is None:
                self.unk('unbound ' + e.get('n', ''), e.get('sp', ''))
                return ('val', raw('sym', 'unbound.' + e['v'], ''))
            return ('cell', c, ())
        if k == 'field':
            pl = self.place(e['e'], st, fr)
            n = e.get('n')
            if n is None:
                n = str(e['i'])
            if pl[0] == 'cell':
                v = self.read(pl, st)
                r = self.refplace(v)
                if r:
                    pl = r
            return self.ext(pl, ('f', n))
        if k == 'deref':
            pl = self.place(e['e'], st, fr)
            v = self.read(pl, st)
            return self.refplace(v) or pl
        if k == 'index':
            pl = self.place(e['e'], st, fr)
            r = self.refplace(self.read(pl, st))
            if r:
                pl = r
            i = self.ev(e['i'], st, fr)
            self.event('index', e, st, v=self.read(pl, st), i=i)
            if self.uchk and i.op != 'rec':
                v = self.read(pl, st)
                st.asserts = st.asserts + (tobool(lt(i, mk_len(v), True)),)
            return self.ext(pl, ('i', i))
        return ('val', self.ev(e, st, fr))

    def val(self, v, st):
        """follow references to the current value"""
        n = 0
        while n < 8:
            r = self.refplace(v)
            if not r:
                return v
            v = self.read(r, st)
            n += 1
        return v

    def event(self, kind, e, st, **kw):
        self.events.append(dict(kind=kind, sp=e.get('sp', ''), fn=self.active[-1] if self.active else '',
                                stack=tuple(self.stack), pc=st.pc, asserts=st.asserts, **kw))

    # ------------------------------------------------------------ branching
    def branch(self, c, st, thenf, elsef):
        k = const_of(c)
        if k is not None:
            return thenf(st) if k else elsef(st)
        c = self.nm(c)
        a, b = st.copy(), st.copy()
        base = st.pc
        a.pc = b.pc = ONE
        self.stack.append(mul(base, c))
        va = thenf(a)
        self.stack.pop()
        self.stack.append(mul(base, not_(c)))
        vb = elsef(b)
        self.stack.pop()
        return self.merge(c, a, va, b, vb, st, base)

    def nm(self, t):
        if self.namebig is not None and t.op in ('poly', 'ite') and len(TM.items(t)) > self.namebig:
            return raw('nb', t)
        return t

    def merge(self, c, a, va, b, vb, st, base):
        if a.dead and b.dead:
            st.store = dict(a.store)
            st.dead = 'panic' if a.dead == b.dead == 'panic' else 'jump'
            if a.dead != b.dead:
                self.lost += 1
            st.pc = ZERO
            return BOT
        if a.dead or b.dead:
            g, o, vo, d = (not_(c), b, vb, a) if a.dead else (c, a, va, b)
            st.store = o.store
            if d.dead == 'panic':
                st.pc = mul(base, o.pc)
                st.asserts = o.asserts + (g,)
            else:
                st.pc = mul(base, mul(g, o.pc))
                st.asserts = o.asserts
            return vo
        store = {}
        for k, x in a.store.items():
            y = b.store.get(k)
            store[k] = x if y is None or y is x else self.join(c, x, y)
        for k, y in b.store.items():
            if k not in store:
                store[k] = y
        st.store = store
        st.pc = self.nm(mul(base, add(mul(c, a.pc), mul(not_(c), b.pc))))
        n = 0
        while n < len(a.asserts) and n < len(b.asserts) and a.asserts[n] is b.asserts[n]:
            n += 1
        st.asserts = a.asserts[:n] + tuple(self.nm(or_(not_(c), self.nm(x))) for x in a.asserts[n:]) + \
            tuple(self.nm(or_(c, self.nm(x))) for x in b.asserts[n:])
        return self.join(c, va, vb)

    def join(self, c, x, y):
        if x.op == 'bottom':
            return y
        if y.op == 'bottom':
            return x
        return ite(c, x, y)

    def outcome(self, st, val):
        return Out(tuple(self.stack), st.pc, dict(st.store), val, st.asserts)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        if e is None:
            return UNIT
        if st.dead:
            return BOT
        self.budget -= 1
        if self.budget < 0:
            raise Budget('evaluation')
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            self.unk(e['k'] + ' ' + str(e.get('d', '')), e.get('sp', ''))
            return raw('unk', e.get('sp', ''))
        v = m(e, st, fr)
        if v.op == 'ite' and 'ty' in e:
            v = self.coerce(v, self.nt(e['ty'], fr))
        return v

    def e_block(self, e, st, fr):
        lbl = e.get('lbl')
        if lbl:
            L = Loop(lbl, len(self.stack))
            fr.loops.append(L)
            self.stack.append(ONE)
            b0 = len(self.stack) - 1
            pc0 = st.pc
            st.pc = ONE
        v = UNIT
        for s in e['stmts']:
            if st.dead:
                break
            if s['k'] == 'expr':
                self.ev(s['e'], st, fr)
            else:
                self.let(s, st, fr)
        v = BOT if st.dead else (self.ev(e['e'], st, fr) if e.get('e') else UNIT)
        if lbl:
            self.stack.pop()
            fr.loops.pop()
            if L.breaks:
                s2 = st.copy()
                val = self.join_outs(L.breaks, b0, s2, v)
                st.become(s2)
                v = val
            st.pc = mul(pc0, st.pc)
        return v

    def join_outs(self, outs, base, st, v):
        """merge exits (mutually exclusive) with the fall-through state"""
        if st.dead == 'panic' or st.dead == 'jump':
            acc_store, acc_v, pcs = None, BOT, ZERO
            ways = []
        else:
            acc_store, acc_v, pcs = st.store, v, st.pc
            ways = [(st.pc, st.asserts)]
        ways += [(o.cond(base), o.asserts) for o in outs]
        if any(a is not ways[0][1] for _, a in ways):
            # what is asserted on one way holds if that way is taken
            n, first = 0, ways[0][1]
            while all(n < len(a) and a[n] is first[n] for _, a in ways):
                n += 1
            st.asserts = first[:n] + tuple(self.nm(or_(not_(c), self.nm(x))) for c, a in ways for x in a[n:])
        elif ways:
            st.asserts = ways[0][1]
        for o in reversed(outs):
            c = o.cond(base)
            if acc_store is None:
                acc_store, acc_v = dict(o.store), o.val
                pcs = add(pcs, c)
                continue
            ns = dict(acc_store)
            for k, x in o.store.items():
                y = acc_store.get(k)
                ns[k] = x if y is None or y is x else self.join(c, x, y)
            acc_store = ns
            acc_v = self.join(c, o.val, acc_v)
            pcs = add(pcs, c)
        if acc_store is None:
            st.dead = st.dead or 'jump'
            return BOT
        st.store, st.dead = acc_store, None
        st.pc = pcs
        return acc_v

    def let(self, s, st, fr):
        if s['e'] is None:
            self.bind_pat(s['p'], ('val', BOT), st, fr)
            return
        init = s['e']
        pl = self.place(init, st, fr) if init['k'] in ('var', 'field', 'deref', 'index') and needs_place(s['p']) \
            else ('val', self.ev(init, st, fr))
        if st.dead:
            self.bind_pat(s['p'], ('val', BOT), st, fr)
            return
        if s.get('els'):
            c = self.bind_pat(s['p'], pl, st, fr)
            self.branch(c, st, lambda a: UNIT, lambda b: self.ev(s['els'], b, fr))
            return
        self.bind_pat(s['p'], pl, st, fr)

    lost = 0         # panics that no state tells of any more
    uchk = False     # a flag that holds as long as every unchecked access was in range

    def require(self, e, st, kind, cond, **info):
        """an unchecked operation needs `cond`; without debug assertions nothing else stops it"""
        if not self.uchk:
            return
        for i in self.active[1:]:
            f = self.p.fns.get(i)
            if f is not None and i in self.examined and not f.get('unsafe'):
                return      # a safe function of its own: examined for all arguments
        ok = ONE
        for c in self.okcs:
            if c in st.store:
                ok = mul(ok, st.store[c])
        for a in st.asserts:
            ok = mul(ok, tobool(a))
        self.vcs.append(dict(kind=kind, cond=cond, sp=e.get('sp', ''), fn=self.active[-1] if self.active else '',
                             stack=tuple(self.stack), pc=st.pc, asserts=st.asserts, ok=ok, **info))
        st.store['u'] = self.nm(mul(st.store.get('u', ONE), or_(not_(ok), cond)))

    examined = ()    # safe functions whose unchecked accesses are examined by themselves
    machine = False  # whole numbers wrap around at the width of their type
    debug = True     # debug assertions compiled in

    def e_if(self, e, st, fr):
        if e.get('dbg') and not self.debug:
            return UNIT
        c = self.cond(e['c'], st, fr)
        if st.dead:
            return BOT
        return self.branch(c, st, lambda a: self.ev(e['t'], a, fr),
                           lambda b: self.ev(e['f'], b, fr) if e.get('f') else UNIT)

    def cond(self, c, st, fr):
        """conditions may bind (if let chains)"""
        if c['k'] == 'letc':
            pl = self.place(c['e'], st, fr)
            return self.bind_pat(c['p'], pl, st, fr)
        if c['k'] == 'logic' and c['op'] == 'And':
            a = self.cond(c['l'], st, fr)
            if const_of(a) == 0:
                return ZERO
            if c['r']['k'] == 'letc' or has_letc(c['r']):
                b = self.cond(c['r'], st, fr)   # binding only; its effects are pure reads
                return mul(a, b)
            return self.branch(a, st, lambda s: tobool(self.ev(c['r'], s, fr)), lambda s: ZERO)
        return tobool(self.ev(c, st, fr))

    def e_letc(self, e, st, fr):
        return self.cond(e, st, fr)

    def e_logic(self, e, st, fr):
        if e['op'] == 'And':
            return self.cond(e, st, fr)
        a = tobool(self.ev(e['l'], st, fr))
        return self.branch(a, st, lambda s: ONE, lambda s: tobool(self.ev(e['r'], s, fr)))

    def e_match(self, e, st, fr):
        if e['src'].startswith('ForLoop') and e['e']['k'] == 'call' and e['arms'][0]['b']['k'] == 'loop':
            r = self.for_loop(e, st, fr)
            if r is not None:
                return r
        pl = self.place(e['e'], st, fr)
        if st.dead:
            return BOT
        arms = e['arms']

        def go(i, s):
            a = arms[i]
            c = self.bind_pat(a['p'], pl, s, fr)
            last = i == len(arms) - 1
            if a['g'] is not None:
                if const_of(c) == 0:
                    return go(i + 1, s) if not last else self.die(s, 'panic')
                g = self.branch(c, s, lambda x: self.cond(a['g'], x, fr), lambda x: ZERO)
                c = mul(c, g)
            elif last:
                c = ONE
            if const_of(c) == 1:
                return self.ev(a['b'], s, fr)
            if last:
                return self.ev(a['b'], s, fr)
            return self.branch(c, s, lambda x: self.ev(a['b'], x, fr), lambda x: go(i + 1, x))
        return go(0, st) if arms else self.die(st, 'panic')

    def die(self, st, why):
        st.dead = why
        return BOT

    # ------------------------------------------------------------ patterns
    def bind_pat(self, p, pl, st, fr):
        k = p['k']
        if k == 'wild':
            return ONE
        if k == 'bind':
            if p['by'] == 'refmut' and pl[0] == 'cell':
                v = raw('ref', pl[1], pl[2])
            else:
                v = self.read(pl, st)
            c = ONE
            if p.get('sub'):
                c = self.bind_pat(p['sub'], pl, st, fr)
            fr.env[p['var']] = self.newcell(st, v)
            return c
        if k == 'deref':
            v = self.read(pl, st)
            return self.bind_pat(p['p'], self.refplace(v) or pl, st, fr)
        v = self.read(pl, st)
        r = self.refplace(v)
        if r:
            pl, v = r, self.read(r, st)
        if k == 'variant':
            q = self.qual(p['adt'], p['v'])
            c = mk('is', v, q)
            for i, sp in p['f']:
                if const_of(c) == 0:
                    self.bind_pat(sp, ('val', BOT), st, fr)
                else:
                    c = mul(c, self.bind_pat(sp, self.ext(pl, ('v', q, i)), st, fr))
            return c
        if k == 'leaf':
            t = self.nt(p['ty'], fr)
            names = None
            if t[0] == 'adt' and t[1] in self.p.adts:
                names = [f['n'] for f in self.p.adts[t[1]]['variants'][0]['f']]
            c = ONE
            for i, sp in p['f']:
                c = mul(c, self.bind_pat(sp, self.ext(pl, ('f', names[i] if names else str(i))), st, fr))
            return c
        if k == 'const':
            return self.const_eq(v, p['v'])
        if k == 'range':
            return self.range_pat(v, p['v'])
        if k == 'slice':
            pre, mid, suf = p['pre'], p['mid'], p['suf']
            n = len(pre) + len(suf)
            ln = mk_len(v)
            c = eq(ln, num(n), True) if mid is None else le(num(n), ln, True)
            if const_of(c) == 0:
                for sp in pre + suf:
                    self.bind_pat(sp, ('val', BOT), st, fr)
                return c
            for i, sp in enumerate(pre):
                c = mul(c, self.bind_pat(sp, self.ext(pl, ('i', num(i))), st, fr))
            for i, sp in enumerate(suf):
                c = mul(c, self.bind_pat(sp, self.ext(pl, ('i', sub(ln, num(len(suf) - i)))), st, fr))
            if mid is not None:
                x = fresh('u')
                m = mk_vec(seq_for(rng(num(len(pre)), sub(ln, num(len(suf)))), x, seq([one(ONE, mk_idx(v, x))])))
                c = mul(c, self.bind_pat(mid, ('val', m), st, fr))
            return c
        if k == 'or':
            acc, cells = ZERO, {}
            for alt in p['p']:
                c = self.bind_pat(alt, pl, st, fr)
                for var in pat_vars(alt):
                    cur = st.store[fr.env[var]]
                    cells[var] = cur if var not in cells else self.join(acc, cells[var], cur)
                acc = or_(acc, c)
            for var, v in cells.items():
                fr.env[var] = self.newcell(st, v)
            return acc
        self.unk('pattern ' + k)
        return raw('b', raw('unk', 'pattern'))

    def const_eq(self, v, s):
        s = s.strip()
        if s in ('true', 'false'):
            b = tobool(v)
            return b if s == 'true' else not_(b)
        m = re.match(r'^(-?[0-9_]+?)_?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)?$', s)
        if m:
            return eq(v, num(int(m.group(1).replace('_', ''))), True)
        m = re.match(r'^(-?[0-9_.]+?)_?(f32|f64)$', s)
        if m:
            return eq(v, num(F(m.group(1).replace('_', ''))))
        return eqv(v, raw('str', s))

    def range_pat(self, v, s):
        m = re.match(r'^(.*?)\.\.(=?)(.*)$', s)
        n = lambda x: num(int(re.sub(r'_?[ui](8|16|32|64|128|size)$', '', x).replace('_', '')))
        try:
            c = ONE
            if m.group(1):
                c = mul(c, le(n(m.group(1)), v, True))
            if m.group(3):
                c = mul(c, le(v, n(m.group(3)), True) if m.group(2) else lt(v, n(m.group(3)), True))
            return c
        except Exception:
            self.unk('range pattern ' + s)
            return raw('b', raw('unk', s))

    # ------------------------------------------------------------ simple nodes
    def e_var(self, e, st, fr):
        return self.read(self.place(e, st, fr), st)

    e_field = e_deref = e_index = e_var

    def e_borrow(self, e, st, fr):
        if e['mut']:
            pl = self.place(e['e'], st, fr)
            if pl[0] == 'cell':
                return raw('ref', pl[1], pl[2])
            if pl[0] == 'ite':
                return self.place_ref(pl)
            return raw('ref', self.newcell(st, pl[1]), ())
        return self.ev(e['e'], st, fr)

    def place_ref(self, pl):
        if pl[0] == 'cell':
            return raw('ref', pl[1], pl[2])
        if pl[0] == 'ite':
            return ite(pl[1], self.place_ref(pl[2]), self.place_ref(pl[3]))
        return pl[1]

    def e_rawborrow(self, e, st, fr):
        return self.e_borrow(dict(e, mut=e.get('mut')), st, fr)

    def e_never(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def e_coerce(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def e_lit(self, e, st, fr):
        if 'b' in e:
            return ONE if e['b'] else ZERO
        if 'f' in e:
            return num(F(e['f'].replace('_', '')))
        if 'v' in e:
            t = e.get('ty', {})
            if t.get('n') == 'bool':
                return ONE if e['v'] else ZERO
            return num(e['v'])
        return raw('str', e.get('s', e.get('o', '')))

    def e_zst(self, e, st, fr):
        if 'fn' in e:
            ga = tuple(self.p.norm(tsub(ty(x), fr.sb)) for x in e.get('ga', []))
            return raw('fnitem', e['fn'], e.get('trait') or '', ga)
        return UNIT

    def e_tuple(self, e, st, fr):
        return tup(*[self.ev(x, st, fr) for x in e['f']])

    def e_array(self, e, st, fr):
        return raw('array', tuple(self.ev(x, st, fr) for x in e['f']))

    def e_repeat(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        m = re.match(r'^\s*(\d+)', e['n'])
        n = num(int(m.group(1))) if m else raw('sym', 'N', 'u')
        x = fresh('u')
        return mk_vec(seq_for(rng(ZERO, n), x, seq([one(ONE, v)])))

    def e_adt(self, e, st, fr):
        vals = {}
        for n, x, i in e['f']:
            vals[n] = (i, self.ev(x, st, fr))
        a = self.p.adts.get(e['adt'])
        is_enum = (a and a['kind'] == 'Enum') or e['adt'] in STDNAME
        base = self.ev(e['base'], st, fr) if e.get('base') else None
        if is_enum:
            fs = [v for _, v in sorted(vals.values(), key=lambda z: z[0])]
            return ctor(self.aname(e['adt']), self.qual(e['adt'], e['v']), *fs)
        if a:
            names = tuple(f['n'] for f in a['variants'][0]['f'])
        else:
            names = tuple(n for n, _ in sorted(vals.items(), key=lambda z: z[1][0]))
        out = []
        for n in names:
            if n in vals:
                out.append(vals[n][1])
            elif base is not None:
                out.append(mk_field(base, n))
            else:
                out.append(UNIT)
        return mk('rec', short(e['adt']), names, tuple(out))

    def e_closure(self, e, st, fr):
        t = raw('closure', e['n'], len(self.closures))
        self.closures[t] = fr
        return t

    def e_const(self, e, st, fr):
        ga = [self.p.norm(tsub(ty(x), fr.sb)) for x in e.get('ga', [])]
        n = strip(e['fn'])
        last = n.split('::')[-1]
        if e.get('trait', '').endswith('variable::Real') and ga and ga[0][0] in ('param', 'proj'):
            return raw('sym', 'Real::' + last, 'r')
        f = None
        if 'trait' in e and ga:
            s = self.p.select(e['trait'], ga[0])
            if s and last in s[0]['_items']:
                f = self.p.fns.get(s[0]['_items'][last]['id'])
        f = f or self.p.fns.get(e['fn'])
        if f is not None:
            fr2 = Fr(f, dict(fr.sb), len(self.stack))
            return self.ev(f['body'], st, fr2)
        if last in ('MAX', 'MIN', 'INFINITY', 'NEG_INFINITY', 'NAN', 'EPSILON'):
            t = self.nt(e['ty'], fr)
            return raw('sym', f'{tshow(t)}::{last}', self.kind(t) if self.kind(t) in 'uir' else '')
        return raw('sym', 'const:' + n, '')

    def e_static(self, e, st, fr):
        f = self.p.fns.get(e['n'])
        if f is not None:
            return self.ev(f['body'], st, Fr(f, {}, len(self.stack)))
        return raw('sym', 'static:' + e['n'], '')

    def e_constblock(self, e, st, fr):
        return raw('sym', 'constblock', '')

    def e_unsupported(self, e, st, fr):
        self.unk('unsupported ' + e.get('d', ''), e.get('sp', ''))
        return raw('unk', e.get('sp', ''))

    def e_return(self, e, st, fr):
        v = self.ev(e['e'], st, fr) if e.get('e') else UNIT
        if not st.dead:
            fr.rets.append(self.outcome(st, v))
            st.dead = 'jump'
        return BOT

    def e_break(self, e, st, fr):
        v = self.ev(e['e'], st, fr) if e.get('e') else UNIT
        if st.dead:
            return BOT
        for L in reversed(fr.loops):
            if L.lbl == e['lbl']:
                L.breaks.append(self.outcome(st, v))
                break
        else:
            self.unk('break target', e.get('sp', ''))
        st.dead = 'jump'
        return BOT

    def e_continue(self, e, st, fr):
        for L in reversed(fr.loops):
            if L.lbl == e['lbl']:
                L.conts.append(self.outcome(st, UNIT))
                break
        else:
            self.unk('continue target', e.get('sp', ''))
        st.dead = 'jump'
        return BOT

    def e_assign(self, e, st, fr):
        v = self.ev(e['r'], st, fr)
        if st.dead:
            return BOT
        pl = self.place(e['l'], st, fr)
        self.write(pl, v, st)
        return UNIT

    def e_assignop(self, e, st, fr):
        r = self.ev(e['r'], st, fr)
        if st.dead:
            return BOT
        pl = self.place(e['l'], st, fr)
        l = self.read(pl, st)
        t = self.nt(e['l']['ty'], fr)
        op = e['op'].replace('Assign', '')
        self.write(pl, self.arith(op, l, r, t, e, st), st)
        return UNIT

    def e_un(self, e, st, fr):
        v = self.val(self.ev(e['e'], st, fr), st)
        if e['op'] == 'Not':
            t = self.nt(e['ty'], fr)
            if t == ('prim', 'bool'):
                return not_(tobool(v))
            w = TM.WIDTH.get(t[1]) if t[0] == 'prim' else None
            if w and w[0]:
                return sub(num(-1), v)
            if w and w[1] != 8:
                return sub(num(2 ** w[1] - 1), v)
            return mk('bnot', v)
        return neg(v)

    def e_cast(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        a, b = self.nt(e['e']['ty'], fr), self.nt(e['ty'], fr)
        if a == ('prim', 'bool') and b != a:
            return add(tobool(v))
        if self.keep_casts and a[0] == b[0] == 'prim':
            return TM.mk_cast(v, a[1], b[1])
        if self.kind(a) == 'r' and self.kind(b) in 'ui':
            return mk('trunc', v)
        if a[0] == b[0] == 'prim' and a[1] in TM.WIDTH and b[1] in TM.NARROW and a != b:
            (s0, k0), (s1, k1) = TM.WIDTH[a[1]], TM.WIDTH[b[1]]
            if k0 > k1 or k0 == k1 or s0 > s1:
                return mk('wrap', v, b[1])
        return v

    keep_casts = False

    def e_bin(self, e, st, fr):
        l = self.val(self.ev(e['l'], st, fr), st)
        r = self.val(self.ev(e['r'], st, fr), st)
        if st.dead:
            return BOT
        t = self.nt(e['l']['ty'], fr)
        return self.arith(e['op'], l, r, t, e, st)

    def isint(self, t):
        while t[0] == 'ref':
            t = t[2]
        return self.kind(t) in ('u', 'i')

    def arith(self, op, l, r, t, e, st):
        while t[0] == 'ref':
            t = t[2]
        I = self.isint(t)
        if t == ('prim', 'bool'):
            l, r = tobool(l), tobool(r)
            if op in ('BitAnd',):
                return mul(l, r)
            if op in ('BitOr',):
                return or_(l, r)
            if op in ('BitXor', 'Ne'):
                return not_(iff(l, r))
            if op == 'Eq':
                return iff(l, r)
        if self.machine and op in ('Add', 'Sub', 'Mul') and t[0] == 'prim' and t[1] in TM.WIDTH:
            return mk('wrap', {'Add': add, 'Sub': sub, 'Mul': mul}[op](l, r), t[1])
        if op in ('Add', 'AddUnchecked'):
            return add(l, r)
        if op == 'Sub':
            if t[0] == 'prim' and t[1] in UINT:
                self.event('usub', e, st, l=l, r=r)
            return sub(l, r)
        if op == 'Mul':
            return mul(l, r)
        if op == 'Div':
            if I:
                self.event('div', e, st, d=r)
                return idiv(l, r)
            if self.generic_real(t):
                return mk('rdiv', l, r)
            if const_of(l) == 0 and const_of(r) == 0:
                return raw('sym', 'f64::NAN', 'r')
            return div(l, r)
        if op == 'Rem':
            return imod(l, r)
        if op == 'Eq':
            return eq(l, r, I) if self.kind(t) in 'uir' else eqv(l, r)
        if op == 'Ne':
            return not_(self.arith('Eq', l, r, t, e, st))
        if op == 'Lt':
            return lt(l, r, I)
        if op == 'Le':
            return le(l, r, I)
        if op == 'Gt':
            return lt(r, l, I)
        if op == 'Ge':
            return le(r, l, I)
        if op == 'BitAnd':
            return mk('band', l, r)
        if op == 'BitOr':
            return mk('bor', l, r)
        if op == 'BitXor':
            return mk('bxor', l, r)
        if op == 'Shl':
            return mul(l, pow2(r))
        if op == 'Shr':
            c = const_of(r)
            return idiv(l, pow2(r)) if c is not None else mk('shr', l, r)
        self.unk('operator ' + op, e.get('sp', ''))
        return raw('unk', op)

    # ------------------------------------------------------------ loops
    def for_loop(self, e, st, fr):
        arm = e['arms'][0]
        loop = arm['b']
        it = self.ev(e['e'], st, fr)
        if st.dead:
            return BOT
        body = loop['e']
        try:
            m = body['stmts'][0]['e']
            some = [a for a in m['arms'] if a['p']['k'] == 'variant' and a['p']['v'] == 'Some'][0]
        except (KeyError, IndexError, TypeError):
            return None
        pat = some['p']['f'][0][1]
        sq = self.iterseq(it, self.nt(e['e']['ty'], fr), st)
        self.loop_seq(sq, lambda x, s: (self.bind_pat(pat, ('val', x), s, fr), self.ev(some['b'], s, fr)),
                      st, fr, loop.get('lbl'), self.nt(pat['ty'], fr))
        return UNIT

    def e_loop(self, e, st, fr):
        """while / while-let / loop"""
        body = e['e']
        lbl = e.get('lbl')
        # while let Some(p) = it.next()
        b = body
        while b['k'] == 'block' and not b['stmts'] and b.get('e'):
            b = b['e']
        b = b['e'] if b['k'] == 'never' else b
        if b['k'] == 'if' and b['c']['k'] == 'letc' and b['c']['p']['k'] == 'variant' and b['c']['p']['v'] == 'Some' \
                and b['c']['e']['k'] == 'call' and strip(b['c']['e'].get('fn', '')).endswith('Iterator::next') \
                and is_break(b.get('f')):
            a = b['c']['e']['args'][0]
            while a['k'] in ('borrow', 'deref'):
                a = a['e']
            if a['k'] == 'var' and not mentions(b['t'], a['v']):
                t = self.nt(a['ty'], fr)
                c = fr.lookup(a['v'])
                it = self.val(st.store[c], st)
                if not self.local_iter(t):
                    sq = self.iterseq(it, t, st)
                    pat = b['c']['p']['f'][0][1]
                    self.loop_seq(sq, lambda x, s: (self.bind_pat(pat, ('val', x), s, fr), self.ev(b['t'], s, fr)),
                                  st, fr, lbl, self.nt(pat['ty'], fr))
                    return UNIT
        return self.while_loop(lambda s: self.ev(body, s, fr), st, fr, lbl)

    def local_iter(self, t):
        while t[0] == 'ref':
            t = t[2]
        return t[0] == 'adt' and t[1] in self.p.adts

    def tagof(self, t):
        if t is None:
            return ''
        while t[0] == 'ref':
            t = t[2]
        k = self.kind(t)
        return k if k in ('u', 'i', 'r') else ''

    def loop_seq(self, sq, body, st, fr, lbl, et=None):
        """run body(elem, state) for every element of the sequence"""
        base = len(self.stack)
        pc0 = st.pc
        st.pc = ONE
        self.stack.append(pc0)
        outs = []
        self.seq_iter(sq, body, st, fr, lbl, et, outs)
        self.stack.pop()
        if outs:
            s2 = st.copy()
            self.join_outs(outs, base + 1, s2, UNIT)
            st.become(s2)
        st.pc = mul(pc0, st.pc)

    def seq_iter(self, sq, body, st, fr, lbl, et, outs):
        for p in sq.a[0]:
            if st.dead:
                return
            if p.op == 'one':
                L = Loop(lbl, len(self.stack))
                fr.loops.append(L)

                def step(s, e=p.a[1]):
                    body(e, s)
                    b0 = len(self.stack)
                    if L.conts:
                        self.join_outs(L.conts, b0, s, UNIT)
                        L.conts = []
                    return UNIT
                # continue outcomes are relative to the element's own start
                pc = st.pc
                st.pc = ONE
                self.stack.append(pc)
                self.branch(p.a[0], st, step, lambda s: UNIT)
                self.stack.pop()
                st.pc = mul(pc, st.pc)
                fr.loops.pop()
                outs.extend(L.breaks)
            else:
                dom, x, _, inner = open_(p)
                if et is not None and dom.op == 'elems' and self.tagof(et) and len(inner.a[0]) == 1 \
                        and inner.a[0][0].op == 'one' and inner.a[0][0].a[1] is x:
                    y = fresh(self.tagof(et))
                    inner = subst(inner, {x: y})
                    x = y

                def run(s, inner=inner, x=x):
                    o2 = []
                    self.seq_iter(inner, body, s, fr, lbl, et, o2)
                    return o2
                self.iterate(dom, x, run, st, fr, outs)

    def leaves(self, old, new, path=()):
        if old is new:
            return []
        if old.op == new.op == 'rec' and old.a[0] == new.a[0]:
            r = []
            for n, x, y in zip(old.a[1], old.a[2], new.a[2]):
                r += self.leaves(x, y, path + (('f', n),))
            return r
        if old.op == new.op == 'tuple' and len(old.a) == len(new.a):
            r = []
            for i, (x, y) in enumerate(zip(old.a, new.a)):
                r += self.leaves(x, y, path + (('f', str(i)),))
            return r
        return [path]

    def iterate(self, dom, x, run, st, fr, outs, counter=True):
        """summarise `for x in dom { run }` from one abstract iteration"""
        leaves = {}      # (cell, path) -> state symbol
        TM.DOM[x] = dom
        # the panics of the iterations: a flag that stays set as long as none happened
        okc = self.newcell(st, ONE)
        self.okcs.append(okc)
        as0, run0 = st.asserts, run
        ways = [outs, fr.rets] + [l for L in fr.loops for l in (L.breaks, L.conts)]
        nway = [len(l) for l in ways]

        def run(s):
            n1 = [len(l) for l in ways[1:]]
            brk = run0(s)
            for o in [s] + brk + [o for l, n in zip(ways[1:], n1) for o in l[n:]]:
                if len(o.asserts) > len(as0) and okc in o.store:
                    for a in o.asserts[len(as0):]:
                        o.store[okc] = self.nm(mul(o.store[okc], self.nm(tobool(a))))
                o.asserts = as0
            return brk
        try:
            self.iterate_(dom, x, run, st, fr, outs, leaves, okc)
        finally:
            self.okcs.remove(okc)
            for o in [st] + [o for l, n in zip(ways, nway) for o in l[n:]]:
                v = o.store.pop(okc, ONE)
                if v is not ONE:
                    o.asserts = o.asserts + (tobool(v),)

    def iterate_(self, dom, x, run, st, fr, outs, leaves, okc):
        cells0 = set(st.store)
        base = len(self.stack)
        for attempt in range(8):
            s = st.copy()
            s.pc = ONE
            for (c, p), sy in leaves.items():
                s.store[c] = self.set_leaf(s.store[c], p, sy)
            start = dict(s.store)
            # jumps out of this loop: returns, and those with the label of a loop around it
            ways = [fr.rets] + [l for L in fr.loops for l in (L.breaks, L.conts)]
            nway = [len(l) for l in ways]
            nev, nvc = len(self.events), len(self.vcs)
            self.stack.append(ONE)
            brk = run(s)
            self.stack.pop()
            rets = [(l, o) for l, n in zip(ways, nway) for o in l[n:]]
            for l, n in zip(ways, nway):
                del l[n:]
            new = {}
            states = [o.store for o in brk] + [o.store for _, o in rets] + ([] if s.dead else [s.store])
            for sto in states:
                for c in cells0:
                    for p in self.leaves(start[c], sto[c]):
                        if (c, p) not in leaves:
                            new[(c, p)] = start[c]
            if not new:
                break
            del self.events[nev:]
            del self.vcs[nvc:]
            for (c, p), v in new.items():
                old = self.get_path(v, p)
                # a shorter path subsumes longer ones
                for k in [k for k in leaves if k[0] == c and k[1][:len(p)] == p]:
                    del leaves[k]
                if any(k[0] == c and p[:len(k[1])] == k[1] for k in leaves):
                    continue
                tag = old.a[1] if old.op in ('sym', 'fv') and len(old.a) > 1 else \
                    ('r' if TM.scalar(old) and not TM.isbool(old) else '')
                sy = fresh(tag if c != okc else '', 's')
                if c == okc or self.boolish(old):
                    sy = raw('b', sy)
                leaves[(c, p)] = sy
        else:
            raise Unsupported('loop does not stabilise')
        if s.dead == 'panic' and not brk and not rets:
            self.unk('loop body always panics')
        self.summarise(dom, x, st, s, brk, rets, leaves, base, fr, outs)

    def boolish(self, v):
        if TM.isbool(v):
            return True
        if v.op == 'poly':
            c = const_of(v)
            return c is None and all(TM.isbool(a) for a in top_atoms(v)) and False
        return False

    def set_leaf(self, v, p, new):
        if not p:
            return new
        return self.set_path(v, p, new)

    def summarise(self, dom, x, st, s, brk, rets, leaves, base, fr, outs):
        init = {k: self.get_path(st.store[k[0]], k[1]) for k in leaves}
        exits = [(outs, o) for o in brk] + rets
        keys = list(leaves)
        syms = {k: leaves[k] for k in keys}
        rawsym = {k: (v.a[0] if v.op == 'b' else v) for k, v in syms.items()}
        ids = {v.id for v in rawsym.values()}

        def free(t):
            return not (t.fvs & ids)
        nxt = {k: (self.get_path(s.store[k[0]], k[1]) if not s.dead else syms[k]) for k in keys}
        for k in keys:
            TM.STATE[rawsym[k]] = (init[k], [nxt[k]] + [self.get_path(o.store[k[0]], k[1]) for _, o in exits])
        econd = [self.nm(o.cond(base + 1)) for _, o in exits]
        for i, k in enumerate(keys):
            pass
        if s.dead == 'jump' and not exits:
            econd = []
        final = {}
        if exits:
            X = add(ZERO, *econd)
            # ex_j: left through exit j
            val = {}
            loads = []
            for j, (kd, o) in enumerate(exits):
                loads.append(o.val)
            changed_norm = [k for k in keys if nxt[k] is not syms[k]]
            if free(X) and all(free(c) for c in econd) and not changed_norm and \
                    all(free(v) for v in loads) and \
                    all(free(self.get_path(o.store[k[0]], k[1])) or self.get_path(o.store[k[0]], k[1]) is syms[k]
                        for _, o in exits for k in keys):
                # pure search
                exs = []
                for j, c in enumerate(econd):
                    if len(econd) == 1:
                        exs.append(mk_any(dom, x, c))
                    else:
                        exs.append(mul(mk_any(dom, x, X), tobool(self.first(dom, x, X, c))))
                for k in keys:
                    v = init[k]
                    for j, (kd, o) in enumerate(exits):
                        ov = self.get_path(o.store[k[0]], k[1])
                        if ov is not syms[k]:
                            v = ite(exs[j], self.first(dom, x, X, ov), v)
                    final[k] = v
                pay = [self.first(dom, x, X, v) if x.id in v.fvs else v for v in loads]
            else:
                # fold with exit flags
                ex = [raw('b', fresh('', 'e')) for _ in exits]
                exr = [e.a[0] for e in ex]
                pl = [None if free(v) and x.id not in v.fvs else fresh('', 'p') for v in loads]
                frozen = ZERO
                for e in ex:
                    frozen = or_(frozen, e)
                if self.namebig is not None and len(ex) > 1:
                    frozen = raw('nb', frozen)
                stt, ini, nx = [], [], []
                for k in keys:
                    b = nxt[k]
                    for j, (kd, o) in enumerate(exits):
                        b = self.join(econd[j], self.get_path(o.store[k[0]], k[1]), b)
                    stt.append(rawsym[k])
                    ini.append(init[k])
                    nx.append(ite(frozen, syms[k], b))
                for j in range(len(exits)):
                    stt.append(exr[j])
                    ini.append(ZERO)
                    nx.append(add(mul(frozen, ex[j]), mul(not_(frozen), econd[j])))
                pidx = {}
                for j, q in enumerate(pl):
                    if q is not None:
                        pidx[j] = len(stt)
                        stt.append(q)
                        ini.append(ZERO if TM.scalar(loads[j]) and not TM.isbool(loads[j]) else BOT)
                        nx.append(ite(frozen, q, ite(econd[j], loads[j], q)))
                fs = [self.mk_fold(dom, x, stt, ini, nx, i) for i in range(len(stt))]
                n = len(keys)
                for i, k in enumerate(keys):
                    final[k] = fs[i] if nxt[k] is not syms[k] or any(
                        self.get_path(o.store[k[0]], k[1]) is not syms[k] for _, o in exits) else init[k]
                exs = []
                for j in range(len(exits)):
                    if len(exits) == 1 and free(econd[0]):
                        exs.append(mk_any(dom, x, econd[0]))
                    else:
                        exs.append(tobool(fs[n + j]))
                pay = [fs[pidx[j]] if j in pidx else loads[j] for j in range(len(exits))]
            for k, v in final.items():
                st.store[k[0]] = self.set_leaf(st.store[k[0]], k[1], v)
            self.restore_new(st, s, exits)
            rem = ONE
            for j, (kd, o) in enumerate(exits):
                out = Out(tuple(self.stack), mul(st.pc, exs[j]), dict(st.store), pay[j], st.asserts)
                kd.append(out)
                rem = sub(rem, exs[j])
            st.pc = mul(st.pc, rem)
            return
        # no early exit: closed forms first
        todo = list(keys)
        prog = True
        sb = {}
        while prog and todo:
            prog = False
            for k in list(todo):
                n = subst(nxt[k], sb) if sb else nxt[k]
                r = self.closed(dom, x, syms[k], rawsym[k], init[k], n, ids)
                if r is not None:
                    final[k], at = r
                    todo.remove(k)
                    prog = True
                    if at is not None:
                        sb[rawsym[k]] = at
        if todo:
            nx_ = {k: (subst(nxt[k], sb) if sb else nxt[k]) for k in todo}
            left = {rawsym[k].id for k in todo}
            need = list(todo)
            for k in keys:
                if k not in todo and any(rawsym[k].id in nx_[q].fvs for q in todo):
                    need.append(k)
                    nx_[k] = subst(nxt[k], sb) if sb else nxt[k]
            # transitively needed closed leaves
            ch = True
            while ch:
                ch = False
                for k in keys:
                    if k not in need and any(rawsym[k].id in nx_[q].fvs for q in need):
                        need.append(k)
                        nx_[k] = subst(nxt[k], sb) if sb else nxt[k]
                        ch = True
            stt = [rawsym[k] for k in need]
            for i, k in enumerate(need):
                if k in todo:
                    final[k] = self.mk_fold(dom, x, stt, [init[q] for q in need], [nx_[q] for q in need], i)
        for k, v in final.items():
            st.store[k[0]] = self.set_leaf(st.store[k[0]], k[1], v)
        self.restore_new(st, s, exits)

    def restore_new(self, st, s, exits):
        """cells allocated inside the body stay readable (dangling values are never used)"""
        for c, v in s.store.items():
            if c not in st.store:
                st.store[c] = v
        for _, o in exits:
            for c, v in o.store.items():
                if c not in st.store:
                    st.store[c] = v

    def first(self, dom, x, pred, val):
        if x.id not in val.fvs:
            return val
        return bind_raw('first', x, [], dom, pred, val)

    def mk_fold(self, dom, x, stt, ini, nx, i):
        # keep only what component i depends on
        need = [i]
        j = 0
        while j < len(need):
            for q in range(len(stt)):
                if q not in need and stt[q].id in nx[need[j]].fvs:
                    need.append(q)
            j += 1
        sts = [stt[q] for q in need]
        return TM.bind_raw('fold', x, sts, dom, tuple(ini[q] for q in need), tuple(nx[q] for q in need))

    def closed(self, dom, x, sy, rs, init, n, ids):
        """(final value, value at iteration x or None)"""
        free = lambda t: not (t.fvs & ids)
        if n is sy:
            return init, None
        if n.op in ('poly',) or TM.isbool(n) or TM.scalar(n) or n is rs or n.op == 'ite' and TM.scalar(n.a[1]):
            lin = affine(n, sy)
            if lin is not None:
                a, b = lin
                if free(a) and free(b):
                    if const_of(a) == 1:
                        fin = add(init, mk_sum(dom, x, b))
                        at = None
                        if const_of(b) is not None and dom.op == 'range':
                            at = add(init, mul(b, sub(x, dom.a[0])))
                        return fin, at
                    if const_of(b) == 0:
                        if isflag(a):
                            return mul(init, not_(mk_any(dom, x, not_(a)))), None
                        return mul(init, mk_prod(dom, x, a)), None
                    if add(a, b) is ONE and isflag(b):
                        return or_(init, mk_any(dom, x, b)), None
        if n.op == 'vec':
            head = vec_seq(rs)
            ps = n.a[0].a[0]
            if ps and ps[0] is head.a[0][0] and all(free(p) for p in ps[1:]):
                return mk_vec(seq_cat(vec_seq(init), seq_for(dom, x, seq(ps[1:])))), None
        if n.op == 'set':
            head = set_seq(rs).a[0][0]
            ps = n.a[0].a[0]
            rest = [p for p in ps if p is not head]
            if len(rest) < len(ps) and all(free(p) for p in rest):
                return mk_set(seq_cat(init.a[0] if init.op == 'set' else set_seq(init), seq_for(dom, x, seq(rest)))), None
        if n.op == 'scat' and n.a[0] is rs and free(n.a[1]):
            return mk_scat(init, seq_for(dom, x, n.a[1])), None
        if n.op == 'upd' and n.a[0] is rs and free(n.a[2]) and dom.op == 'range' and const_of(dom.a[0]) == 0:
            if n.a[1] is x and mk_len(init) is dom.a[1]:
                return mk_vec(seq_for(dom, x, seq([one(ONE, n.a[2])]))), None
        if n.op == 'minsert' and n.a[0] is rs and free(n.a[1]) and free(n.a[2]):
            base = init.a[0] if init.op == 'map' else map_seq(init)
            return mk('map', seq_cat(base, seq_for(dom, x, seq([one(ONE, tup(n.a[1], n.a[2]))])))), None
        return None

    def while_loop(self, body, st, fr, lbl):
        """loop / while: a counting loop becomes a range, anything else a fold over the naturals"""
        base = len(self.stack)
        pc0 = st.pc
        st.pc = ONE
        self.stack.append(pc0)
        outs = []
        dom = raw('nat')
        x = fresh('u')

        def run(s):
            L = Loop(lbl, len(self.stack))
            fr.loops.append(L)
            pc = s.pc
            s.pc = ONE
            b0 = len(self.stack)
            self.stack.append(pc)
            body(s)
            if L.conts:
                self.join_outs(L.conts, b0 + 1, s, UNIT)
            self.stack.pop()
            s.pc = mul(pc, s.pc)
            fr.loops.pop()
            return L.breaks
        done = self.counting(run, st, fr, outs)
        if not done:
            self.iterate(dom, x, run, st, fr, outs)
            st.dead = 'jump'   # only leaves through an exit
            self.unbounded = True
        self.stack.pop()
        v = UNIT
        s2 = st.copy()
        if outs or st.dead:
            v = self.join_outs(outs, base + 1, s2, UNIT)
            st.become(s2)
        st.pc = mul(pc0, st.pc)
        return v

    def counting(self, run, st, fr, outs):
        """recognise: exit iff not (c < bound), tested first; c += 1 once per round"""
        s = st.copy()
        s.pc = ONE
        # discover with the plain iterate machinery on a scratch copy
        leaves = {}
        cells0 = set(st.store)
        base = len(self.stack)
        nret0 = len(fr.rets)
        for _ in range(8):
            s = st.copy()
            s.pc = ONE
            for (c, p), sy in leaves.items():
                s.store[c] = self.set_leaf(s.store[c], p, sy)
            start = dict(s.store)
            nev = len(self.events)
            ways = [l for L in fr.loops for l in (L.breaks, L.conts)]
            nway = [len(l) for l in ways]
            self.stack.append(ONE)
            brk = run(s)
            self.stack.pop()
            del self.events[nev:]
            del fr.rets[nret0:]
            for l, n in zip(ways, nway):
                del l[n:]
            if s.dead or len(brk) < 1:
                return False
            new = {}
            for sto in [o.store for o in brk] + [s.store]:
                for c in cells0:
                    for p in self.leaves(start[c], sto[c]):
                        if not any(k[0] == c and p[:len(k[1])] == k[1] for k in leaves):
                            new[(c, p)] = start[c]
            if not new:
                break
            for (c, p), v in new.items():
                old = self.get_path(v, p)
                for k in [k for k in leaves if k[0] == c and k[1][:len(p)] == p]:
                    del leaves[k]
                tag = 'r' if TM.scalar(old) and not TM.isbool(old) else ''
                sy = fresh(tag, 's')
                if TM.isbool(old):
                    sy = raw('b', sy)
                leaves[(c, p)] = sy
        else:
            return False
        ids = {(v.a[0] if v.op == 'b' else v).id for v in leaves.values()}
        first = brk[0]
        # the head exit must leave the state untouched
        for (c, p), sy in leaves.items():
            if self.get_path(first.store[c], p) is not sy:
                return False
        cond = first.cond(base + 1)
        for (c, p), sy in leaves.items():
            n = self.get_path(s.store[c], p)
            if sy.op == 'b' or not TM.scalar(n):
                continue
            d = sub(n, sy)
            if const_of(d) != 1:
                continue
            # cond == not(sy < bound)
            bound = self.bound_of(cond, sy, ids)
            if bound is None:
                continue
            i0 = self.get_path(st.store[c], p)
            x = fresh('u')
            dom = rng(i0, bound)
            key = (c, p)

            def run2(s2):
                s2.store[c] = self.set_leaf(s2.store[c], p, x)
                b = run(s2)
                s2.store[c] = self.set_leaf(s2.store[c], p, i0)
                b = b[1:]
                for o in b:
                    o.store[c] = self.set_leaf(o.store[c], p, add(x, ZERO))
                return b
            if len(brk) > 1:
                return False
            # re-run with the counter as the bound variable; the head test is known to hold
            self.assume_lt = getattr(self, 'assume_lt', [])
            self.iterate_assuming(dom, x, run2, st, fr, outs, bound)
            g = lt(i0, bound, True)
            st.store[c] = self.set_leaf(st.store[c], p, add(mul(g, bound), mul(not_(g), i0)))
            return True
        return False

    def iterate_assuming(self, dom, x, run2, st, fr, outs, bound):
        c = lt(x, bound, True)
        def run3(s):
            r = run2(s)
            # drop the loop-head test from everything produced in the body
            at = c
            for k, v in list(s.store.items()):
                s.store[k] = assume(v, at)
            s.pc = assume(s.pc, at)
            for o in r:
                for k, v in list(o.store.items()):
                    o.store[k] = assume(v, at)
                o.pc = assume(o.pc, at)
                o.stack = tuple(assume(z, at) for z in o.stack)
            return r
        self.iterate(dom, x, run3, st, fr, outs)

    def bound_of(self, cond, sy, ids):
        """cond == [bound <= sy] with bound free of the loop state"""
        live = not_(cond)
        for at in top_atoms(live):
            if at.op == 'pos':
                lin = lin_in(at.a[0], sy)
                if lin is None:
                    continue
                for b in (scale(lin[1], -1 / lin[0]),):
                    for off in (0, 1, -1):
                        bb = add(b, num(off))
                        if not (bb.fvs & ids) and lt(sy, bb, True) is live:
                            return bb
            if at.op == 'eq':
                lin = lin_in(at.a[0], sy)
                if lin is None:
                    continue
                b = scale(lin[1], -1 / lin[0])
                for off in (0, 1, -1):
                    bb = add(b, num(off))
                    if not (bb.fvs & ids) and lt(sy, bb, True) is live:
                        return bb
        return None

    # ------------------------------------------------------------ sequences
    def iterseq(self, v, t, st):
        """the elements an iterable value yields"""
        v = self.val(v, st)
        while t is not None and t[0] == 'ref':
            t = t[2]
        if v.op == 'seq':
            return v
        if v.op == 'rec' and v.a[0] == 'Range':
            x = fresh('u')
            return seq_for(rng(mk_field(v, 'start'), mk_field(v, 'end')), x, seq([one(ONE, x)]))
        if v.op == 'rec' and v.a[0] == 'RangeFrom':
            x = fresh('u')
            return seq([mk_for(rng(mk_field(v, 'start'), INF), x, seq([one(ONE, x)]))])
        if v.op == 'rec' and v.a[0] == 'RangeInclusive':
            x = fresh('u')
            return seq_for(rng(mk_field(v, 'start'), add(mk_field(v, 'end'), ONE)), x, seq([one(ONE, x)]))
        if v.op in ('succf', 'fromf'):
            import stdmore
            return stdmore.generated(self, v, st)
        if v.op in ('vec', 'array', 'scat', 'upd'):
            return vec_seq(v)
        if t is not None and t[0] == 'adt' and short(t[1]) in ('BTreeSet', 'BTreeMap') and v.op in ('set', 'sremove', 'map', 'minsert', 'mremove', 'ite'):
            return self.in_order(v, short(t[1]) == 'BTreeMap')
        if v.op == 'set':
            return set_seq(v)
        if v.op in ('map', 'minsert', 'mremove'):
            return map_seq(v)
        if v.op == 'ctor' and v.a[0] == 'Option':
            return seq([one(ONE, v.a[2])]) if v.a[1] == 'Some' else seq([])
        k = self.kind(t) if t is not None else 'o'
        if k == 'vec':
            return vec_seq(v)
        if k == 'set':
            return set_seq(v)
        if k == 'map' and short(t[1]) == 'BTreeMap':
            return self.in_order(v, True)
        if k == 'map':
            return map_seq(v)
        if k == 'opt':
            return seq([one(mk('is', v, 'Some'), mk_vf(v, 'Some', 0))])
        if v.op == 'ite':
            return seq_cat(seq_guard(v.a[0], self.iterseq(v.a[1], t, st)),
                           seq_guard(not_(v.a[0]), self.iterseq(v.a[2], t, st)))
        x = fresh('')
        return seq([mk_for(raw('elems', v), x, seq([one(ONE, x)]))])

    def in_order(self, v, pairs):
        """the elements of an ordered collection"""
        if v.op == 'ite':
            return seq_cat(seq_guard(v.a[0], self.in_order(v.a[1], pairs)), seq_guard(not_(v.a[0]), self.in_order(v.a[2], pairs)))
        s = map_seq(v) if pairs else set_seq(v)
        ps = s.a[0]
        if len(ps) <= 1:
            if not ps or ps[0].op == 'one':
                return s
            dom, x, _, body = open_(ps[0])
            if len(body.a[0]) == 1 and body.a[0][0].op == 'one' and dom.op in ('range', 'elems'):
                e = body.a[0][0].a[1]
                if pairs and e.op == 'tuple':
                    e = e.a[0]
                if e is x and (dom.op == 'range' or not pairs):
                    return s
                if dom.op == 'range' and TM.scalar(e):
                    d = affine(e, x)
                    if d is not None and const_of(d[0]) is not None and const_of(d[0]) > 0 and x.id not in d[1].fvs:
                        return s
        x = fresh('')
        return seq([mk_for(raw('elems', raw('set', s)), x, seq([one(ONE, x)]))])

    def seq_bind(self, s, f, pend=None):
        ps = []
        for p in s.a[0]:
            n = len(pend) if pend is not None else 0
            if p.op == 'one':
                ps.extend(seq_guard(p.a[0], f(p.a[1])).a[0])
                if pend is not None:
                    pend[n:] = [or_(not_(p.a[0]), a) for a in pend[n:]]
            else:
                dom, x, _, body = open_(p)
                ps.extend(seq_for(dom, x, self.seq_bind(body, f, pend)).a[0])
                if pend is not None:
                    pend[n:] = [not_(mk_any(dom, x, not_(a))) for a in pend[n:]]
        return seq(ps)

    def pure(self, f, st):
        """f(elem) on a scratch state; None when it writes to the enclosing state"""
        s = st.copy()
        x = fresh('')
        n = len(self.events)
        f(x, s)
        del self.events[n:]
        return all(s.store[c] is v for c, v in st.store.items())

    def seq_run(self, s, f, st, fr, et=None):
        """map every element through f(elem, state) -> sequence; f may write enclosing state"""
        cells = dict(st.store)
        pend = []

        def g(e):
            s2 = st.copy()
            s2.pc = ONE
            r = f(e, s2)
            if any(s2.store[c] is not v for c, v in cells.items()):
                raise Impure()
            pend.extend(tobool(a) for a in s2.asserts[len(st.asserts):])
            return r if not s2.dead else seq([])
        n = len(self.events)
        try:
            r = self.seq_bind(s, g, pend)
            st.asserts = st.asserts + tuple(pend)
            return r
        except Impure:
            del self.events[n:]
        acc = self.newcell(st, mk_vec(seq([])))

        def body(e, s2):
            r = f(e, s2)
            if not s2.dead:
                s2.store[acc] = mk_vec(seq_cat(vec_seq(s2.store[acc]), r))
        self.loop_seq(s, body, st, fr, None, et)
        return vec_seq(st.store[acc])

    def positions(self, s):
        """the sequence as an unconditional indexed comprehension: (length, i -> elem) or None"""
        ps = s.a[0]
        if all(p.op == 'one' and const_of(p.a[0]) == 1 for p in ps):
            arr = raw('array', tuple(p.a[1] for p in ps))
            return num(len(ps)), (lambda i: mk_idx(arr, i))
        if len(ps) == 1 and ps[0].op == 'for':
            dom, x, _, body = open_(ps[0])
            if len(body.a[0]) == 1 and body.a[0][0].op == 'one' and const_of(body.a[0][0].a[0]) == 1:
                e = body.a[0][0].a[1]
                if dom.op == 'range':
                    lo = dom.a[0]
                    n = INF if dom.a[1] is INF else card(dom)
                    return n, (lambda i: subst(e, {x: add(lo, i)}))
                if dom.op == 'elems':
                    return card(dom), (lambda i: subst(e, {x: mk('nth', dom.a[0], i)}))
        return None

    def from_positions(self, n, f):
        x = fresh('u')
        if const_of(n) is not None:
            return seq_for(rng(ZERO, n), x, seq([one(ONE, f(x))]))
        return seq([mk_for(rng(ZERO, n), x, seq([one(ONE, f(x))]))])

    def seq_first(self, s):
        """(exists, first element)"""
        ex, v = ZERO, BOT
        for p in reversed(s.a[0]):
            if p.op == 'one':
                c, e = p.a[0], p.a[1]
            else:
                dom, x, _, body = open_(p)
                c1, e1 = self.seq_first(body)
                c = mk_any(dom, x, c1)
                e = self.first(dom, x, c1, e1)
                if dom.op == 'range' and const_of(c1) == 1 and x.id in e1.fvs:
                    e = subst(e1, {x: dom.a[0]})
            v = self.join(c, e, v)
            ex = or_(c, ex)
        return ex, v

    # ------------------------------------------------------------ calls
    def apply(self, f, args, st, fr, sp=''):
        """call a function value"""
        f0 = f
        f = self.val(f, st)
        if f.op == 'closure':
            d = self.p.fns.get(f.a[0])
            home = self.closures[f]
            if d is None:
                self.unk('closure body ' + f.a[0], sp)
                return raw('call', f.a[0], *args)
            key = (f.a[0], f.a[1])
            if self.active.count(key) > 3:
                raise Unsupported('closure recursion')
            fr2 = Fr(d, home.sb, len(self.stack), parent=home)
            ps = [p for p in d['params'] if p['p'] is not None]
            return self.enter(key, d, fr2, ps, args, st)
        if f.op == 'fnitem':
            fake = {'k': 'call', 'fn': f.a[0], 'sp': sp, '_ga': f.a[2]}
            if f.a[1]:
                fake['trait'] = f.a[1]
            return self.dispatch(fake, list(args), list(f.a[2]), st, fr, None, [None] * len(args))
        if f.op == 'ite':
            return self.branch(f.a[0], st, lambda s: self.apply(f.a[1], args, s, fr, sp),
                               lambda s: self.apply(f.a[2], args, s, fr, sp))
        vals = [self.val(a, st) for a in args]
        r = raw('app', f, *vals)
        h = getattr(self, 'on_app', None)
        if h:
            h(self, f, args, st)
        if self.fnstate and f0.op == 'ref':
            # the call may change the state of the function value
            self.write(self.target(f0, st), raw('post', r, -1), st)
        for i, a in enumerate(args):
            if a.op == 'ref':
                self.write(self.refplace(a), raw('post', r, i), st)
        return r

    def enter(self, key, d, fr2, params, args, st):
        if len(self.active) > self.MAXDEPTH:
            raise Unsupported('depth')
        self.active.append(key)
        self.ncall += 1
        self.visited.add(d['id'])
        pc0 = st.pc
        st.pc = ONE
        self.stack.append(pc0)
        fr2.base = len(self.stack)
        for p, a in zip(params, args):
            self.bind_pat(p['p'], ('val', a), st, fr2)
        lost0 = self.lost
        v = self.ev(d['body'], st, fr2)
        if fr2.rets:
            if st.dead == 'panic':
                self.lost += 1
            s2 = st.copy()
            v = self.join_outs(fr2.rets, fr2.base, s2, v)
            st.become(s2)
            if self.lost > lost0 and not st.dead and st.pc is not ONE:
                # the ways that are left do not cover everything: the others panic
                st.asserts = st.asserts + (self.nm(tobool(st.pc)),)
        self.lost = lost0
        self.stack.pop()
        if st.dead == 'jump':
            st.dead = 'panic'
        # a function that returns at all returns along every path that does not panic
        st.pc = pc0
        self.active.pop()
        return v

    def inline(self, f, sb, args, st, fr):
        fr2 = Fr(f, sb, len(self.stack))
        return self.enter(f['id'], f, fr2, f['params'], args, st)

    def opaque(self, name, args, st):
        vals = tuple(self.val(a, st) for a in args)
        r = raw('call', name, *vals)
        for i, a in enumerate(args):
            pl = self.target(a, st)
            if pl:
                self.write(pl, raw('post', r, i), st)
        return r

    def e_call(self, e, st, fr):
        if 'dyn' in e:
            f = self.ev(e['dyn'], st, fr)
            args = [self.ev(a, st, fr) for a in e['args']]
            if st.dead:
                return BOT
            return self.apply(f, args, st, fr, e.get('sp', ''))
        args = []
        for a in e['args']:
            args.append(self.ev(a, st, fr))
            if st.dead:
                return BOT
        ga = [self.p.norm(tsub(ty(x), fr.sb)) for x in e.get('ga', [])]
        ats = [self.nt(a['ty'], fr) for a in e['args']]
        return self.dispatch(e, args, ga, st, fr, self.nt(e['ty'], fr), ats)

    def resolve(self, e, ga):
        """(function record, substitution) of the callee in the three crates, else None"""
        fid = e['fn']
        if e.get('trait') and ga:
            tr = e['trait']
            nm = fid.split('::')[-1]
            self_ty = ga[0]
            im = self.p.by_trait.get(tr)
            if im:
                ntr = len(im[0]['_targs'])
                s = self.p.select(tr, self_ty, tuple(ga[:ntr]))
                if s:
                    it = s[0]['_items'].get(nm)
                    if it and it['id'] in self.p.fns:
                        f = self.p.fns[it['id']]
                        sb = dict(s[1])
                        own = f['generics'][len(s[0]['generics']):]
                        sb.update(zip(own, ga[len(ga) - len(own):] if own else []))
                        return f, sb
                    f = self.p.fns.get(fid)
                    if f is not None:
                        sb = dict(zip(f['generics'], ga))
                        return f, sb
            if any(tr.startswith(c + '::') for c in CRATES):
                f = self.p.fns.get(fid)
                if f is not None and self_ty[0] in ('param', 'proj') and fid in self.inline_default:
                    return f, dict(zip(f['generics'], ga))
            return None
        f = self.p.fns.get(fid)
        if f is not None and f['kind'] in ('Fn', 'AssocFn'):
            return f, dict(zip(f['generics'], ga))
        return None

    def dispatch(self, e, args, ga, st, fr, rt, ats):
        fid = e['fn']
        sp = e.get('sp', '')
        if e.get('unsafe'):
            self.event('unsafe', e, st, callee=strip(fid), args=tuple(self.val(a, st) for a in args), ga=tuple(ga))
        # enum and tuple-struct constructors used as functions
        c = self.constructor(fid, args)
        if c is not None:
            return c
        h = self.hooks.get(fid)
        if h is not None:
            r = h(self, e, args, ga, st, fr)
            if r is not NotImplemented:
                return r
        r = self.resolve(e, ga)
        if r is not None:
            f, sb = r
            h = self.hooks.get(f['id'])
            if h is not None:
                v = h(self, e, args, ga, st, fr)
                if v is not NotImplemented:
                    return v
            if f['id'] in self.opaque_fns or f['id'] in self.active:
                return self.opaque(f['id'], args, st)
            return self.inline(f, sb, args, st, fr)
        import stdmodel
        v = stdmodel.model(self, e, args, ga, st, fr, rt, ats)
        if v is not NotImplemented:
            return v
        name = strip(fid)
        if not any(name.startswith(c + '::') for c in CRATES):
            self.unk('call ' + name, sp)
            return self.opaque('?' + name, args, st)
        return self.opaque(name, args, st)

    def constructor(self, fid, args):
        s = strip(fid)
        adt, _, v = s.rpartition('::')
        if adt in STDNAME and v in ('Some', 'None', 'Ok', 'Err', 'Less', 'Equal', 'Greater', 'Continue', 'Break'):
            return ctor(STDNAME[adt], v, *args)
        a = self.p.adts.get(adt)
        if a and a['kind'] == 'Enum' and any(x['n'] == v for x in a['variants']):
            return ctor(short(adt), self.qual(adt, v), *args)
        a = self.p.adts.get(s)
        if a and a['kind'] == 'Struct':
            names = tuple(f['n'] for f in a['variants'][0]['f'])
            if len(names) == len(args):
                return mk('rec', short(s), names, tuple(args))
        return None

    # ------------------------------------------------------------ entry point
    def run(self, f, args=None, sb=None, names=None):
        """summary of one function over symbolic arguments -> dict"""
        if isinstance(f, str):
            f = self.p.fns[f]
        st = St({})
        if self.world:
            st.store['world'] = st.store['round'] = ZERO
        if self.uchk:
            st.store['u'] = ONE
        sb = dict(sb or {})
        fr = Fr(f, sb, 0)
        syms = []
        for i, p in enumerate(f['params']):
            if args is not None and i < len(args) and args[i] is not None:
                a = args[i]
                if isinstance(a, tuple):      # ('mut', value)
                    a = raw('ref', self.newcell(st, a[1]), ())
                syms.append(a)
                continue
            n = (names[i] if names else None) or pat_name(p['p']) or f'a{i}'
            syms.append(self.symval(n, tsub(ty(p['ty']), sb), st))
        before = {i: self.val(a, st) for i, a in enumerate(syms)}
        v = self.enter(f['id'], f, fr, f['params'], syms, st)
        after = {i: self.val(a, st) for i, a in enumerate(syms)}
        if v.op != 'bottom' and f.get('ret'):
            v = self.coerce(v, self.p.norm(tsub(ty(f['ret']), sb)))
        return dict(f=f, ret=self.val(v, st), args=before, after=after, st=st, dead=st.dead, u=st.store.get('u', ONE))


class Impure(Exception):
    pass


def affine(n, sy):
    """n = a*sy + b with a, b free of sy at top level"""
    a, b = {}, {}
    for m, c in items(n):
        e = dict(m).get(sy)
        if e is None:
            if any(contains(at, sy if sy.op != 'b' else sy.a[0]) for at, _ in m):
                return None
            b[m] = c
        elif e == 1:
            rest = tuple(z for z in m if z[0] is not sy)
            if any(contains(at, sy if sy.op != 'b' else sy.a[0]) for at, _ in rest):
                return None
            a[rest] = c
        else:
            return None
    return P_(a), P_(b)


def isflag(p):
    """a 0/1 valued polynomial"""
    c = const_of(p)
    if c is not None:
        return c in (0, 1)
    ats = top_atoms(p)
    if not all(TM.isbool(a) for a in ats):
        return False
    return TM.mul(p, p) is p


def assume(v, at):
    """simplify under at == 1 (a single boolean atom or its complement)"""
    if not isinstance(v, T):
        return v
    its = items(at)
    if len(its) == 1 and len(its[0][0]) == 1 and its[0][1] == 1:
        return subst(v, {its[0][0][0][0]: ONE})
    n = items(not_(at))
    if len(n) == 1 and len(n[0][0]) == 1 and n[0][1] == 1:
        return subst(v, {n[0][0][0][0]: ZERO})
    ats = [a for a in top_atoms(at)]
    sb = {}
    for a in ats:
        for val in (ONE, ZERO):
            q = TM.poly_subst_top(at, {a: val})
            if const_of(q) == 0:
                sb[a] = not_(val)
    return subst(v, sb) if sb else v


def is_break(e):
    while e is not None and e['k'] in ('never', 'block'):
        if e['k'] == 'block':
            if e['stmts']:
                if len(e['stmts']) == 1 and e['stmts'][0]['k'] == 'expr' and not e.get('e'):
                    e = e['stmts'][0]['e']
                    continue
                return False
            e = e.get('e')
        else:
            e = e['e']
    return e is not None and e['k'] == 'break'


def mentions(e, var):
    if isinstance(e, dict):
        if e.get('k') == 'var' and e.get('v') == var:
            return True
        return any(mentions(x, var) for k, x in e.items() if k not in ('ty', 'sp'))
    if isinstance(e, list):
        return any(mentions(x, var) for x in e)
    return False


def has_letc(e):
    return e['k'] == 'letc' or (e['k'] == 'logic' and (has_letc(e['l']) or has_letc(e['r'])))


def needs_place(p):
    if p['k'] == 'bind':
        return p['by'] == 'refmut'
    return any(needs_place(x) for x in subpats(p))


def subpats(p):
    out = []
    for k in ('f',):
        for _, x in p.get('f', []) or []:
            out.append(x)
    if p.get('sub'):
        out.append(p['sub'])
    if isinstance(p.get('p'), dict):
        out.append(p['p'])
    elif isinstance(p.get('p'), list):
        out += p['p']
    for k in ('pre', 'suf'):
        out += p.get(k) or []
    if p.get('mid'):
        out.append(p['mid'])
    return out


def pat_vars(p):
    r = [p['var']] if p['k'] == 'bind' else []
    for x in subpats(p):
        r += pat_vars(x)
    return r


def pat_name(p):
    if p is None:
        return None
    if p['k'] == 'bind':
        return p['name']
    return None
