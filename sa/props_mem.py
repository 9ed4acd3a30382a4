"""memory: unchecked accesses, uninitialised data"""
import os
import itertools
from core import *
from props import prop
import terms as TM
from lin import Lin, known_facts, literals, settled
from props_sol import Models, rep_of

BV, FQ = 'BinaryRepr', 'FixedSingleQuadricModel'
MODE = dict(uchk=True, machine=True, debug=False)
RP = ('param', 'R')
KNOWN = ('slice::get_unchecked', 'slice::get_unchecked_mut', 'NonZero::new_unchecked')


def blocks(j, k, out):
    """nodes of the typed IR"""
    if isinstance(j, dict):
        if k(j):
            out.append(j)
        for x in j.values():
            blocks(x, k, out)
    elif isinstance(j, list):
        for x in j:
            blocks(x, k, out)
    return out


def is_fmt(n):
    return n.startswith(('core::fmt::', 'std::fmt::', 'alloc::fmt::'))


def unsafe_sites(f):
    """operations of a function body that only unsafe code may use"""
    def k(j):
        if j.get('k') == 'deref':
            t = (j.get('e') or {}).get('ty') or {}
            return t.get('k') in ('ptr', 'rawptr')
        return bool(j.get('unsafe')) and 'fn' in j and not is_fmt(j['fn']) and not j['fn'].startswith('pyo3::') and \
            j['fn'] != 'std::intrinsics::unreachable'      # generated by derives and by the binding macros
    return blocks(f.get('body'), k, [])


def called_ids(f):
    return {j[x] for j in blocks(f.get('body'), lambda j: 'fn' in j or 'res' in j, []) for x in ('fn', 'res') if j.get(x)}


def sites(cx):
    """functions with the unsafe operations in their bodies and closures"""
    out = {}
    for f in cx.p.fns.values():
        s = unsafe_sites(f) if f.get('body') else []
        if s:
            out.setdefault(f['id'].split('::{closure')[0], []).extend(s)
    return {i: s for i, s in out.items() if i in cx.p.fns}


def own(cx, n):
    return n.split('::')[0] in ('annealers', 'classical_solver', 'rustqubo')


def facts_dbg(v):
    out = []
    for c in list(v['stack']) + [v['pc']] + [tobool(a) for a in v['asserts']]:
        out += literals(c)
    return out


def prove(v, extra=()):
    """the condition of one unchecked access follows from the conditions on its path"""
    conds = [tobool(c) for c in list(v['stack']) + [v['pc']] + list(v['asserts'])]
    g = v['i'] if v['kind'] == 'non-zero' else [v['i'], sub(sub(v['n'], v['i']), ONE)] if v['kind'] == 'index' else None
    if g is None:
        return False
    gs = [sub(g, ONE)] if isinstance(g, T) else g
    facts = list(extra)
    known = {}
    while True:
        new = {a: x for c in conds for a, x in settled(c).items() if a not in known}
        if any(const_of(add(c)) == 0 for c in conds):
            return True
        if not new:
            break
        known.update(new)
        sb = {a: ONE if x else ZERO for a, x in new.items()}
        conds = [subst(c, sb) for c in conds]
        gs = [subst(g, sb) for g in gs]
        facts = [subst(f, sb) for f in facts]
    facts = list(dict.fromkeys(f for f in facts + known_facts(known) if const_of(f) is None or const_of(f) < 0))
    return all(Lin(facts).entails(g) for g in gs)


@prop('C01', 'other', 'range conditions of unchecked accesses: path facts of the value graph, linear inequalities; composed with the constructors', 1,
      'Every operation that only unsafe code may use is found in the typed IR.  Safe functions are summarised with all unsafe callees inlined, without debug assertions and with '
      'wrapping machine arithmetic; each unchecked access contributes the condition that keeps it in its buffer, which must follow from the conditions on its path, for values made by '
      'any constructor; functions that update such values must keep the lengths the conditions speak about.')
def c01(cx):
    S_ = sites(cx)
    MODE['examined'] = {i for i in S_ if cx.p.fns[i].get('pub') or cx.p.fns[i].get('trait')}
    cx.sites = [f'{i}: {len(s)}' for i, s in sorted(S_.items())]
    B = cx.ty('Binary', RP)
    Q = cx.ty(FQ, B)
    M_ = Models(cx)

    # values made by the constructors, for symbolic arguments
    def made(ty_):
        out = []
        for f in cx.p.fns.values():
            if f['kind'] != 'AssocFn' or not f.get('body') or short((f.get('self_ty') or {}).get('n') or '') != ty_ or f.get('trait'):
                continue
            r = f.get('ret') or {}
            if short(r.get('n') or '') == ty_ and not any('self' == pn for pn in [(p.get('p') or {}).get('n') for p in f['params']]):
                out.append(f)
        return out

    def sb_of(f):
        gens = f['generics'] if 'generics' in f else []
        if not gens:
            return {}
        a = short((f.get('self_ty') or {}).get('n') or '')
        if gens[0] == 'Self':
            if 'Model' not in f['id'].split('::')[-2]:
                return {}
            # a default body runs for the models that do not have their own
            tr = f['id'].rsplit('::', 1)[0]
            for t in (Q, M_.H):
                s = cx.p.select(tr, t, ()) if tr in cx.p.by_trait else None
                if s and f['name'] not in s[0]['_items']:
                    return {'Self': t}
            return None
        if a == FQ:
            return {gens[0]: B}
        return {}

    def canonical(ty_):
        """one value of the type with the lengths that every constructor gives it"""
        out = []
        for f in made(ty_):
            r = cx.run(f, sb=sb_of(f), **MODE)
            if r['ret'].op == 'rec':
                out.append((f, r))
        return out
    Cs = {t: canonical(t) for t in (BV, FQ)}

    def facts_of(r):
        fs = []
        for a in r['st'].asserts:
            fs += literals(tobool(a))
        return fs

    def lens(t):
        """the numbers that the conditions may depend on: whole-number fields and lengths of vectors"""
        d = dict(zip(t.a[1], t.a[2]))
        return {n: (mk_len(x) if x.op in ('vec', 'scat', 'upd', 'sym', 'fv', 'field', 'array') and not TM.is_poly(x) else x) for n, x in d.items()}

    def adt_fields(t):
        a = cx.p.adt(t)
        return {f['n']: ty(f['ty']) for f in a['variants'][0]['f']}

    def lenlike(t, v):
        r = {}
        for n, k in adt_fields(t).items():
            x = mk_field(v, n) if v.op != 'rec' else dict(zip(v.a[1], v.a[2]))[n]
            if k[0] == 'adt' and short(k[1]) == 'Vec' or k[0] in ('array', 'slice'):
                r[n] = mk_len(x)
            elif k == ('prim', 'usize'):
                r[n] = x
        return r

    def private():
        for t in (BV, FQ):
            a = cx.p.adt(t)
            bad = [f['n'] for f in a['variants'][0]['f'] if f.get('pub')]
            cx.ob(f'{t}: code outside cannot change the fields that the unchecked accesses rely on', None, 'refuted' if bad else 'proved',
                  f'public fields {bad}' if bad else '', rule='visibility')
    cx.attempt('fields', private)

    def subst_fresh(r, tag):
        """a summary of a constructor with arguments of its own"""
        return r

    # ---- entry points: safe functions with unchecked accesses, and private ones through their callers
    callers = {}
    for f in cx.p.fns.values():
        for c in called_ids(f) if f.get('body') else ():
            callers.setdefault(c, set()).add(f['id'])

    def entries():
        todo, out, seen = list(S_), [], set()
        while todo:
            i = todo.pop(0)
            if i in seen:
                continue
            seen.add(i)
            f = cx.p.fns[i]
            if f.get('unsafe'):
                continue
            if f['kind'] not in ('Fn', 'AssocFn'):
                continue
            out.append(f)
        return out

    def selfargs(f):
        """arguments that stand for any value of the types with unchecked accesses"""
        alts = [([], [])]
        for p in f['params']:
            t = ty(p['ty'])
            while t[0] == 'ref':
                t = t[2]
            t = cx.p.norm(tsub(t, sb_of(f)))
            n = short(t[1]) if t[0] == 'adt' else ''
            if n in Cs and Cs[n]:
                best = Cs[n][0][1]
                v = best['ret']
                isref = ty(p['ty'])[0] == 'ref'
                alts = [(a + [('mut', v) if isref else v], fs + facts_of(best)) for a, fs in alts]
            elif n == 'BinaryReprIter' and Cs[BV]:
                best = Cs[BV][0][1]
                pos_ = raw('sym', 'at', 'u')
                fl = list(adt_fields(n))
                v = raw('rec', n, tuple(fl), (best['ret'], pos_)) if len(fl) == 2 else None
                alts = [(a + [('mut', v) if v is not None else None], fs + facts_of(best)) for a, fs in alts]
            else:
                alts = [(a + [None], fs) for a, fs in alts]
        return alts

    # ---- concrete arguments for the identity test
    def gen(t, rng, it, k):
        if t[0] == 'ref':
            return gen(t[2], rng, it, k)
        if t == ('prim', 'usize'):
            return rng.choice((rng.randrange(k + 1), k - 1, k, k + 1, k + 7, 8 * k, 0, rng.randrange(4 * k + 9)))
        if t == ('prim', 'bool'):
            return rng.randrange(2)
        if t[0] == 'array' and t[1] == ('prim', 'usize'):
            return tuple(gen(t[1], rng, it, k) for _ in range(int(t[2])))
        if t[0] == 'slice':
            return tuple(gen(t[1], rng, it, k) for _ in range(k if t[1] == ('prim', 'bool') else rng.randrange(1, 4)))
        if t[0] == 'adt':
            n = short(t[1])
            if n == BV:
                return rep_of(cx, it, tuple(rng.randrange(2) for _ in range(max(0, k + rng.choice((0, 0, 0, -1, 1))))))
            if n == FQ:
                return M_.quad(it, rng, k)[0]
            if n == 'SingleModel':
                return M_.high(it, rng, max(1, k))[0]
            if n == 'Vec':
                return tuple(gen(t[2][0], rng, it, k) for _ in range(rng.randrange(0, 4)))
            if n == 'BinaryReprIter':
                return R('BinaryReprIter', **{'0': gen(('adt', cx.adt_id(BV), ()), rng, it, k), '1': rng.randrange(k + 2)})
            if n == 'Expanded':
                from lang import gpoly
                return R('Expanded', **{'0': gpoly(rng, terms=4, order=5)})
            if n == 'Option':
                return NONEV if rng.random() < .5 else SOME(gen(t[2][0], rng, it, k))
        if t[0] == 'param' and t[1] in ('T',):
            return Opq(rng.randrange(1 << 30))
        if t[0] in ('param', 'proj'):
            return F(rng.randrange(1, 9), rng.choice((1, 3)))
        raise NoVal(f'no values of type {tshow(t)}')

    def examine(f, deferred):
        if all(x.get('fn', '').endswith('::transmute') for x in S_.get(f['id'], [{'fn': ''}])):
            return cx.ob(f'no unchecked access in {f["name"]}', f, 'proved', 'transmute only: see C02', rule='inventory')
        name = f'unchecked accesses of {f["id"].split("::", 1)[1]} stay in range'
        sbs = [sb_of(f)]
        if sbs[0] is None:
            return cx.ob(name, f, 'proved', 'no type uses this default body', rule='trait resolution')
        if 'simulated' in f['name'] or any(short(b) in ('SingleModelView', 'FixedSingleModelView') for b in bounds(f).values()):
            sbs = [{g: t} for g, b in bounds(f).items() if short(b) in ('SingleModelView', 'FixedSingleModelView') for t in (M_.Q, M_.H)[:2 if short(b) == 'SingleModelView' else 1]] or sbs
        verdict, detail, n = 'proved', '', 0
        bad = None
        for sb in sbs:
            try:
                for args, fs in selfargs(f):
                    r = cx.run(f, args or None, sb=sb, **MODE)
                    for v in r['ev'].vcs:
                        n += 1
                        if not prove(v, fs):
                            if os.environ.get('RQ_DBG'):
                                print('no proof', f['name'], v['kind'], show(v['i'])[:300], '<', show(v['n'])[:300])
                                import terms as TM, lin
                                for at in TM.top_atoms(v['n']) if v['n'] is not None else ():
                                    q = at.a[0]
                                    while q in TM.STATE:
                                        print('  state', show(q), 'init', show(TM.STATE[q][0])[:200], [[show(z)[:200] for z in lin.roots(n)] for n in TM.STATE[q][1]])
                                        q = TM.STATE[q][0]
                                for f_ in list(v['stack']) + [v['pc']] + list(v['asserts']): print('   cond', show(tobool(f_))[:400])
                                for f_ in list(fs) + facts_dbg(v): print('   fact', show(f_)[:150])
                            verdict, detail = 'open', f'{show(v["cond"])[:200]} at {v["sp"]}'
                            bad = sb
                            break
                    un = [x for x in r['ev'].events if x['kind'] == 'unsafe' and not own(cx, x['callee']) and not is_fmt(x['callee']) and
                          '::'.join(x['callee'].split('::')[-2:]) not in KNOWN]
                    if un and verdict == 'proved':
                        verdict, detail = 'open', f'no rule for {un[0]["callee"]}'
                        if un[0]['callee'].endswith('::transmute'):
                            verdict, detail = 'proved', 'lifetime only (see C02)'
            except (Unsupported, Budget) as x:
                verdict, detail, bad = 'open', f'{type(x).__name__}: {x}', sb
            if verdict == 'open':
                break
        if verdict == 'proved':
            return cx.ob(name, f, 'proved', f'{n} accesses' + detail, rule='path facts and linear inequalities')
        if deferred is not None and not f.get('pub') and f['id'] in callers:
            deferred.append(f)
            return None
        # no proof: look for arguments that leave the buffer
        r = cx.run(f, sb=bad or {}, **MODE)
        pts = [cx.p.norm(tsub(ty(p['ty']), bad or {})) for p in f['params']]
        loops = any(r['u'].op != 'poly' or x for x in [find_fold(r['u'])])

        def env(rng):
            it = cx.interp(rng.randrange(1 << 30))
            k = rng.choice((1, 2, 3, 5)) if loops else rng.choice((1, 2, 3, 7, 8, 9, 15, 16, 17, 24))
            vals = [gen(t, rng, it, k) for t in pts]
            return {**cx.bind(r, *vals), '#vals': vals}

        def holds(it, e):
            it.lenient = True
            it.steps = 300000
            try:
                return int(bool(it.truth(r['u'], (e, {}, {}))))
            except Undef as x:
                raise NoVal(str(x))
        cx.test(name, f, [(f'every access in range ({detail})', holds, lambda it, e: 1)], env, trials=60 if loops else 300, rule='identity testing of the range conditions')

    def bounds(f):
        return {g: b for g, bs in (f.get('bounds') or {}).items() for b in bs} if isinstance(f.get('bounds'), dict) else \
            {'P': 'SingleModelView'} if f['name'] == 'simulated_annealing' and 'P' in f['generics'] else {}

    def accesses():
        todo = entries()
        seen = {f['id'] for f in todo}
        while todo:
            f = todo.pop(0)
            d = []
            if os.environ.get('RQ_DBG', f['name']) not in f['name']:
                continue
            cx.attempt(f['name'], lambda: examine(f, d))
            for g in d:
                for i in sorted(callers.get(g['id'], ())):
                    if i not in seen and i in cx.p.fns:
                        seen.add(i)
                        if cx.p.fns[i]['kind'] in ('Fn', 'AssocFn') and not cx.p.fns[i].get('unsafe'):
                            todo.append(cx.p.fns[i])
    cx.attempt('accesses', accesses)

    # ---- the size relations hold for every constructor and are kept by every update
    def relations():
        for t, getter, mkargs in ((BV, 'get', lambda: [raw('sym', 'at', 'u')]),
                                  (FQ, 'get_weight', lambda: [raw('array', (raw('sym', 'a', 'u'), raw('sym', 'b', 'u')))])):
            if t == BV:
                g, sb = cx.fn('get', self_adt=BV), {}
            else:
                from props_ann import spec_fn
                g, sb = spec_fn(cx, 'SingleModelView', 'get_weight')
            for f, r in [(f, cx.run(f, sb=sb_of(f), **MODE)) for f in made(t)]:
                def one_(f=f, r=r, t=t, g=g, sb=sb):
                    nm = f'{t}: values made by {f["name"]} have room for every position below the size'
                    x = cx.run(g, [r['ret']] + mkargs(), sb=sb, **{**MODE, 'examined': ()})
                    ok = r['ret'].op != 'bottom' and bool(x['ev'].vcs) and all(prove(v, facts_of(r)) for v in x['ev'].vcs)
                    if ok:
                        return cx.ob(nm, f, 'proved', f'{len(x["ev"].vcs)} conditions', rule='linear inequalities')
                    pts = [cx.p.norm(tsub(ty(p['ty']), sb_of(f))) for p in f['params']]

                    def env(rng):
                        it = cx.interp(0)
                        k = rng.choice((0, 1, 2, 7, 8, 9, 15, 16, 17, 33, 64, 65))
                        vals = []
                        for q in pts:
                            if q == ('prim', 'usize'):
                                vals.append(rng.choice((k, k, k, 2 ** 64 - 1, 2 ** 32, 2 ** 64 - 7, 2 ** 16, 2 ** 63)))
                            elif q[0] == 'adt' and short(q[1]) == 'Binary' or q[0] == 'param' and q[1] in ('M',):
                                vals.append(R('Binary', _phantom=()))
                            else:
                                vals.append(gen(q, rng, it, k))
                        e = cx.bind(r, *vals)
                        top = max([v for v in vals if isinstance(v, int)] + [k])
                        for n in ('at', 'a', 'b'):
                            e[n] = rng.choice((0, 1, k - 1 if k else 0, max(0, top - 1), rng.randrange(k + 1)))
                        return e

                    def holds(it, e):
                        for a in r['st'].asserts:
                            if not it.truth(a, (e, {}, {})):
                                return 1
                        it.lenient = True
                        return int(bool(it.truth(x['u'], (e, {}, {}))))
                    cx.test(nm, f, [('room', holds, lambda it, e: 1)], env, trials=300, rule='identity testing of the size relation')
                cx.attempt(f'{t} {f["name"]}', one_)
            # updates
            for f in cx.p.fns.values():
                if f['kind'] != 'AssocFn' or not f.get('body') or not f['params'] or short((f.get('self_ty') or {}).get('n') or '') != t:
                    continue
                p0 = ty(f['params'][0]['ty'])
                if p0[0] != 'ref' or not p0[1] or short(p0[2][1] if p0[2][0] == 'adt' else '') != t:
                    continue

                def upd(f=f, t=t):
                    base = Cs[t][0][1]['ret'] if Cs[t] else None
                    r = cx.run(f, [('mut', base)] if base is not None else None, sb=sb_of(f), **MODE)
                    b, a = lenlike(t, r['args'][0]), lenlike(t, r['after'][0])
                    if all(a[n] is b[n] for n in b):
                        return cx.ob(f'{t}: {f["name"]} keeps the size and the room', f, 'proved', ', '.join(sorted(b)), rule='lengths of updated vectors')
                    r = cx.run(f, sb=sb_of(f), **MODE)
                    b, a = lenlike(t, r['args'][0]), lenlike(t, r['after'][0])
                    pts = [cx.p.norm(tsub(ty(p['ty']), sb_of(f))) for p in f['params']]

                    def env(rng):
                        it = cx.interp(rng.randrange(1 << 30))
                        k = rng.choice((1, 2, 3, 7, 8, 9, 16, 17))
                        return cx.bind(r, *[gen(q, rng, it, k) for q in pts])

                    def room(it, e):
                        for x in r['st'].asserts:
                            if not it.truth(x, (e, {}, {})):
                                return 'ok'
                        A, B_ = ({n: it.run(v, e) for n, v in d.items()} for d in (a, b))
                        if t == BV:
                            return 'ok' if A['len'] <= B_['len'] and A['state'] >= B_['state'] or 8 * A['state'] >= A['len'] else f'{B_} becomes {A}'
                        return 'ok' if A == B_ or A['matrix'] >= A['size'] * (A['size'] + 1) // 2 else f'{B_} becomes {A}'
                    cx.test(f'{t}: {f["name"]} keeps the size and the room', f, [('room', room, lambda it, e: 'ok')], env, trials=60)
                cx.attempt(f'{t} {f["name"]}', upd)
    cx.attempt('relations', relations)

    # ---- safe default bodies in front of the unchecked lookup that an implementation supplies
    def defaults():
        for tr in ('SingleModelView', 'FixedSingleModelView'):
            fs = [g for g in cx.p.fns.values() if g['name'] == 'get_weight' and g['id'].split('::')[-2] == tr]
            if not fs or not fs[0].get('body') or fs[0].get('unsafe'):
                continue
            f, tid = fs[0], fs[0]['id'].rsplit('::', 1)[0]
            if not any(g['name'] == 'get_weight_unchecked' and g.get('unsafe') for g in cx.p.fns.values()):
                continue
            r = cx.run(f)

            def env(rng, r=r):
                n = rng.choice((0, 1, 2, 3, 5))
                pr = [frozenset(c) for k in (1, 2) for c in itertools.combinations(range(n), k) if rng.random() < .6]
                p = frozenset(rng.sample(range(n + 2), rng.choice((1, 2)))) if rng.random() < .6 or not pr else rng.choice(pr)
                return {**cx.bind(r, I.Opq(7), p), '#n': n, '#pr': tuple(pr), '#p': p}

            def guarded(it, e, r=r, tr=tr):
                asked = []
                it.calls[f'{tid_[tr]}::prods'] = lambda it, s: e['#pr']
                it.calls[f'{tid_[tr]}::size'] = lambda it, s: e['#n']
                it.calls[f'{tid_[tr]}::nodes'] = lambda it, s: tuple(range(e['#n']))
                it.calls[f'{tid_[tr]}::get_weight_unchecked'] = lambda it, s, p: (asked.append(p), 5)[1]
                for i in set_ids:
                    m = i.rsplit('::', 1)[1]
                    it.calls[i] = {'iter': lambda it, s: tuple(sorted(s)), 'len': lambda it, s: len(s), 'contains': lambda it, s, x: int(x in s),
                                   'into_vec': lambda it, s: tuple(sorted(s)), 'into_set': lambda it, s: s}[m]
                for a in r['st'].asserts:
                    if not it.truth(a, (e, {}, {})):
                        return 'ok'
                v = it.run(r['ret'], e)
                if not asked:
                    return 'ok'
                ok = all(p in e['#pr'] if tr == 'SingleModelView' else all(i < e['#n'] for i in p) for p in asked)
                return 'ok' if ok and v == 5 else f'the unchecked lookup is asked for {asked!r}'
            tid_[tr] = tid
            cx.test(f'{tr}: the lookup supplied by an implementation is only asked for products of the model', f,
                    [('checked before', guarded, lambda it, e: 'ok')], env, trials=80, rule='path conditions of the default body')
    tid_ = {}
    set_ids = [f'annealers::set::NodeSet::{n}' for n in ('iter', 'len', 'contains', 'into_vec', 'into_set')]
    cx.attempt('defaults', defaults)


def find_fold(t):
    st, seen = [t], set()
    while st:
        u = st.pop()
        if isinstance(u, tuple):
            st.extend(u)
            continue
        if not isinstance(u, T) or u in seen:
            continue
        seen.add(u)
        if u.op == 'fold':
            return True
        st.extend(u.a)
    return False


# ---------------------------------------------------------------- values from nowhere
RAW = {'zeroed', 'uninitialized', 'assume_init', 'assume_init_read', 'assume_init_ref', 'assume_init_mut', 'transmute_copy', 'read', 'read_unaligned', 'read_volatile',
       'copy', 'copy_nonoverlapping', 'from_raw_parts', 'from_raw_parts_mut', 'from_raw', 'set_len', 'take', 'transmute', 'alloc', 'swap', 'write', 'drop_in_place',
       'replace', 'uninit', 'as_ref', 'as_mut', 'reborrow', 'offset', 'add', 'sub', 'get_unchecked', 'get_unchecked_mut', 'new_unchecked', 'read_unaligned', 'into_raw'}
COPY = {'prim'}


def plain(t):
    """any bytes are a value of the type"""
    if t[0] == 'prim':
        return t[1] not in ('bool', 'char', 'str')
    if t[0] in ('array', 'tuple'):
        return all(plain(x) for x in (t[1:2] if t[0] == 'array' else t[1]))
    return t[0] == 'ptr'


def mentions(j, names):
    if isinstance(j, dict):
        if j.get('k') == 'param' and j.get('n') in names:
            return True
        return any(mentions(x, names) for k, x in j.items())
    if isinstance(j, list):
        return any(mentions(x, names) for x in j)
    return False


class Tree:
    """a function body with the bodies of its closures in place"""

    def __init__(self, cx, f):
        self.up, self.nodes = {}, []
        self.stack = set()
        self.cx = cx
        self.add(f['body'], None)

    def add(self, j, up):
        if isinstance(j, dict):
            self.up[id(j)] = up
            self.nodes.append(j)
            for x in j.values():
                self.add(x, j)
            if j.get('k') == 'closure':
                g = self.cx.p.fns.get(j.get('n')) or self.cx.p.fns.get(j.get('fn'))
                if g is not None and g['id'] not in self.stack:
                    self.stack.add(g['id'])
                    self.add(g['body'], j)
        elif isinstance(j, list):
            for x in j:
                self.add(x, up)

    def above(self, n):
        while n is not None:
            yield n
            n = self.up.get(id(n))

    def bind(self, v):
        return next((n for n in self.nodes if n.get('k') == 'bind' and n.get('var') == v), None)

    def block(self, n):
        """(block, position of the statement) around a node"""
        last = n
        for m in self.above(n):
            if m.get('k') == 'block' and m is not n:
                for i, s in enumerate(m['stmts']):
                    if s is last:
                        return m, i
                return m, len(m['stmts'])
            last = m
        return None, 0

    def uses(self, v):
        return [n for n in self.nodes if n.get('k') == 'var' and n.get('v') == v]


def root_var(e):
    """the variable that a place expression lies in"""
    while isinstance(e, dict):
        k = e.get('k')
        if k == 'var':
            return e
        if k in ('deref', 'borrow', 'rawborrow', 'field', 'coerce', 'cast', 'index', 'never'):
            e = e.get('e')
        elif k == 'block' and not e['stmts']:
            e = e.get('e')
        else:
            return None
    return None


def ok_type(j):
    """the value of a Result on success, without the error"""
    if j.get('k') == 'adt' and short(j['n']) == 'Result':
        return j['a'][:1]
    return [j]


def holders(cx, tree, site):
    """(type parameters that may hold the extended reference, functions that receive it)"""
    names, got, todo, seen = set(), [], [site], set()
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        prev = n
        for m in list(tree.above(n))[1:]:
            k = m.get('k')
            if k == 'call':
                got.append(m)

                def params(j):
                    if isinstance(j, dict):
                        if j.get('k') == 'param':
                            names.add(j['n'])
                        if j.get('k') in ('adt', 'ref', 'tuple', 'array', 'slice', 'ptr'):
                            for x in j.values():
                                params(x)
                    elif isinstance(j, list):
                        for x in j:
                            params(x)
                params(ok_type(m['ty']))
                break
            if k == 'let':
                st = [m['p']]
                while st:
                    q = st.pop()
                    if isinstance(q, dict):
                        if q.get('k') == 'bind':
                            todo += tree.uses(q['var'])
                        st.extend(q.values())
                    elif isinstance(q, list):
                        st.extend(q)
                break
            if k in ('coerce', 'borrow', 'deref', 'never', 'rawborrow', 'cast') or k == 'block' and m.get('e') is prev:
                prev = m
                continue
            if k is None:
                continue
            break
    return names, got


@prop('C02', 'other', 'inventory of raw memory operations, type and escape rules for extended references, poison analysis of value graphs', 1,
      'Every operation of the typed IR that can make a value from memory behind the type system is found and classified.  Values made by zeroing or copying memory of types with '
      'invalid or owned representations are violations; uninitialised bytes are poison in the value graph and must not reach a result; a reference with an extended lifetime must '
      'not be held by anything that outlives what it refers to.  The bits of new bit vectors are compared with zero, the given values and the generator.')
def c02(cx):
    S_ = sites(cx)
    cx.sites = [f'{i}: {len(s)}' for i, s in sorted(S_.items())]
    poisoned = set()
    n_all = sum(len(s) for s in S_.values())

    def name_of(s):
        if s.get('k') == 'deref':
            return 'deref of a raw pointer'
        return s['fn']

    def inventory():
        rest, ders = [], []
        for i, ss in sorted(S_.items()):
            f = cx.p.fns[i]
            for s in ss:
                n = name_of(s)
                two = '::'.join(strip_(n).split('::')[-2:])
                if own(cx, n) or two in KNOWN:
                    continue        # range conditions: C01
                last = n.split('::')[-1]
                ga = [ty(x) for x in s.get('ga', [])]
                where = f'{f["name"]} at {s.get("sp", "")}'
                if s.get('k') == 'deref':
                    if root_var(s.get('e')) is not None:
                        ders.append((f, s))
                    else:
                        cx.ob(f'{f["name"]}: {n}', f, 'open', f'where the pointer comes from is not known, {where}', rule='inventory')
                elif last == 'transmute' and len(ga) == 2:
                    rest.append((f, s))
                elif last in ('zeroed', 'uninitialized') and n.split('::')[-2] == 'mem':
                    t = ga[0] if ga else ('unknown',)
                    bad = not (plain(t) and last == 'zeroed')
                    cx.ob(f'{f["name"]}: no value of type {tshow(t)} is made by {last}()', f, 'refuted' if bad else 'proved', where, rule='inventory')
                elif last.startswith('assume_init'):
                    t = ga[0] if ga else ('unknown',)
                    src = [j for j in blocks(s.get('args'), lambda j: j.get('k') == 'call' and
                                             strip_(j.get('fn', '')).endswith(('MaybeUninit::zeroed', 'MaybeUninit::uninit')), [])]
                    if src and not (plain(t) and src[0]['fn'].endswith('zeroed')):
                        cx.ob(f'{f["name"]}: no value of type {tshow(t)} is made from memory that was not written', f, 'refuted', where, rule='inventory')
                    else:
                        poisoned.add(i)
                elif last == 'set_len':
                    poisoned.add(i)
                elif last in ('read', 'transmute_copy', 'read_unaligned', 'assume_init_read') and ga and not copyable(cx, ga[-1]):
                    cx.ob(f'{f["name"]}: values of type {tshow(ga[-1])} are not duplicated', f, 'refuted', f'{last} at {where}', rule='inventory: copy of an owned value')
                else:
                    cx.ob(f'{f["name"]}: {n}', f, 'open', f'no rule for {n}', rule='inventory')
        cx.ob('operations that only unsafe code may use', None, 'proved', f'{n_all} found in {len(S_)} functions; {len(rest)} references with extended lifetimes', rule='inventory')
        for f, s in rest:
            cx.attempt('transmute', lambda: transmute(f, s))
        for f, s in ders:
            cx.attempt('pointer', lambda: extended(f, s, pointee(f, s['e']), 0))

    def pointee(f, e):
        """the place that a raw pointer was made from"""
        tree = Tree(cx, f)
        for _ in range(6):
            v = root_var(e)
            if v is None or (v.get('ty') or {}).get('k') not in ('ptr', 'rawptr'):
                return e
            b = tree.bind(v['v'])
            let = next((m for m in tree.above(b) if m.get('k') == 'let'), None) if b is not None else None
            if let is None or not isinstance(let.get('e'), dict):
                return e
            e = let['e']
        return e

    def lifetime_only(s):
        a, b = [ty(x) for x in s['ga']]
        if b[0] != 'ref' or a[0] not in ('ref', 'ptr'):
            return False
        return a[-1] == b[-1] and not (a[0] == 'ref' and b[1] and not a[1])

    def transmute(f, s):
        a, b = [ty(x) for x in s['ga']]
        ok = lifetime_only(s)
        cx.ob(f'{f["name"]}: transmute changes only the lifetime of a reference', f, 'proved' if ok else 'refuted', f'{tshow(a)} to {tshow(b)} at {s.get("sp", "")}', rule='type rule')
        if ok:
            extended(f, s, s['args'][0], 0)

    def extended(f, s, src, depth):
        """the reference made at node `s` of `f` is held no longer than the place `src` lives"""
        tree = Tree(cx, f)
        v = root_var(src)
        nm = f'{f["name"]}: nothing that outlives the model holds the extended reference'
        names, got = holders(cx, tree, s)
        for m in got:
            tr = m.get('trait') or ''
            if own(cx, tr) and not m.get('fn', '').startswith('std'):
                # the callee may be written by anyone, and is promised a reference that lives for ever
                cx.ob(f'safe implementations of {"::".join(m["fn"].split("::")[-2:])} can keep the model for ever', f, 'refuted',
                      f'reference extended at {s.get("sp", "")}', rule='escape to code outside')
        if v is None:
            return cx.ob(nm, f, 'open', 'source is not a place', rule='escape')
        b = tree.bind(v['v'])
        if b is None or not any(m.get('k') == 'let' for m in tree.above(b)):
            # a parameter: look at the callers
            k = next((i for i, p in enumerate(f['params']) if any(q.get('var') == v['v'] for q in blocks(p.get('p'), lambda j: j.get('k') == 'bind', []))), None)
            if k is None or depth > 3:
                return cx.ob(nm, f, 'open', 'source is neither a local variable nor a parameter', rule='escape')
            if f.get('pub') or f.get('trait'):
                return cx.ob(f'{f["name"]}: a reference to the argument of a public function is not extended', f, 'refuted', f'at {s.get("sp", "")}', rule='escape')
            n = 0
            # what the call leaves behind: its result, and what its other arguments let it write to
            kept = mentions(ok_type(f.get('ret') or {}), names) or any(
                q['ty'].get('k') == 'ref' and q['ty'].get('mut') and mentions(q['ty'], names) and not (j == 0 and f.get('has_self'))
                for j, q in enumerate(f['params']) if j != k)
            for g in list(cx.p.fns.values()):
                if g['kind'] not in ('Fn', 'AssocFn') or not g.get('body'):
                    continue
                for c in Tree(cx, g).nodes:
                    if c.get('k') == 'call' and f['id'] in (c.get('fn'), c.get('res')) and len(c['args']) > k:
                        n += 1
                        if kept:
                            extended(g, c, c['args'][k], depth + 1)
                        else:
                            cx.ob(nm, g, 'proved', f'values of {sorted(names)} do not leave {f["name"]}', rule='escape')
            if not n:
                cx.ob(nm, f, 'proved', 'never called', rule='escape')
            return
        let = next(m for m in tree.above(b) if m.get('k') == 'let')
        block, pos = tree.block(let)
        inside = set()
        st = [block]
        keep = {id(x) for x in tree.nodes if block in list(tree.above(x))}
        problems = []
        # the block itself, and jumps out of it, must not carry a holder
        if mentions(ok_type(block['ty']), names):
            problems.append('the block that owns it returns a holder')
        for m in tree.nodes:
            if id(m) not in keep:
                continue
            if m.get('k') == 'return' and isinstance(m.get('e'), dict) and mentions(ok_type(m['e'].get('ty') or {}), names):
                problems.append(f'returned at {m.get("sp", "")}')
            if m.get('k') == 'var':
                d = tree.bind(m['v'])
                if d is None:
                    continue
                outside = id(d) not in keep
                if not outside:
                    db, dp = tree.block(next((q for q in tree.above(d) if q.get('k') == 'let'), d))
                    outside = db is block and dp < pos
                if outside and mentions(d['ty'], names) and d['ty'].get('k') != 'ref':
                    problems.append(f'{d["name"]} lives longer')
        # the owner must stay in place while the holders live
        live = [d for d in tree.nodes if d.get('k') == 'bind' and id(d) in keep and mentions(d.get('ty') or {}, names) and tree.block(d)[0] is block]
        sb, spos = block, next((i for i, x in enumerate(block['stmts']) if any(x is m for m in tree.above(s))), len(block['stmts']))
        for u in tree.uses(v['v']):
            up = tree.up.get(id(u)) or {}
            k = up.get('k')
            moved = k not in ('borrow', 'rawborrow', 'field', 'index', 'deref', None) or k is None and 'fn' not in up and False
            muted = k in ('borrow', 'rawborrow') and up.get('mut') or k in ('assign', 'assignop') and up.get('l') is u
            if not (moved or muted):
                continue
            at = next((i for i, x in enumerate(block['stmts']) if any(x is m for m in tree.above(u))), len(block['stmts']))
            if at < spos and at >= 0 and u is not v and not in_loop(tree, s, block):
                continue
            if at == spos or any(True for d in live):
                problems.append(f'{v["n"]} is {"moved" if moved else "changed"} at {u.get("sp", "")}')
        cx.ob(nm, f, 'refuted' if problems else 'proved', '; '.join(dict.fromkeys(problems)) or f'held by values of {sorted(names)} within the block of {v["n"]}', rule='escape')

    def in_loop(tree, s, block):
        for m in tree.above(s):
            if m is block:
                return False
            if m.get('k') in ('loop', 'closure'):
                return True
        return False

    cx.attempt('inventory', inventory)

    # ---- poison
    def poison():
        up = {}
        for f in cx.p.fns.values():
            for c in called_ids(f) if f.get('body') else ():
                up.setdefault(c, set()).add(f['id'].split('::{closure')[0])
        todo, seen = list(poisoned), set()
        while todo:
            i = todo.pop()
            f = cx.p.fns.get(i)
            if i in seen or f is None:
                continue
            seen.add(i)
            if f['kind'] not in ('Fn', 'AssocFn'):
                continue
            todo += list(up.get(i, ()))
            if f.get('unsafe'):
                continue

            def one_(f=f):
                r = cx.run(f, debug=False)
                bad = [t for t in [r['ret']] + list(r['after']) if has_uninit(t)]
                cx.ob(f'{f["name"]}: no uninitialised data in the result', f, 'refuted' if bad else 'proved', show(bad[0])[:200] if bad else '', rule='poison in the value graph')
            cx.attempt(f['name'], one_)
    cx.attempt('poison', poison)

    # ---- bits of new bit vectors
    def bits():
        g = cx.fn('get', self_adt=BV)
        at = raw('sym', 'at', 'u')
        for f in cx.p.fns.values():
            if f['kind'] != 'AssocFn' or not f.get('body') or short((f.get('self_ty') or {}).get('n') or '') != BV or f.get('trait'):
                continue
            if short((f.get('ret') or {}).get('n') or '') != BV or f['params'] and ty(f['params'][0]['ty'])[0] == 'ref' and short(str(ty(f['params'][0]['ty'])[2][1])) == BV:
                continue

            def one_(f=f):
                r = cx.run(f)
                x = cx.run(g, [r['ret'], at])
                pts = [ty(p['ty']) for p in f['params']]
                rand_ = any(t[0] == 'ref' and t[2][0] == 'param' for t in pts)
                given = next((i for i, t in enumerate(pts) if t[0] == 'ref' and t[2] == ('slice', ('prim', 'bool'))), None)

                sizes = [1, 2, 8, 16, 64] + [abs(c) for c in constants(x['ret']) if abs(c) <= 4096] * 2

                def env(rng):
                    it = cx.interp(rng.randrange(1 << 30))
                    k = max(1, rng.choice(sizes) * rng.choice((1, 1, 8, 16)) + rng.choice((-1, 0, 1, 7, 8, 9)))
                    vals = []
                    for t in pts:
                        if t == ('prim', 'usize'):
                            vals.append(k)
                        elif t[0] == 'ref' and t[2][0] == 'slice':
                            vals.append(tuple(rng.randrange(2) for _ in range(k)))
                        else:
                            vals.append(Opq(rng.randrange(1 << 30)))
                    return {**cx.bind(r, *vals), 'at': rng.choice((rng.randrange(k), rng.randrange(k), k - 1, 0)), '#k': k, '#v': vals, '#b': rng.randrange(2)}

                def got(it, e):
                    it.longest, it.steps = 1 << 14, 1 << 20
                    if rand_:
                        # a generator that gives the same byte for ever
                        it.calls = {**it.calls, 'random': lambda it_, *a: (255 * e['#b'],) * (1 << 14), 'rand': lambda it_, *a: 255 * e['#b']}
                    return int(bool(it.run(x['ret'], e)))

                def want(it, e):
                    if rand_:
                        return e['#b']
                    return int(bool(e['#v'][given][e['at']])) if given is not None else 0
                what = 'every bit is drawn from the generator' if rand_ else 'the bits are the given values' if given is not None else 'all bits are zero'
                its = TM.items(add(x['ret']))
                drawn = len(its) == 1 and its[0][1] == 1 and len(its[0][0]) == 1 and its[0][0][0][0].op == 'bit' and \
                    [u.a[0] for u in find_calls(its[0][0][0][0].a[0])] == ['random']
                if (drawn if rand_ else given is None and x['ret'] is ZERO):
                    return cx.ob(f'{f["name"]}: {what}', f, 'proved', show(x['ret']), rule='value-graph equality')
                cx.test(f'{f["name"]}: {what}', f, [('bit', got, want)], env, trials=200, rule='identity testing of one position')
            cx.attempt(f['name'], one_)
    cx.attempt('bits', bits)


def constants(t):
    """the whole numbers a graph mentions"""
    out, st, seen = set(), [t], set()
    while st:
        u = st.pop()
        if isinstance(u, (tuple, list)):
            st.extend(u)
        elif isinstance(u, T):
            if u in seen:
                continue
            seen.add(u)
            st.extend(u.a)
        elif isinstance(u, (int, F)) and not isinstance(u, bool) and u == int(u):
            out.add(int(u))
    return sorted(out)


def find_calls(t):
    out, st = [], [t]
    while st:
        u = st.pop()
        if isinstance(u, T):
            if u.op == 'call':
                out.append(u)
            elif u.op == 'idx' or u.op == 'poly':
                st.extend([u.a[0]] if u.op == 'idx' else [at for m, _ in TM.items(u) for at, _ in m])
            else:
                out.append(u)
    return out


def has_uninit(t):
    st, seen = [t], set()
    while st:
        u = st.pop()
        if isinstance(u, tuple):
            st.extend(u)
            continue
        if not isinstance(u, T) or u in seen:
            continue
        seen.add(u)
        if u.op == 'sym' and u.a[0] == 'uninit':
            return True
        st.extend(u.a)
    return False


def copyable(cx, t):
    if t[0] == 'prim':
        return True
    if t[0] == 'ref':
        return not t[1]
    return t[0] in ('ptr', 'fnptr')


def strip_(s):
    import eval as E
    return E.strip(s)
