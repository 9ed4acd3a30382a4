"""Run the compiler driver over /repo's current tree and load its typed IR."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RQ_REPO', '/repo')
CACHE = os.environ.get('RQ_CACHE', os.path.join(VERIF, '.cache'))
CRATES = ('annealers', 'classical_solver', 'rustqubo')
DRV = os.path.join(VERIF, 'driver')
BIN = os.path.join(DRV, 'target', 'release', 'rqdump')


class BuildError(Exception):
    pass


def sources():
    out = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ('target', '.git'))
        for f in sorted(fs):
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock'):
                out.append(os.path.join(root, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in sources():
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    for p in (os.path.join(DRV, 'src', 'main.rs'), os.path.join(DRV, 'Cargo.toml')):
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def sysroot():
    rc, o = run(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise BuildError('no nightly toolchain: ' + o)
    return o.strip()


def build_driver():
    newest = max(os.path.getmtime(os.path.join(DRV, p)) for p in ('src/main.rs', 'Cargo.toml'))
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= newest:
        return
    rc, o = run(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=DRV)
    if rc or not os.path.exists(BIN):
        raise BuildError('driver build failed:\n' + o[-4000:])
    os.utime(BIN)


def locks():
    """the crates' lock files are git-ignored: put back the ones the sandbox ships when missing"""
    for name, sub in (('annealers', 'annealers'), ('classical_solver', 'classical_solver'), ('repo', '')):
        dst = os.path.join(REPO, sub, 'Cargo.lock')
        src = f'/opt/vp/locks/{name}.lock'
        if not os.path.exists(dst) and os.path.exists(src):
            shutil.copy(src, dst)


def dump():
    """write <crate>.json for the current tree; returns the directory"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        locks()
        out = os.path.join(CACHE, 'dump')
        stamp = os.path.join(out, 'tree')
        th = tree_hash()
        if os.path.exists(stamp) and open(stamp).read() == th and \
                all(os.path.exists(os.path.join(out, c + '.json')) for c in CRATES):
            return out
        build_driver()
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
        target = os.path.join(CACHE, 'target')
        env = {'LD_LIBRARY_PATH': sysroot() + '/lib', 'RUSTC_WRAPPER': BIN, 'RQDUMP_OUT': out,
               'CARGO_TARGET_DIR': target, 'PYO3_PYTHON': '/usr/bin/python3', 'CARGO_INCREMENTAL': '0',
               'RUSTFLAGS': ''}
        o = ''
        for attempt in (0, 1):
            b = os.path.join(target, 'debug', 'build')
            for c in CRATES:
                shutil.rmtree(os.path.join(b, c), ignore_errors=True)
            if attempt:
                shutil.rmtree(target, ignore_errors=True)
            rc, o = run(['cargo', '+nightly', 'check', '--offline', '--lib'], env=env, cwd=REPO)
            if rc:
                raise BuildError('the tree does not compile:\n' + o[-4000:])
            if all(os.path.exists(os.path.join(out, c + '.json')) for c in CRATES):
                break
        else:
            raise BuildError('the driver wrote no dump:\n' + o[-2000:])
        with open(stamp, 'w') as f:
            f.write(th)
        return out


# ------------------------------------------------------------------ types
def ty(j):
    if j is None:
        return ('other', '?')
    k = j['k']
    if k in ('adt', 'proj', 'fndef'):
        return (k, j.get('n'), tuple(ty(x) for x in j.get('a', ())))
    if k in ('prim', 'param', 'closure'):
        return (k, j.get('n'))
    if k == 'ref':
        return ('ref', bool(j.get('mut')), ty(j['e']))
    if k in ('slice', 'ptr'):
        return (k, ty(j['e']) if 'e' in j else None)
    if k == 'array':
        return ('array', ty(j['e']), str(j.get('len', j.get('n'))))
    if k == 'tuple':
        return ('tuple', tuple(ty(x) for x in j['e']))
    return ('other', j.get('s') or j.get('n') or '?')


def tsub(t, sb):
    if not sb:
        return t
    k = t[0]
    if k == 'param':
        return sb.get(t[1], t)
    if k in ('adt', 'proj', 'fndef'):
        return (k, t[1], tuple(tsub(x, sb) for x in t[2]))
    if k == 'ref':
        return ('ref', t[1], tsub(t[2], sb))
    if k in ('slice', 'ptr'):
        return (k, tsub(t[1], sb)) if t[1] else t
    if k == 'array':
        return ('array', tsub(t[1], sb), t[2])
    if k == 'tuple':
        return ('tuple', tuple(tsub(x, sb) for x in t[1]))
    return t


def unify(pat, t, names, sb):
    """one-way matching of an impl header against a type"""
    k = pat[0]
    if k == 'param' and pat[1] in names:
        if pat[1] in sb:
            return sb[pat[1]] == t
        sb[pat[1]] = t
        return True
    if k == 'proj':
        return True  # checked by rustc; projections do not drive selection here
    if k != t[0]:
        return False
    if k in ('adt', 'fndef'):
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify(a, b, names, sb) for a, b in zip(pat[2], t[2]))
    if k == 'ref':
        return pat[1] == t[1] and unify(pat[2], t[2], names, sb)
    if k in ('slice', 'ptr'):
        return unify(pat[1], t[1], names, sb)
    if k == 'array':
        return unify(pat[1], t[1], names, sb)
    if k == 'tuple':
        return len(pat[1]) == len(t[1]) and all(unify(a, b, names, sb) for a, b in zip(pat[1], t[1]))
    return pat == t


def short(name):
    return name.split('::')[-1]


class Program:
    def __init__(self, d):
        self.fns, self.adts, self.impls = {}, {}, []
        for c in CRATES:
            j = json.load(open(os.path.join(d, c + '.json')))
            for f in j['fns']:
                f['crate'] = c
                self.fns[f['id']] = f
            for a in j['adts']:
                a['crate'] = c
                self.adts[a['id']] = a
            for i in j['impls']:
                i['crate'] = c
                i['_self'] = ty(i['self_ty'])
                i['_targs'] = tuple(ty(x) for x in i.get('trait_args', []))
                i['_items'] = {x['n']: x for x in i['items']}
                self.impls.append(i)
        self.by_trait = {}
        for i in self.impls:
            self.by_trait.setdefault(i.get('trait'), []).append(i)
        self._norm = {}

    # ---- lookup used by the checks: by crate, type, trait and method name, never by impl number
    def find(self, name, self_adt=None, trait=None, crate=None, in_trait=None, targs=None):
        out = []
        for f in self.fns.values():
            if f['name'] != name or f['kind'] not in ('Fn', 'AssocFn'):
                continue
            if crate and f['crate'] != crate:
                continue
            if in_trait is not None and short(f.get('in_trait', '')) != in_trait:
                continue
            if self_adt is not None:
                s = ty(f['self_ty']) if f.get('self_ty') else None
                if s is None:
                    continue
                n = short(s[1]) if s[0] == 'adt' else (s[1] if s[0] == 'prim' else None)
                if n != self_adt:
                    continue
            if trait is not None and short(f.get('trait', '')) != trait:
                continue
            if trait is None and self_adt is not None and f.get('trait'):
                continue
            out.append(f)
        return out

    def adt(self, name):
        r = [a for a in self.adts.values() if short(a['id']) == name]
        return r[0] if r else None

    def select(self, trait, self_ty, targs=None):
        """the impl of a local or foreign trait for a type, with its substitution"""
        for i in self.by_trait.get(trait, []):
            names = set(i['generics'])
            sb = {}
            if not unify(i['_self'], self_ty, names, sb):
                continue
            if targs is not None and len(targs) == len(i['_targs']):
                sb2 = dict(sb)
                if not all(unify(a, b, names, sb2) for a, b in zip(i['_targs'], targs)):
                    continue
                sb = sb2
            if i['_self'][0] == 'param' and not self.holds(i, sb, self_ty):
                continue
            return i, sb
        return None

    def holds(self, imp, sb, self_ty):
        """trait bounds of a blanket impl, decided over the local traits"""
        for p in imp['preds']:
            a = [tsub(ty(x), sb) for x in p['args']]
            if not a or a[0] != self_ty:
                continue
            tr = p['trait']
            if tr in self.by_trait and any(tr.startswith(c + '::') for c in CRATES):
                if self_ty[0] in ('param', 'proj'):
                    return False
                if tr == imp.get('trait'):
                    return False
                if not self.select(tr, self_ty):
                    return False
        return True

    def norm(self, t):
        """normalise associated-type projections with the impls of the three crates"""
        r = self._norm.get(t)
        if r is not None:
            return r
        k = t[0]
        r = t
        if k == 'proj':
            a = tuple(self.norm(x) for x in t[2])
            tr, _, nm = t[1].rpartition('::')
            r = ('proj', t[1], a)
            if a and a[0][0] not in ('param', 'proj'):
                s = self.select(tr, a[0], a if len(a) > 1 else None)
                if s and nm in s[0]['_items'] and s[0]['_items'][nm].get('ty'):
                    r = self.norm(tsub(ty(s[0]['_items'][nm]['ty']), s[1]))
        elif k in ('adt', 'fndef'):
            r = (k, t[1], tuple(self.norm(x) for x in t[2]))
        elif k == 'ref':
            r = ('ref', t[1], self.norm(t[2]))
        elif k == 'slice':
            r = ('slice', self.norm(t[1]))
        elif k == 'array':
            r = ('array', self.norm(t[1]), t[2])
        elif k == 'tuple':
            r = ('tuple', tuple(self.norm(x) for x in t[1]))
        self._norm[t] = r
        return r


def tshow(t):
    k = t[0]
    if k in ('prim', 'param', 'closure'):
        return t[1]
    if k == 'adt':
        return short(t[1]) + ('<' + ','.join(tshow(x) for x in t[2]) + '>' if t[2] else '')
    if k == 'proj':
        return '<' + ','.join(tshow(x) for x in t[2]) + '>::' + short(t[1])
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + tshow(t[2])
    if k == 'slice':
        return '[' + tshow(t[1]) + ']'
    if k == 'array':
        return '[' + tshow(t[1]) + ';' + str(t[2]) + ']'
    if k == 'tuple':
        return '(' + ','.join(tshow(x) for x in t[1]) + ')'
    return str(t)


def load():
    return Program(dump())


if __name__ == '__main__':
    try:
        p = load()
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(len(p.fns), 'bodies', len(p.adts), 'types', len(p.impls), 'impls')
