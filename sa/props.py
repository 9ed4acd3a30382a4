"""registry of the properties"""
import json

import core

ALL = {}


def prop(pid, level, technique, floor, explanation):
    def deco(f):
        ALL[pid] = dict(run=f, level=level, technique=technique, floor=floor, explanation=explanation)
        return f
    return deco


def run(pid):
    d = ALL[pid]
    cx = core.Ctx(pid)
    cx.attempt('property', lambda: d['run'](cx))
    return verdict(cx, pid)


def resume(pid, log):
    """the verdict from what an analysis that had to be ended has recorded"""
    cx = core.Ctx(pid)
    try:
        with open(log) as fh:
            rows = [json.loads(x) for x in fh if x.endswith('\n')]
    except OSError:
        rows = []
    for o, where, detail, _, sites in rows:
        cx.obs.append(o)
        cx.sites = sites
        cx.fns.add(o['fn'])
        if o['verdict'] == 'refuted':
            cx.violations.append(dict(name=o['name'], where=where, detail=detail, rule=o['rule']))
    cx.fns.discard('')
    cx.obs.append(dict(name='property', fn='', verdict='open', rule='', detail='the analysis did not end in time'))
    return verdict(cx, pid)


def verdict(cx, pid):
    d = ALL[pid]
    decided = sum(o['verdict'] in ('proved', 'identical', 'refuted') for o in cx.obs)
    rc = core.finish(cx, d['level'], d['explanation'], d['technique'])
    if rc == 0 and decided < d['floor']:
        print(f'{pid}: only {decided} obligations were decided, {d["floor"]} are needed for a verdict')
        return 2
    return rc


import props_ann  # noqa: E402,F401
import props_sol  # noqa: E402,F401
import props_expr  # noqa
import props_model  # noqa
import props_comp  # noqa
import props_solve  # noqa
import props_mem  # noqa
import props_more  # noqa
