"""Methods a class of the package has from python-bitcointx stay those of python-bitcointx.

spec/inherited.json lists, per class, the methods that are found in the library when the class is
asked for them.  A method that is found in the package now is compared with the library's own as
the model, so that an override doing the same is accepted and another one is reported."""
import ast
import json
import os

FILE = 'inherited.json'


def baseline(world):
    r = getattr(world, '_inherited', None)
    if r is None:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', FILE)) as f:
            r = world._inherited = json.load(f)
    return r


def current(world):
    """{class: {method: defining library class}}"""
    out = {}
    for d in world.all_classes():
        if not world.is_repo(d.mod.name) or d.qual != d.mod.name + '.' + d.node.name:
            continue
        r = {}
        for b in world.mro(d)[1:]:
            if world.is_repo(b.mod.name):
                continue
            for n, v in b.members.items():
                if isinstance(v[-1], ast.FunctionDef):
                    x = world.lookup(d, n)
                    if x is not None and not world.is_repo(x[0].mod.name):
                        r[n] = x[0].mod.name + ':' + x[0].node.name
        if r:
            out[d.mod.name + ':' + d.node.name] = r
    return out


def facts(world, classes, names, skip):
    from .engine_check import Ob, decide
    from .interp import Interp
    for cq, meths in sorted(baseline(world).items()):
        mod, _, cn = cq.partition(':')
        if not classes(cn, mod):
            continue
        r = world.resolve(mod, cn) if world.module(mod) is not None else None
        if r is None or r[0] != 'class':
            continue            # a class that is needed is missed by its obligations
        for n, want in sorted(meths.items()):
            if names is not None and n not in names or n in skip:
                continue
            x = world.lookup(r[1], n)
            if x is None:
                yield 'bad', '%s.%s is gone, expected that of %s' % (cn, n, want)
                continue
            got = x[0].mod.name + ':' + x[0].node.name
            if n == '__hash__':
                # Python sets __hash__ to None in a class that defines only __eq__
                for b in world.mro(r[1]):
                    if n in b.members:
                        break
                    if world.is_repo(b.mod.name) and '__eq__' in b.members:
                        yield 'bad', '%s defines __eq__ and no __hash__: %s has none' % (b.node.name, cn)
                        break
            if not world.is_repo(x[0].mod.name):
                if got == want:
                    yield 'ok', ''
                else:
                    yield 'bad', '%s.%s comes from %s, expected %s' % (cn, n, got, want)
                continue
            if not isinstance(x[1], ast.FunctionDef):
                yield 'und', '%s.%s is set by %s' % (cn, n, got)
                continue
            key = (got, n, want, cq)
            memo = world.__dict__.setdefault('_inherit_memo', {})
            if key not in memo:
                Interp.follow = {want + '.' + n}
                memo[key] = decide(world, Ob(got + '.' + n, want + '.' + n, cls=cq), {})
                Interp.follow = frozenset()
            d = memo[key]
            where = '%s:%d %s.%s replaces that of %s' % (x[0].mod.path, x[1].lineno, x[0].node.name, n, want)
            if d.status == 'ok':
                yield 'ok', ''
            else:
                yield ('bad' if d.status == 'violation' else 'und',
                       '%s on %s: %s' % (where, cn, '; '.join(d.msgs[:3])))


def table(classes, names=None, skip=()):
    return [('custom', lambda world, it: facts(world, classes, names, skip))]
