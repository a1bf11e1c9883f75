"""Call-graph rules over the whole package."""
import ast

RAW = ('__setattr__', '__delattr__')
CTORS = ('__init__', '__new__', '__setstate__', '__init_subclass__')
IMMUTABLE = ['CConfidentialAsset', 'CConfidentialValue', 'CConfidentialNonce', 'CElementsOutPoint',
             'CElementsTxInWitness', 'CElementsTxOutWitness', 'CElementsTxWitness',
             'CAssetIssuance', 'CElementsTxIn', 'CElementsTxOut', 'CElementsTransaction']


def functions(world):
    """(module, class name or '', function node) of the whole package"""
    for mn in world.repo_modules():
        m = world.module(mn)
        if m is None:
            continue

        def walk(node, cls, m=m):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.ClassDef):
                    yield from walk(c, c.name)
                elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, cls, c
                    yield from walk(c, cls)
                elif not isinstance(c, ast.expr):
                    yield from walk(c, cls)
        yield from walk(m.tree, '')


def own_nodes(fn):
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield n
        st.extend(ast.iter_child_nodes(n))


def raw_setattr(world, it):
    """object.__setattr__ / object.__delattr__ bypass immutability: only constructors, and
    helpers called from nothing but constructors, may use them, on the object being built."""
    out = []
    fns = list(functions(world))
    uses = {}
    callers = {}
    n = 0
    for m, cls, fn in fns:
        for x in own_nodes(fn):
            if isinstance(x, ast.Call):
                f = x.func
                name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) \
                    else None
                callers.setdefault(name, set()).add(fn.name)
            if isinstance(x, ast.Attribute) and x.attr in RAW and isinstance(x.value, ast.Name) \
                    and x.value.id == 'object':
                uses.setdefault((m.name, cls, fn.name), []).append((m, x.lineno))
                n += 1
            if isinstance(x, ast.Attribute) and x.attr == '__dict__' and \
                    isinstance(x.ctx, ast.Load):
                out.append(('und', '__dict__ used at %s:%d' % (m.path, x.lineno)))
    safe = set(CTORS)
    change = True
    names = {fn.name for _, _, fn in fns}
    while change:
        change = False
        for f in names - safe:
            c = callers.get(f)
            if c and c <= safe and f.startswith('_'):
                safe.add(f)
                change = True
    for (mn, cls, fname), locs in sorted(uses.items()):
        if fname not in safe:
            for m, ln in locs:
                out.append(('bad', 'immutability bypassed outside construction: %s in %s.%s (%s:%d)'
                            % ('object.__setattr__', cls or mn, fname, m.path, ln)))
        else:
            out.extend([('ok', '')] * len(locs))
    return out


def lib_attrs(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.Attribute) and x.attr.startswith('secp256k1_'):
            yield x


def declared(world, it):
    """every function of the cryptographic library that is called has a declared prototype: one of
    those `_set_zkp_func_types` sets (compared with spec/ffi_table.py by the obligation on it), or
    one python-bitcointx declares for the same handle"""
    known = {x.attr for x in lib_attrs(world.module('spec.ffi_table').tree)}
    for x in ast.walk(world.module('bitcointx.core.secp256k1').tree):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Attribute) and t.attr == 'argtypes' and isinstance(t.value, ast.Attribute):
                    known.add(t.value.attr)
    out = []
    for m, cls, fn in functions(world):
        for x in own_nodes(fn):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr.startswith('secp256k1_'):
                ok = x.func.attr in known
                out.append(('ok', '') if ok else (
                    'bad', 'library function without a declared prototype called: %s in %s (%s:%d)'
                    % (x.func.attr, fn.name, m.path, x.lineno)))
    return out


DECLARED = [('custom', declared)]
FACTS = [('custom', raw_setattr)] + [
    f for c in IMMUTABLE for f in (
        ('comes_from', 'elementstx.core:' + c, '__setattr__',
         'bitcointx.core.serialize.ImmutableSerializable'),
        ('comes_from', 'elementstx.core:' + c, '__delattr__',
         'bitcointx.core.serialize.ImmutableSerializable'))]
