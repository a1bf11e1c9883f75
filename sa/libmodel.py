"""Models of the library surface the analysed code uses: the Python builtins,
struct / hashlib / hmac / ctypes / io, the python-bitcointx primitives and the
libsecp256k1-zkp entry points (by argument direction).  Everything returns None
for "no model": the interpreter then keeps the call uninterpreted."""
import ast
import json
import os
import struct
from .terms import (T, C, TRUE, FALSE, NONE, UNDEF, Term, Node, is_const, cval, apply, ite,
                    b_and, b_or, b_not, bvar, leaf_terms, leaves, constrain)
from . import values as V
from .values import (kind, norm_bool, truth, eq, lt, le, mkseq, items_of, concat, EMPTY,
                     length, mk_index, mk_slice, idx_of, icval, as_int, SEQK)
from .loader import ClassInfo

STATE_VARS = set()

E = 'elementstx.core.'

# ---------------------------------------------------------------- kind tables

V.ATTR_KIND.update({
    'nSequence': 'int', 'nLockTime': 'int', 'nVersion': 'int', 'n': 'int', 'amount': 'int',
    '_data_length': 'int', 'blech32_witness_version': 'int', 'bech32_witness_version': 'int',
    '_explicitSize': 'int', '_committedSize': 'int', '_prefixA': 'int', '_prefixB': 'int',
    'hash': 'bytes', 'commitment': 'bytes', 'data': 'bytes', 'scriptPubKey': 'bytes',
    'scriptSig': 'bytes', 'issuanceAmountRangeproof': 'bytes', 'inflationKeysRangeproof': 'bytes',
    'surjectionproof': 'bytes', 'rangeproof': 'bytes', 'secret_bytes': 'bytes',
    'base58_prefix': 'bytes', 'blinding_pubkey': 'bytes',
    'vin': 'list', 'vout': 'list', 'vtxinwit': 'list', 'vtxoutwit': 'list', 'stack': 'list',
    'is_pegin': 'bool', 'blech32_hrp': 'str', 'bech32_hrp': 'str',
    'assetBlindingNonce': None, 'assetEntropy': None, 'exp': 'int', 'mantissa': 'int',
    'value_min': 'int', 'value_max': 'int', '__name__': 'str',
    'num_successfully_blinded': 'int', 'input_type': 'int', 'output_type': 'int',
    'error': 'str',
})
V.UNSIGNED_ATTRS.update({'nSequence', 'nLockTime', 'n', '_data_length', '_explicitSize',
                         '_committedSize', '_prefixA', '_prefixB'})
V.METH_KIND.update({k: 'bool' for k in (
    'is_null', 'is_explicit', 'is_commitment', 'is_valid', 'is_fee', 'is_fullyvalid',
    'is_nonempty', 'is_mutable', 'is_immutable', 'is_unspendable', 'is_coinbase', 'has_witness',
    'is_witness_scriptpubkey', 'is_witness_v0_nested_scripthash', 'is_confidential',
    'is_p2sh', 'is_p2pkh', 'is_p2wpkh', 'is_p2wsh', 'is_pegout', 'is_compressed',
    'is_push_only', 'is_witness_v0_keyhash', 'is_witness_v0_scripthash', 'startswith',
    'endswith', 'isdigit')})
V.METH_KIND.update({'to_amount': 'int', 'ECDH': 'bytes', 'serialize': 'bytes', 'GetHash': 'bytes',
                    'rfind': 'int', 'find': 'int', 'count': 'int', 'hex': 'str', 'lower': 'str',
                    'upper': 'str', 'decode': 'str', 'encode': 'bytes', 'strip': 'str',
                    'witness_version': 'int', 'get_output_size': 'int', 'num_issuances': 'int',
                    'get_bytes_prefix': 'bytes', 'format': 'str',
                    'to_comm_secp256k1itment': 'bytes'})
V.CALL_KIND.update({
    'bitcointx.util.dispatcher_mapped_list': 'list',
    'bitcointx.core.bytes_repr': 'str', 'bitcointx.core.b2x': 'str',
    'bitcointx.core.b2lx': 'str', 'bitcointx.core.serialize.bytes_repr': 'str',
    'bitcointx.core.MoneyRange': 'bool', 'bitcointx.core.key.Hash160': 'bytes',
    'bitcointx.core.serialize.Hash160': 'bytes', 'bitcointx.core.Hash160': 'bytes',
    'elementstx.core.blinded_asset': 'tuple', 'elementstx.core.create_value_commitment': 'tuple',
    'elementstx.core.generate_rangeproof': 'bytes',
    'elementstx.core.generate_output_rangeproof_nonce': 'tuple',
    'elementstx.core.secp256k1.build_aligned_data_array': 'bytes',
    'elementstx.blech32.blech32_polymod': 'int',
    'elementstx.blech32.blech32_verify_checksum': 'bool',
})
V.CALL_TUPLE.update({'elementstx.liquid_addr.decode': 2, 'elementstx.liquid_addr.blech32_decode': 3,
                     'elementstx.core.blinded_asset': 2, 'elementstx.core.create_value_commitment': 2})
V.NONNULL_CALLS.update('elementstx.core.' + n for n in (
    'calculate_asset', 'calculate_reissuance_token', 'generate_asset_entropy'))
V.INT_REFS.update({
    'bitcointx.core.script.SIGVERSION_BASE': 0,
    'bitcointx.core.script.SIGVERSION_WITNESS_V0': 1,
    'bitcointx.core.script.SIGVERSION_TAPROOT': 2,
    'bitcointx.core.script.SIGVERSION_TAPSCRIPT': 3,
    'bitcointx.core.script.SIGHASH_ALL': 1, 'bitcointx.core.script.SIGHASH_NONE': 2,
    'bitcointx.core.script.SIGHASH_SINGLE': 3, 'bitcointx.core.script.SIGHASH_ANYONECANPAY': 0x80,
    'bitcointx.core.secp256k1.SECP256K1_GENERATOR_SIZE': 64,
    'bitcointx.core.secp256k1.SECP256K1_PEDERSEN_COMMITMENT_SIZE': 64,
})

BYTES_CLASS_NAMES = {'CElementsScript', 'CScript', 'CPubKey', 'XOnlyPubKey', 'CTaprootScript',
                     'CBitcoinScript'}
UINT_NAMES = {'Uint256', 'CAsset', 'uint256'}

_kind0 = V.kind


def _cls_name(t):
    if type(t) is Term and t.op == 'ref':
        return t.args[0].rpartition('.')[2]
    return None


def _arg(t, name=None, i=0):
    """argument of a 'new' term"""
    for j, (k, v) in enumerate(t.args[1]):
        if k == name or (name is None and j == i):
            return v
    return None


V.NEW_BYTES = lambda t: _cls_name(t.args[0]) in BYTES_CLASS_NAMES


PURE_METHODS = set(V.METH_KIND) | {
    'from_instance', 'to_immutable', 'to_mutable', 'clone', 'to_uncompressed', 'GetTxid'}


def is_pure_call(l):
    if l.op == 'mcall':
        return l.args[1] in PURE_METHODS
    if l.op == 'call' and l.args[0].op == 'ref':
        return l.args[0].args[0].startswith('builtins.')
    return False


def ffi_effect(l):
    return False


def is_failure_cls(interp, ci):
    return interp.w.is_subclass(ci, E + 'BlindingOrUnblindingFailure')


def is_failure(interp, l):
    if l.args[0].op != 'ref':
        return False
    ci = interp.find_class(l.args[0].args[0])
    return ci is not None and is_failure_cls(interp, ci)


def v_min(n, m):
    def f(a, b):
        ca, cb = icval(a), icval(b)
        if ca is not None and cb is not None:
            return C(min(ca, cb))
        if a is b:
            return a
        d = V.add_leaf(a, b, -1)
        lo, hi = V.bounds(d)
        if lo is not None and lo >= 0:
            return b
        if hi is not None and hi <= 0:
            return a
        s = sorted((a, b), key=lambda t: t.id)
        return T('min', *s)
    return apply(f, n, m)


def v_max(n, m):
    def f(a, b):
        ca, cb = icval(a), icval(b)
        if ca is not None and cb is not None:
            return C(max(ca, cb))
        if a is b:
            return a
        s = sorted((a, b), key=lambda t: t.id)
        return T('max', *s)
    return apply(f, n, m)


# ---------------------------------------------------------------- attributes

def addr_attr(it, l, name):
    k = l.args[1]
    c = it.content(l)
    if k == 'cint' and name == 'value':
        return c
    if k == 'buf':
        if name == 'raw':
            return c
        if name == 'value':
            return apply(lambda x: T('cstr', x), c)
    return None


def addr_setattr(it, l, name, v):
    k = l.args[1]
    if k == 'cint' and name == 'value' or k == 'buf' and name in ('raw', 'value'):
        it.setcontent(l, it.deref(v))
        return True
    return False


def uint_data(l):
    """bytes of a Uint256-like record"""
    if l.op == 'new' and _cls_name(l.args[0]) in UINT_NAMES:
        a = _arg(l)
        if a is None:
            return C(b'\0' * 32)
        if type(a) is Term and kind(a) in ('bytes', None):
            return a
        if type(a) is Term:
            return a
    return None


def term_attr(it, l, name):
    if l.op == 'new':
        if name == 'data':
            r = uint_data(l)
            if r is not None:
                return r
        cn = _cls_name(l.args[0])
        if cn in ('SIGHASH_Type',) and name in ('input_type', 'output_type'):
            return V.bitand(_arg(l), C(0x80 if name == 'input_type' else ~0x80))
        if l.args[0].op == 'ref':
            ci = it.find_class(l.args[0].args[0])
            if ci is not None:
                r = it.w.lookup(ci, name)
                if r is not None and not isinstance(r[1], ast.FunctionDef):
                    return it.class_attr(ci, name)
    if name in ('output_type', 'input_type') and l.op in ('param', 'mcall', 'call', 'attr'):
        return V.bitand(l, C(0x80 if name == 'input_type' else ~0x80)) \
            if kind(l) == 'int' else None
    if name == '__dict__':
        return it.unknown('__dict__')
    # a property that is not part of the baseline vocabulary
    h = newhelper(it, name, prop=True)
    if h is not None:
        owner, node = h
        return it.call_func(owner.mod, node, owner, [l], {}, node, None)
    return None


def ext_attr(it, q, name):
    return None


def named_fields(it, ci):
    for c in it.w.mro(ci):
        for b in c.node.bases:
            if isinstance(b, ast.Call):
                fn = b.func
                nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, 'attr', '')
                if nm == 'NamedTuple' and len(b.args) > 1 and isinstance(b.args[1], ast.List):
                    return [x.elts[0].value for x in b.args[1].elts]
            elif (isinstance(b, ast.Name) and b.id == 'NamedTuple') or \
                    (isinstance(b, ast.Attribute) and b.attr == 'NamedTuple'):
                return [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign)]
    if it.has_deco(ci.node, 'dataclass') or any(
            isinstance(d, ast.Call) and getattr(d.func, 'attr', getattr(d.func, 'id', '')) ==
            'dataclass' for d in ci.node.decorator_list):
        out = []
        for c in reversed(it.w.mro(ci)):
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and \
                        s.target.id not in out and 'ClassVar' not in ast.dump(s.annotation):
                    out.append(s.target.id)
        return out
    return None


def functional_fields(it, q):
    """fields of X = NamedTuple('X', [...])"""
    m, _, n = q.rpartition('.')
    r = it.w.resolve(m, n) if m else None
    if r is not None and r[0] == 'assign':
        v = getattr(r[2][-1], 'value', None)
        if isinstance(v, ast.Call):
            fn = v.func
            nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, 'attr', '')
            if nm == 'NamedTuple' and len(v.args) > 1 and isinstance(v.args[1], (ast.List, ast.Tuple)):
                return [x.elts[0].value for x in v.args[1].elts]
            if nm == 'namedtuple' and len(v.args) > 1:
                try:
                    x = ast.literal_eval(v.args[1])
                    return x.replace(',', ' ').split() if isinstance(x, str) else list(x)
                except ValueError:
                    return None
    return None


def record_fields(it, ci):
    f = named_fields(it, ci)
    if f is not None:
        return set(f)
    if any(c.node.name == 'COutPoint' for c in it.w.mro(ci)):
        return {'hash', 'n'}
    return set()


def ctor_node(it, ci):
    r = it.w.lookup(ci, '__init__')
    if r is not None and isinstance(r[1], ast.FunctionDef):
        return r
    r = it.w.lookup(ci, '__new__')
    if r is not None and isinstance(r[1], ast.FunctionDef):
        return r
    return None


def bind_named(it, fields, pos, kw):
    out = {}
    for f, v in zip(fields, pos):
        out[f] = v
    out.update(kw)
    return tuple((f, it.deref(out[f])) for f in fields if f in out) + \
        tuple((k, it.deref(out[k])) for k in sorted(out) if k not in fields)


def bind_ctor(it, ci, pos, kw, e):
    f = named_fields(it, ci)
    if f is not None:
        return bind_named(it, f, pos, kw)
    r = ctor_node(it, ci)
    if r is None:
        return tuple((str(i), it.deref(p)) for i, p in enumerate(pos)) + \
            tuple((k, it.deref(kw[k])) for k in sorted(kw))
    owner, node = r
    if node.args.vararg is not None and not [a for a in node.args.args[1:]]:
        return tuple((str(i), it.deref(p)) for i, p in enumerate(pos)) + \
            tuple((k, it.deref(kw[k])) for k in sorted(kw))
    return it.bind_opaque(node, pos, kw, True)


def construct(it, l, ci, bound, e):
    cn = ci.node.name
    if cn == 'CSHA256' and not bound:
        return it.addr('csha', C(b''))
    if cn in UINT_NAMES:
        if len(bound) == 1:
            def f(v):
                if kind(v) == 'bytes' and is_const(v) and cval(v) == b'\0' * 32:
                    return T('new', l, ())
                return T('new', l, ((bound[0][0], v),))
            return it.implicit(apply(f, bound[0][1]), e)
    if cn in ('SIGHASH_Type', 'SIGVERSION_Type') and len(bound) == 1 and \
            not it.w.is_repo(ci.mod.name):
        return bound[0][1] if cn == 'SIGVERSION_Type' else it.lift(lambda b: T('new', l, b), bound)
    if cn in BYTES_CLASS_NAMES and len(bound) == 1:
        def g(v):
            if is_const(v) and cval(v) == b'':
                return T('new', l, ())
            return T('new', l, ((bound[0][0], v),))
        return it.implicit(apply(g, bound[0][1]), e)
    return None


# ---------------------------------------------------------------- streams

def spos(it, f):
    c = it.st.d.get(('h', f.id))
    if c is None:
        it.addr_terms[f.id] = f
        return T('stream0', f)

    def g(x):
        if x.op in ('stream0', 'adv', 'mu', 'car', 'fold', 'col0'):
            return x
        if f.op == 'addr':
            return T('stream0', x)
        return x
    return apply(g, c)


def stream_read(it, f, n, op='rdb'):
    pos = spos(it, f)

    def rd(p, k):
        if icval(k) == 0:
            return C(b'')
        return T(op, p, k)

    def adv(p, k):
        if icval(k) == 0:
            return p
        return T('adv', p, k)
    r = apply(rd, pos, n)
    it.setcontent(f, apply(adv, pos, n))
    return r


def stream_write(it, f, v):
    c = it.st.d.get(('h', f.id))
    if c is None:
        it.addr_terms[f.id] = f
        c = T('stream0', f)
    v = to_bytes_v(it, v)
    it.setcontent(f, apply(lambda s, x: concat('b', [s, x]), c, v))
    return NONE


def to_bytes_v(it, v):
    def f(l):
        if l.op == 'addr':
            return it.content(l)
        return l
    v = apply(f, v) if type(v) is Node else f(v)
    return as_bytes(it.deref(v))


def as_bytes(v):
    """payload bytes of bytes-like records"""
    def f(l):
        if l.op == 'new' and _cls_name(l.args[0]) in BYTES_CLASS_NAMES:
            a = _arg(l)
            if a is None:
                return C(b'')
            if type(a) is Term and kind(a) == 'bytes':
                return f(a)
        return l
    return apply(f, v)


def is_stream(it, f):
    return f.op == 'addr' and f.args[1] == 'bio' or (
        f.op == 'param' and f.args[1:2] == ('stream',))


def is_hash_sink(f):
    return f.op == 'addr' and f.args[1] in ('bio',)


def ser_items(it, x, opts):
    """bytes value produced by x.serialize(**opts) / x.stream_serialize(f, **opts)"""
    def f(l):
        if l.op == 'new' and _cls_name(l.args[0]) in UINT_NAMES:
            return uint_data(l)
        if is_outpoint(it, l):
            h = it.getattr_leaf(l, 'hash', None)
            n = it.getattr_leaf(l, 'n', None)
            return apply(lambda a, b: mkseq('b', items_of('b', a) + [enc('<I', b)]), h, n)
        o = tuple(sorted(opts.items()))
        if not o:
            return T('ser', l, ())
        return apply(lambda *vs: T('ser', l, tuple((k, v) for (k, _), v in zip(o, vs))),
                     *[v for _, v in o])
    return apply(f, it.deref(x))


def is_outpoint(it, l):
    if l.op == 'attr' and l.args[1] == 'prevout':
        return True
    if l.op == 'new' and l.args[0].op == 'ref' and l.args[0].args[0].endswith('OutPoint'):
        return True
    ci = it.self_cls.get(l.id)
    return ci is not None and any(c.node.name == 'COutPoint' for c in it.w.mro(ci)) and False


def enc(fmt, v):
    return T('enc', fmt, v)


def csize(n):
    """compact size item(s)"""
    c = icval(n)
    if c is not None and 0 <= c < 253:
        return C(bytes([c]))
    return T('csize', n)


def ser_bytes(v):
    return apply(lambda x: mkseq('b', [csize(V.length_leaf(x))] + items_of('b', x)),
                 apply(lambda q: q, as_bytes(v))) if True else None


def ser_bytes_v(v):
    v = as_bytes(v)
    ln = length(v)
    return apply(lambda x, n: mkseq('b', [csize(n)] + items_of('b', x)), v, ln)


def ser_vector(it, lst, opts):
    lst = it.iterable_seq(lst)

    def f(l):
        n, el = it.iter_of(l)
        head = apply(lambda k: mkseq('b', [csize(k)]), n)

        def g(k):
            c = icval(k)
            if c is not None and 0 <= c <= 32:
                parts = [ser_items(it, el(C(i)), opts) for i in range(c)]
                return apply(lambda *ps: concat('b', list(ps)), *parts) if parts else C(b'')
            rng = T('rng', k)
            bv = ser_items(it, el(idx_of(rng)), opts)
            return mkseq('b', [T('each', rng, bv)])
        body = apply(g, n)
        return apply(lambda a, b: concat('b', [a, b]), head, body)
    return apply(f, lst)


# ---------------------------------------------------------------- struct

def st_pack(it, fmt, args):
    if not (type(fmt) is Term and is_const(fmt)):
        return None
    s = cval(fmt)
    if isinstance(s, bytes):
        s = s.decode()
    pre = s[0] if s[:1] in '<>=!@' else ''
    body = s[len(pre):]
    if not all(c in 'BHIQbhiqxc' for c in body) or len(body) != len(args):
        if body[:-1].isdigit() and body.endswith('s') and len(args) == 1:
            return None
        return None

    def f(*vs):
        items = []
        for c, v in zip(body, vs):
            fm = (pre + c) if c not in 'Bbc' else c
            if pre == '!' and fm[0] == '!':
                fm = '>' + fm[1:]
            # range errors are implicit; record the admitted range
            items.append(enc(fm, v))
        return mkseq('b', items)
    return apply(f, *[it.deref(a) for a in args])


def st_unpack(it, fmt, b):
    if not (type(fmt) is Term and is_const(fmt)):
        return None
    s = cval(fmt)
    if isinstance(s, bytes):
        s = s.decode()
    pre = s[0] if s[:1] in '<>=!@' else ''
    body = s[len(pre):]
    if not all(c in 'BHIQbhiq' for c in body):
        return None

    def f(x):
        out = []
        off = 0
        for c in body:
            fm = (pre + c) if c not in 'Bb' else c
            n = struct.calcsize(fm)
            piece = x if len(body) == 1 else V.slice_leaf(x, C(off), C(off + n))
            off += n
            if c == 'B':
                out.append(T('el', V.index_leaf(piece, C(0))))
            else:
                out.append(T('el', decode(fm, piece)))
        return mkseq('t', out)
    return apply(f, to_bytes_v(it, b))


def decode(fm, piece):
    if is_const(piece):
        try:
            return C(struct.unpack(fm, cval(piece))[0])
        except struct.error:
            pass
    if piece.op == 'seq' and len(piece.args) == 2 and piece.args[1].op == 'enc' and \
            piece.args[1].args[0] == fm:
        return piece.args[1].args[1]
    return T('dec', fm, piece)


# ---------------------------------------------------------------- hashes

def digest(alg, x):
    return apply(lambda l: T('digest', alg, l), as_bytes(x))


def hash_obj(it, alg, init):
    a = it.addr('hash', C(b'') if init is None else to_bytes_v(it, init))
    HALG[a.id] = alg
    return a


HALG = {}


def callable_bytes(it, f, arg, e):
    return it.split(f, lambda l: it.call_value(l, [arg], {}, e))


# ---------------------------------------------------------------- calls on terms

def call_term(it, l, pos, kw, e):
    if l.op == 'thasher':
        return apply(lambda d: T('digest', 'tagged', l.args[0], d), to_bytes_v(it, pos[0]))
    if l.op == 'ctarr':
        if pos:
            if len(pos) == 1 and type(pos[0]) is Term and pos[0].op == 'star':
                return it.split(it.iterable_seq(pos[0].args[0]), lambda x: it.addr('list', x))
            return it.addr('list', mkseq('l', [T('el', it.deref(p)) for p in pos]))
        n = l.args[1]
        ct = l.args[0].args[0] if l.args[0].op == 'ref' else ''
        zero = NONE if ct.endswith('_p') else C(0)
        return it.addr('list', T('seq', 'l', T('each', T('rng', n), mkseq('l', [T('el', zero)]))))
    if l.op == 'param' and l.args[0] == '_rand_func' or l.op == 'ref' and l.args[0] == 'os.urandom':
        return fresh(it, l, pos)
    if l.op == 'refcall':
        return it.call_value(l.args[0], pos, kw, e)
    return None


def fresh(it, l, pos):
    n = it.deref(pos[0]) if pos else C(0)
    ch = it.chain[-1] if it.chain else NONE
    k = V.add(it.st.d.get(('nf',), C(0)), C(1))
    it.st.d[('nf',)] = k
    return apply(lambda x, *ks: T('fresh', l, x, tuple(ks), ch), n, *(it.nfstack + [k]))


# ---------------------------------------------------------------- functions

BIND = {}


def _exc(q):
    return q


def isinst(it, v, cls):
    """truth of isinstance(v, cls)"""
    names = class_list(cls)
    if names is None:
        return norm_bool(it.unknown('isinstance class'))

    def f(l):
        r = FALSE
        for c in names:
            r = b_or(r, isinst1(it, l, c))
        return r
    return apply(f, v)


def class_list(cls):
    out = []
    if type(cls) is Node:
        return None
    if cls.op == 'seq':
        for i in cls.args[1:]:
            if i.op != 'el':
                return None
            x = class_list(i.args[0])
            if x is None:
                return None
            out.extend(x)
        return out
    return [cls]


PYKIND = {'builtins.int': 'int', 'builtins.bytes': 'bytes', 'builtins.str': 'str',
          'builtins.bool': 'bool', 'builtins.tuple': 'tuple', 'builtins.list': 'list'}


def isinst1(it, l, c):
    q = c.args[0] if c.op == 'ref' else None
    if l is NONE:
        return FALSE
    if q == 'builtins.type' and (l is it.the_cls or it.is_clsval(l)):
        return TRUE
    if l.op == 'const' and q in PYKIND:
        import builtins
        return C(isinstance(cval(l), getattr(builtins, q.split('.')[1])))
    if l.op == 'addr' and q in PYKIND:
        k = {'list': 'list', 'dict': 'dict', 'bytearray': 'bytearray'}.get(l.args[1])
        return C(k is not None and 'builtins.' + k == q)
    if l.op == 'seq' and q in PYKIND:
        return C({'b': 'bytes', 's': 'str', 'l': 'list', 't': 'tuple'}[l.args[0]] == PYKIND[q])
    if l.op == 'new' and l.args[0].op == 'ref' and q:
        ci = it.find_class(l.args[0].args[0])
        if ci is not None:
            if it.w.is_subclass(ci, q):
                return TRUE
            if it.find_class(q) is not None:
                return FALSE
    if l.op in ('digest', 'out', 'rdb', 'fresh') and q == 'builtins.bytes':
        return TRUE
    if l.op in ('digest', 'out', 'rdb', 'fresh', 'lin', 'len') and q and (
            it.find_class(q) is not None):
        return FALSE
    return bvar(T('isinst', l, c))


def ensure_isinstance(it, v, cls, e):
    ok = isinst(it, v, it.deref(cls))
    it.abort_if(b_not(ok), 'builtins.TypeError', e)
    return NONE


def b_len(it, v):
    def f(l):
        if l.op == 'addr':
            return length(as_bytes(it.content(l)))
        if l.op in ('range', 'enum', 'zip', 'reversed'):
            return it.iter_of(l)[0]
        if l.op == 'dict':
            return C(len(l.args))
        if ('h', l.id) in it.st.d:
            return length(it.content(l))
        return length(as_bytes(l))
    return apply(f, v)


def b_bytes(it, pos, kw, e):
    if not pos:
        return C(b'')
    v = pos[0]

    def f(l):
        if l.op == 'addr':
            if l.args[1] in ('buf', 'bytearray', 'bio'):
                return it.content(l)
            if l.args[1] == 'list':
                return apply(f, it.content(l))
            return T('tobytes', l)
        k = kind(l)
        l2 = as_bytes(l)
        if l2 is not l:
            return l2
        if k == 'bytes':
            return l
        c = icval(l)
        if c is not None and k == 'int':
            return C(b'\0' * c) if 0 <= c < 10000 else T('tobytes', l)
        if k == 'int':
            return V.repeat(C(b'\0'), l)
        if l.op == 'seq':
            out = []
            for i in l.args[1:]:
                if i.op == 'el' and type(i.args[0]) is Term:
                    out.append(enc('B', i.args[0]))
                elif i.op == 'splat':
                    out.append(T('raw', T('tobytes', i.args[0])))
                elif i.op == 'each':
                    bv = apply(lambda s: mkseq('b', [enc('B', q.args[0]) for q in s.args[1:]])
                               if all(q.op == 'el' for q in s.args[1:]) else
                               mkseq('b', [T('raw', T('tobytes', s))]), i.args[1])
                    out.append(T('each', i.args[0], bv))
                else:
                    return T('tobytes', l)
            return mkseq('b', out)
        return T('tobytes', l)
    return apply(f, v)


def reduce_bool(it, v, kindname):
    """any()/all() over an iterable of V"""
    v = it.iterable_seq(v)

    def f(l):
        def pred(x):
            t = it.truth(x)
            return t if kindname == 'any' else b_not(t)
        if l.op == 'seq':
            r = FALSE
            for i in l.args[1:]:
                if i.op == 'el':
                    r = b_or(r, pred(i.args[0]))
                elif i.op == 'each':
                    p = apply(lambda s: b_or(*[pred(q.args[0]) for q in s.args[1:]])
                              if all(q.op == 'el' for q in s.args[1:]) else
                              norm_bool(T('unknown', 'any body')), i.args[1])
                    r = b_or(r, V.mk_exists(i.args[0], p))
                else:
                    rng = T('rng', V.length_leaf(i.args[0]))
                    r = b_or(r, V.mk_exists(rng, pred(mk_index(i.args[0], idx_of(rng)))))
        else:
            n, el = it.iter_of(l)
            r = apply(lambda k: V.mk_exists(T('rng', k), pred(el(idx_of(T('rng', k))))), n)
        return r if kindname == 'any' else b_not(r)
    return apply(f, v)


def b_sum(it, v, start):
    v = it.iterable_seq(v)

    def f(l):
        r = start
        if l.op == 'seq':
            for i in l.args[1:]:
                if i.op == 'el':
                    r = V.add(r, intish(i.args[0]))
                elif i.op == 'each':
                    def body(s):
                        q = C(0)
                        for x in s.args[1:]:
                            if x.op != 'el':
                                return T('unknown', 'sum body')
                            q = V.add(q, intish(x.args[0]))
                        return q
                    r = V.add(r, V.sum_over(i.args[0], apply(body, i.args[1])))
                else:
                    rng = T('rng', V.length_leaf(i.args[0]))
                    r = V.add(r, V.sum_over(rng, mk_index(i.args[0], idx_of(rng))))
            return r
        n, el = it.iter_of(l)
        return V.add(r, apply(lambda k: V.sum_over(T('rng', k), intish(el(idx_of(T('rng', k))))), n))
    return apply(f, v)


def intish(v):
    """bool -> int"""
    def f(l):
        if l is TRUE:
            return C(1)
        if l is FALSE:
            return C(0)
        return l
    return apply(f, v)


def b_minmax(it, pos, which):
    if len(pos) == 1:
        v = it.iterable_seq(pos[0])
        if type(v) is Term and v.op == 'seq' and all(i.op == 'el' for i in v.args[1:]):
            pos = [i.args[0] for i in v.args[1:]]
        else:
            return apply(lambda l: T(which, l), v)
    fn = v_min if which == 'min' else v_max
    def pick(a, b):
        r = fn(a, b)
        if r.op not in ('min', 'max'):
            return r
        c = V.lt(a, b)
        return ite(c, a, b) if which == 'min' else ite(c, b, a)
    r = pos[0]
    for p in pos[1:]:
        r = apply(pick, r, p)
    return r


def call_ref(it, q, pos, kw, e):
    n = q.rpartition('.')[2]
    if q.startswith('builtins.'):
        r = call_builtin(it, n, pos, kw, e)
        if r is not None:
            return r
        ci = q[9:]
        if ci.endswith('Error') or ci in ('StopIteration', 'Exception'):
            return T('new', T('ref', q), ())
        return None
    if q.startswith('ctypes.'):
        return call_ctypes(it, q[7:], pos, kw, e)
    if q == 'struct.pack':
        return st_pack(it, pos[0], pos[1:])
    if q in ('struct.unpack', 'struct.unpack_from'):
        return st_unpack(it, pos[0], pos[1]) if len(pos) == 2 else None
    if q == 'struct.calcsize' and is_const(pos[0]):
        return C(struct.calcsize(cval(pos[0])))
    if q.startswith('hashlib.'):
        if n == 'new':
            return hash_obj(it, cval(pos[0]), pos[1] if len(pos) > 1 else None)
        return hash_obj(it, n, pos[0] if pos else kw.get('string'))
    if q in ('hmac.new', 'hmac.digest'):
        args = dict(zip(('key', 'msg', 'digestmod'), pos))
        args.update({('digestmod' if k == 'digest' else k): v for k, v in kw.items()})
        dm = it.deref(args.get('digestmod', NONE))
        if is_const(dm) and isinstance(cval(dm), str):
            dm = T('ref', 'hashlib.' + cval(dm))
        msg = args.get('msg', C(b''))
        if msg is NONE:
            msg = C(b'')
        key, msg = to_bytes_v(it, args['key']), to_bytes_v(it, msg)
        v = apply(lambda k, m: T('digest', 'hmac', dm, k, m), key, msg)
        if n == 'digest':
            return v
        a = it.addr('hmac', apply(lambda k, m: T('hmacst', dm, k, m), key, msg))
        return a
    if q == 'io.BytesIO' or q == '_io.BytesIO':
        return it.addr('bio', to_bytes_v(it, pos[0]) if pos else C(b''))
    if q == 'os.urandom':
        return fresh(it, T('ref', q), pos)
    if q in ('functools.partial',):
        return T('partial', pos[0], tuple(pos[1:])) if not kw else None
    if q == 'itertools.chain' and pos:
        vs = [it.iterable_seq(p) for p in pos]
        return apply(lambda *ls: concat('l', [x for x in ls]), *vs)
    if q == 'itertools.repeat' and len(pos) == 2:
        return V.mul(mkseq('l', [T('el', it.deref(pos[0]))]), pos[1]) \
            if type(pos[0]) is Term else None
    if q in ('warnings.warn', 'typing.TYPE_CHECKING'):
        return NONE
    if q in ('typing.cast',):
        return pos[1]
    if q.endswith('.ensure_isinstance') and len(pos) >= 2:
        return ensure_isinstance(it, pos[0], pos[1], e)
    if q == 'bitcointx.core.serialize.ser_read':
        f = pos[0]
        return it.split(f, lambda l: stream_read(it, l, pos[1]))
    if q in ('bitcointx.core.serialize.Hash', 'bitcointx.core.Hash'):
        return digest('sha256', digest('sha256', to_bytes_v(it, pos[0])))
    if q == 'bitcointx.util.tagged_hasher':
        return apply(lambda t: T('thasher', t), it.deref(pos[0]))
    if q in ('bitcointx.core.secp256k1.get_secp256k1',):
        return T('call', T('ref', 'get_secp256k1'), ())
    if n == 'get_secp256k1' and it.frames and it.frames[-1].mod.name != 'elementstx.core.secp256k1':
        return T('call', T('ref', 'get_secp256k1'), ())
    ff = functional_fields(it, q)
    if ff is not None:
        b = bind_named(it, ff, pos, kw)
        return it.lift(lambda x: T('new', T('ref', q), x), b)
    return None


def call_builtin(it, n, pos, kw, e):
    if n == 'len' and len(pos) == 1:
        return b_len(it, pos[0])
    if n == 'range':
        a = [C(0), None, C(1)]
        if len(pos) == 1:
            a[1] = pos[0]
        else:
            a[0], a[1] = pos[0], pos[1]
            if len(pos) > 2:
                a[2] = pos[2]
        return apply(lambda x, y, z: T('range', x, y, z), *a)
    if n == 'enumerate':
        st = pos[1] if len(pos) > 1 else kw.get('start', C(0))
        return apply(lambda x, s: T('enum', x, s), it_handle(it, pos[0]), st)
    if n == 'zip':
        return apply(lambda *ls: T('zip', *ls), *[it_handle(it, p) for p in pos])
    if n == 'reversed':
        return apply(lambda x: T('reversed', x), it_handle(it, pos[0]))
    if n in ('list', 'tuple'):
        if not pos:
            return it.addr('list', EMPTY['l']) if n == 'list' else EMPTY['t']
        d = it.iterable_seq(pos[0])
        d = apply(lambda l: mkseq('l' if n == 'list' else 't',
                                  list(l.args[1:]) if l.op == 'seq' and l.args[0] in 'lt' else
                                  [T('el', C(x)) for x in cval(l)]
                                  if is_const(l) and isinstance(cval(l), (bytes, tuple)) else
                                  [T('splat', l)]), d)
        if n == 'tuple':
            return it.deref(d)
        return it.new_list(d)
    if n == 'iter':
        return apply(lambda l: T('iter', l), it.iterable_seq(pos[0])) if pos else None
    if n == 'next':
        if len(pos) not in (1, 2) or kw:
            return None

        def nx(l):
            if l.op in ('iter', 'seq', 'addr', 'fill'):
                return it.opaque_call(T('ref', 'builtins.next'), pos, kw, e)
            key = ('g', 'next#%d' % l.id)
            k = it.st.d.get(key, C(0))

            def one(kk):
                b = (('iterator', l), ('n', kk))
                if len(pos) == 2:
                    d = it.deref(pos[1])
                    return it.lift(lambda dd: T('call', T('ref', 'builtins.next'),
                                                b + (('default', dd),)), d)
                return T('call', T('ref', 'builtins.next'), b)
            r = it.split(k, one)
            it.st.d[key] = V.add(k, C(1))
            return it.implicit(r, e)
        return it.split(pos[0], nx)
    if n == 'dict':
        if not pos:
            return it.addr('dict', T('dict', *[T('ent', C(k), it.deref(v)) for k, v in kw.items()]))
        return None
    if n in ('set', 'frozenset'):
        return apply(lambda l: T('set', l), it.deref(it.iterable_seq(pos[0]))) if pos \
            else it.unknown('empty set')
    if n == 'bytes':
        return b_bytes(it, pos, kw, e)
    if n == 'bytearray':
        return it.addr('bytearray', b_bytes(it, pos, kw, e))
    if n == 'bool':
        return it.truth(it.deref(pos[0]) if not _addrs(pos[0]) else pos[0]) if pos else FALSE
    if n == 'int':
        if len(pos) == 1 and not kw:
            v = pos[0]

            def f(l):
                k = kind(l)
                if k == 'bool':
                    return ite(bvar(l) if l.op != 'const' else l, C(1), C(0))
                if k == 'int':
                    return l
                if l.op == 'const' and isinstance(cval(l), str):
                    try:
                        return C(int(cval(l)))
                    except ValueError:
                        pass
                if l.op == 'new' and _cls_name(l.args[0]) == 'SIGHASH_Type':
                    return _arg(l)
                if b_and(it.st.pc, b_not(isinst1(it, l, T('ref', 'builtins.bool')))) is FALSE:
                    return ite(it.truth(l), C(1), C(0))
                return T('toint', l)
            return apply(f, intish(v))
        return None
    if n == 'isinstance':
        return isinst(it, it.deref_shallow(pos[0]) if hasattr(it, 'deref_shallow') else pos[0],
                      it.deref(pos[1]))
    if n == 'issubclass':
        return issub(it, pos[0], it.deref(pos[1]))
    if n == 'type' and len(pos) == 1:
        return apply(lambda l: it.class_of(l), pos[0])
    if n in ('any', 'all'):
        return reduce_bool(it, pos[0], n)
    if n == 'sum':
        return b_sum(it, pos[0], pos[1] if len(pos) > 1 else C(0))
    if n in ('min', 'max') and not kw:
        return b_minmax(it, pos, n)
    if n == 'abs':
        return apply(lambda l: C(abs(icval(l))) if icval(l) is not None else T('abs', l), pos[0])
    if n == 'divmod' and len(pos) == 2:
        return apply(lambda a, b: mkseq('t', [T('el', a), T('el', b)]),
                     V.floordiv(*pos), V.mod(*pos))
    if n == 'pow' and len(pos) == 2:
        return apply(lambda x, y: C(icval(x) ** icval(y)) if None not in (icval(x), icval(y)) and
                     0 <= icval(y) < 300 else T('pow', x, y), *pos)
    if n == 'ord':
        return apply(lambda l: C(ord(cval(l))) if is_const(l) else (
            V.index_leaf(l, C(0)) if kind(l) == 'bytes' else T('ord', l)), pos[0])
    if n == 'chr':
        return apply(lambda l: C(chr(cval(l))) if is_const(l) else T('chr', l), pos[0])
    if n in ('str', 'repr', 'hex', 'format'):
        return apply(lambda *ls: ls[0] if n == 'str' and kind(ls[0]) == 'str' and len(ls) == 1 else
                     T('str', n, *ls), *[it.deref(p) for p in pos]) if pos else C('')
    if n == 'hasattr':
        return apply(lambda a, b: bvar(T('truth', T('call', T('ref', 'builtins.hasattr'),
                                                    (('0', a), ('1', b))))), *pos)
    if n == 'getattr' and len(pos) >= 2 and is_const(pos[1]):
        if len(pos) == 2:
            return it.getattr(pos[0], cval(pos[1]), e)
        if len(pos) == 3 and str(cval(pos[1])).startswith('secp256k1_') and all(
                is_const(x) and not cval(x) for x in leaf_terms(it.deref(pos[2]))):
            # a function of the library, where there is one
            return apply(lambda a, d: ite(call_builtin(it, 'hasattr', [a, pos[1]], {}, e),
                                          T('attr', a, cval(pos[1])), d), pos[0], it.deref(pos[2]))
        return None
    if n == 'setattr' and is_const(pos[1]):
        it.setattr(pos[0], cval(pos[1]), pos[2], e)
        return NONE
    if n == '__setattr__' and len(pos) == 3 and is_const(pos[1]):
        it.setattr(pos[0], cval(pos[1]), pos[2], e)
        return NONE
    if n == 'from_bytes':
        order = pos[1] if len(pos) > 1 else kw.get('byteorder', C('big'))
        sg = kw.get('signed', FALSE)
        if is_const(order) and is_const(sg):
            def f(x):
                ln = icval(V.length_leaf(x))
                fm = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}.get(ln)
                if is_const(x):
                    return C(int.from_bytes(cval(x), cval(order), signed=cval(sg)))
                if fm == 'B' and not cval(sg):
                    return V.index_leaf(x, C(0))
                if fm:
                    fm = fm.lower() if cval(sg) else fm
                    return decode(('<' if cval(order) == 'little' else '>') + fm, x)
                return T('dec', 'int:%s:%s' % (cval(order), cval(sg)), x)
            return apply(f, to_bytes_v(it, pos[0]))
    if n == 'join' or n == 'fromhex':
        return None
    if n == 'map' and len(pos) == 2:
        fn = pos[0]
        n_, el = None, None

        def run(l):
            acc = it.addr('list', EMPTY['l'])
            it.for_leaf(l, lambda x: it.list_append(acc, it.split(
                fn, lambda q: it.call_value(q, [x], {}, e))), lambda: None, lambda: None, e)
            return it.content(acc)
        return it.split(pos[1], run)
    if n == 'print':
        return NONE
    if n == 'sorted' and len(pos) == 1 and not kw:
        return it.split(it.deref(it.iterable_seq(pos[0])),
                        lambda l: it.addr('list', mkseq('l', [T('splat', T('sorted', l))])))
    if n == 'memoryview':
        return to_bytes_v(it, pos[0])
    return None


def _addrs(v):
    return any(l.op == 'addr' for l in leaf_terms(v))


def it_handle(it, v):
    """iterables keep the identity of live lists"""
    return apply(lambda l: it.content(l) if l.op == 'addr' and l.args[1] in ('list', 'bytearray')
                 else l, v)


def issub(it, v, c):
    """issubclass: of one class, or of any in a tuple of them"""
    def g(l, k):
        if k.op != 'seq':
            return issub1(it, l, k)
        r = FALSE
        for i in k.args[1:]:
            r = b_or(r, issub(it, l, i.args[0]) if i.op == 'el' else
                     bvar(T('truth', T('issubclass', l, mkseq('t', [i])))))
        return r
    return apply(g, v, c)


def issub1(it, l, c):
    if l.op == 'ref' and c.op == 'ref':
        ci = it.find_class(l.args[0])
        if ci is not None:
            return C(it.w.is_subclass(ci, c.args[0]))
    return bvar(T('issub', l, c))


# ---------------------------------------------------------------- ctypes / ffi

def call_ctypes(it, n, pos, kw, e):
    if n == 'create_string_buffer':
        a = pos[0]
        if len(pos) == 1:
            def f(l):
                if kind(l) == 'int':
                    c = icval(l)
                    return C(b'\0' * c) if c is not None and c < 100000 else \
                        V.repeat(C(b'\0'), l)
                # a trailing NUL is appended
                return concat('b', [l, C(b'\0')])
            return it.addr('buf', apply(f, it.deref(a)))

        def g(l, sz):
            if sz is V.length_leaf(l):
                return l
            return T('padded', l, sz)
        return it.addr('buf', apply(g, it.deref(a), pos[1]))
    if n.startswith('c_') or n == 'py_object':
        if n == 'c_char_p':
            return pos[0] if pos else NONE
        return it.addr('cint', it.deref(pos[0]) if pos else (NONE if n == 'c_void_p' else C(0)))
    if n in ('byref', 'pointer', 'addressof'):
        return pos[0]
    if n == 'cast':
        return pos[0]
    if n == 'sizeof' and type(pos[0]) is Term:
        return length(it.deref(pos[0]))
    return None


# position of arguments: i input, o output buffer (bytes), O output int,
# B in/out int, h handle (in), H handle in/out, P output handle, S blind_sum array
SIGS = {
    'secp256k1_generator_generate': 'coi',
    'secp256k1_generator_generate_blinded': 'coii',
    'secp256k1_generator_serialize': 'coi',
    'secp256k1_generator_parse': 'coi',
    'secp256k1_pedersen_commitment_parse': 'coi',
    'secp256k1_pedersen_commitment_serialize': 'coi',
    'secp256k1_pedersen_commit': 'coiii',
    'secp256k1_pedersen_blind_generator_blind_sum': 'ciiSii',
    'secp256k1_rangeproof_info': 'cOOOOii',
    'secp256k1_rangeproof_sign': 'coBiiiiiiiiiiii',
    'secp256k1_rangeproof_rewind': 'coOoBiOOiiiiii',
    'secp256k1_surjectionproof_allocate_initialized': 'cPOiiiiii',
    'secp256k1_surjectionproof_generate': 'cHiiiiii',
    'secp256k1_surjectionproof_verify': 'chiii',
    'secp256k1_surjectionproof_serialized_size': 'ch',
    'secp256k1_surjectionproof_serialize': 'coBh',
    'secp256k1_surjectionproof_destroy': 'D',
}


def ffi_call(it, lib, name, pos, kw, e):
    sig = SIGS[name]
    if kw or len(pos) != len(sig):
        it.note('argument count of %s' % name, e)
        return None
    ins = []
    handles = None
    for s, p in zip(sig, pos):
        if s in 'coOBPHhSD':
            it_is = type(p) is Term
            if not it_is:
                it.note('conditional pointer passed to %s' % name, e)
        if s == 'o':
            c = it.content(p) if type(p) is Term and p.op == 'addr' else p
            ins.append(apply(lambda x: T('obuf', x), length(c)))
        elif s == 'O' or s == 'P':
            if type(p) is Term and p.op == 'addr':
                pass
            ins.append(C('out'))
        elif s in 'BHhD':
            ins.append(it.content(p) if type(p) is Term and p.op == 'addr' else p)
        elif s == 'S':
            d = it.content(p) if type(p) is Term and p.op == 'addr' else p
            ins.append(it.deref(d))
        elif s == 'c':
            ins.append(it.deref(p))
        else:
            ins.append(ffi_in(it, p))
    call = apply(lambda *ls: T('ffi', name, *ls), *ins)
    node = e
    it.ffi_sites.append({'name': name, 'call': call, 'guard': it.st.pc, 'loc': it.where(node),
                         'chain': it.chain, 'node': node,
                         'func': it.frames[-1].func.name if it.frames and it.frames[-1].func else '?'})
    if sig == 'D':
        it.event(apply(lambda c: T('ffido', name, c), ins[0]))
        return NONE
    for k, (s, p) in enumerate(zip(sig, pos)):
        if not (type(p) is Term and p.op == 'addr'):
            if s in 'oOBPH':
                it.note('output argument %d of %s is not a local buffer' % (k, name), e)
            continue
        if s == 'o':
            it.setcontent(p, apply(lambda c, k=k: T('out', c, k), call))
        elif s in 'OBPH':
            it.setcontent(p, apply(lambda c, k=k: T('iout', c, k), call))
        elif s == 'S':
            d = it.content(p)

            def last(l):
                x = V.index_leaf(l, C(-1))
                if type(x) is Term and x.op == 'setitem':
                    x = x.args[2]
                return x
            lv = apply(last, d)
            if type(lv) is Term and lv.op == 'addr' and lv.args[1] == 'buf':
                it.setcontent(lv, apply(lambda c, k=k: T('out', c, k), call))
            else:
                it.note('last blinding factor is not a mutable buffer', e)
                it.event(T('blindsum_unbuffered'))
    return apply(lambda c: T('ret', c), call)


def ffi_in(it, p):
    """value of an input argument"""
    def f(l):
        if l.op == 'addr':
            return as_bytes(it.deref(l))
        return l
    v = apply(f, p) if type(p) is Node else f(p)
    return as_bytes(it.deref(v))


# ---------------------------------------------------------------- class calls

def class_call(it, cref, ci, name, pos, kw, e):
    cn = ci.node.name
    lib = not it.w.is_repo(ci.mod.name)
    if name == 'stream_serialize' and cn in ('BytesSerializer', 'VarIntSerializer',
                                             'VectorSerializer', 'COutPoint',
                                             'VarBytesSerializer') and lib or \
            name == 'stream_serialize' and cn == 'COutPoint':
        if cn == 'BytesSerializer':
            x, f = pos[0], pos[1]
            return it.split(f, lambda l: stream_write(it, l, ser_bytes_v(to_bytes_v(it, x))))
        if cn == 'VarIntSerializer':
            x, f = pos[0], pos[1]
            return it.split(f, lambda l: stream_write(
                it, l, apply(lambda k: mkseq('b', [csize(k)]), x)))
        if cn == 'COutPoint':
            x, f = pos[0], pos[1]
            h, n = it.getattr(x, 'hash', e), it.getattr(x, 'n', e)
            b = apply(lambda a, k: mkseq('b', items_of('b', a) + [enc('<I', k)]), h, n)
            return it.split(f, lambda l: stream_write(it, l, b))
        if cn == 'VectorSerializer':
            x, f = pos[0], pos[1]
            opts = {k: v for k, v in kw.items()}
            return it.split(f, lambda l: stream_write(it, l, ser_vector(it, x, opts)))
    if name == 'serialize' and lib and cn in ('BytesSerializer', 'VarIntSerializer',
                                              'VectorSerializer'):
        if cn == 'BytesSerializer':
            return ser_bytes_v(to_bytes_v(it, pos[0]))
        if cn == 'VarIntSerializer':
            return apply(lambda k: mkseq('b', [csize(k)]), pos[0])
        return ser_vector(it, pos[0], {})
    if name == 'stream_deserialize' and (lib or True):
        owner, node = it.w.lookup(ci, name)
        # Class.stream_deserialize(f, ...) / VectorSerializer.stream_deserialize(Cls, f, ...)
        args = list(pos)
        extra = ()
        if cn == 'VectorSerializer':
            el = kw.pop('cls') if 'cls' in kw else None
            cand = [a for a in args if type(a) is Term and is_stream_like(it, a)]
            if not cand:
                return None
            f = cand[0]
            others = [it.deref(a) for a in args if a is not f] + ([el] if el is not None else [])
            extra = tuple(others)
        else:
            if not args or not (type(args[0]) is Term and is_stream_like(it, args[0])):
                return None
            f = args[0]
            others = [it.deref(a) for a in args[1:]]
            extra = tuple(others)
        opts = tuple((k, it.deref(kw[k])) for k in sorted(kw) if k != '**')
        kd = {'BytesSerializer': 'bytes', 'VarIntSerializer': 'int', 'VectorSerializer': 'list'}.get(cn)
        p = spos(it, f)
        # class used as reader: keep the most derived reference
        r = apply(lambda x: T('rd', x, cref, kd, extra, opts), p)
        it.setcontent(f, apply(lambda x: T('adv', x, T('rd', x, cref, kd, extra, opts)), p))
        return it.implicit(r, e)
    if cn in UINT_NAMES and name == 'from_int' and len(pos) == 1:
        def f(l):
            c = icval(l)
            if c is not None:
                b = c.to_bytes(32, 'little')
                return T('new', cref, ((('data'), C(b)),)) if c else T('new', cref, ())
            return None
        if all(icval(x) is not None and 0 <= icval(x) < 1 << 256 for x in leaf_terms(pos[0])):
            return apply(f, pos[0])
    return None


def is_stream_like(it, a):
    return is_stream(it, a) or ('h', a.id) in it.st.d and a.op == 'addr' and a.args[1] == 'bio'


def keep_opaque(it, owner, name):
    return owner.qual + '.' + name in it.opaque


# ---------------------------------------------------------------- methods

def call_method(it, l, name, pos, kw, e):
    if l.op == 'addr':
        r = addr_method(it, l, name, pos, kw, e)
        if r is not None:
            return r
    if name.startswith('secp256k1_') and l.op == 'attr' and l.args[1] == 'lib' and name in SIGS:
        r = ffi_call(it, l, name, pos, kw, e)
        if r is not None:
            return r
    if is_stream(it, l):
        if name == 'write' and len(pos) == 1:
            return stream_write(it, l, pos[0])
        if name == 'read' and len(pos) == 1:
            return stream_read(it, l, pos[0], 'rdshort')
    if l.op == 'super':
        return None
    if name == '__setattr__' and l.op == 'ref':
        return None
    if name == 'is_nonempty' and not pos and not kw and it.self_cls.get(l.id) is None:
        return V.lt(C(0), V.length(l))
    k = kind(l)
    if name == 'join' and k in ('bytes', 'str') and len(pos) == 1:
        return do_join(it, l, pos[0], 'b' if k == 'bytes' else 's')
    if name == 'format' and k == 'str':
        ks = sorted(kw)
        vs = [it.deref(p) for p in pos] + [it.deref(kw[q]) for q in ks]

        def fm(*ls):
            r = None
            if is_const(l) and not any(p.op == 'star' for p in ls):
                r = V.brace_format(cval(l), ls[:len(pos)], dict(zip(ks, ls[len(pos):])))
            return r if r is not None else T('fstr', l, *ls)
        return apply(fm, *vs) if vs else fm()
    if l.op == 'const' and isinstance(cval(l), (str, bytes)) and all(is_const(p) for p in pos) \
            and not kw:
        try:
            r = getattr(cval(l), name)(*[cval(p) for p in pos])
        except Exception:
            r = None
        if isinstance(r, (int, bool, str, bytes)):
            return C(r)
    if l.op == 'const' and isinstance(cval(l), str) and name in ('rfind', 'find', 'index') and \
            len(pos) == 1:
        return apply(lambda x: C(getattr(cval(l), 'find')(cval(x))) if is_const(x)
                     else T('find', 'find' if name != 'rfind' else 'rfind', l, x), pos[0])
    if name in ('find', 'rfind') and k in ('str', 'bytes') and len(pos) == 1:
        return apply(lambda x: T('find', name, l, x), it.deref(pos[0]))
    if name in ('lower', 'upper') and k == 'str' and not pos:
        return T(name, l)
    if name == 'to_bytes' and k == 'int':
        n = pos[0] if pos else kw.get('length')
        o = pos[1] if len(pos) > 1 else kw.get('byteorder')
        s = kw.get('signed', FALSE)
        if all(type(x) is Term and is_const(x) for x in (n, o, s)):
            fm = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}.get(cval(n))
            if fm:
                fm = fm.lower() if cval(s) else fm
                if fm not in 'Bb':
                    fm = ('<' if cval(o) == 'little' else '>') + fm
                return mkseq('b', [enc(fm, l)])
    if name == 'serialize' and not pos and ser_able(it, l):
        return ser_items(it, l, {k_: it.deref(v) for k_, v in kw.items() if k_ != '**'})
    if name == 'stream_serialize' and pos and type(pos[0]) is Term and is_stream(it, pos[0]) and \
            ser_able(it, l):
        opts = {k_: it.deref(v) for k_, v in kw.items() if k_ != '**'}
        return stream_write(it, pos[0], ser_items(it, l, opts))
    if name == 'GetHash' and not pos and not kw and ser_able(it, l) and False:
        return digest('sha256', digest('sha256', ser_items(it, l, {})))
    if l.op == 'new':
        cn = _cls_name(l.args[0])
        if cn in UINT_NAMES and name == 'is_null' and False:
            return None
        ci = it.find_class(l.args[0].args[0]) if l.args[0].op == 'ref' else None
        if cn == 'CElementsScript' and name == 'is_unspendable':
            return None
    if l.op == 'attr' and name in ('pop', 'append', 'extend', 'insert', 'clear', 'remove',
                                   'reverse', 'sort', '__setitem__') or \
            l.op in ('param',) and kind(l) == 'list' and name in ('append', 'extend', 'pop', 'insert',
                                                                  'clear', 'remove', 'reverse', 'sort'):
        return list_method(it, l, name, pos, kw, e)
    if name in ('keys', 'values', 'items') and l.op == 'dict':
        return dict_view(it, l, name)
    if name == 'get' and l.op == 'dict':
        return it.dict_get(l, pos[0], pos[1] if len(pos) > 1 else NONE, e)
    return None


def ser_able(it, l):
    ci = it.self_cls.get(l.id)
    return ci is None and l.op not in ('ref', 'closure')


def do_join(it, sep, v, k):
    v = it.iterable_seq(v)

    def f(s):
        if s.op != 'seq':
            n, el = it.iter_of(s)
            s = it.build_seq(n, el)
            if type(s) is Node:
                return apply(f, s)
            if s.op != 'seq':
                return T('joinstr', sep, s)
        if not (is_const(sep) and not cval(sep)):
            if all(i.op == 'el' for i in s.args[1:]):
                vs = [i.args[0] for i in s.args[1:]]
                out = []
                for j, x in enumerate(vs):
                    if j:
                        out.append(sep)
                    out.append(x)
                return V.concat_v(k, *out) if out else EMPTY[k]
            return T('joinstr', sep, s)
        parts = []
        for i in s.args[1:]:
            if i.op == 'el':
                parts.append(as_bytes(it.deref(i.args[0])))
            elif i.op == 'each':
                bv = apply(lambda q: V.concat_v(k, *[as_bytes(z.args[0]) for z in q.args[1:]])
                           if len(q.args) > 1 and all(z.op == 'el' for z in q.args[1:])
                           else (EMPTY[k] if len(q.args) == 1 else T('joinstr', sep, q)), i.args[1])
                parts.append(mkseq(k, [T('each', i.args[0], bv)]))
            else:
                rng = T('rng', V.length_leaf(i.args[0]))
                parts.append(mkseq(k, [T('each', rng, mk_raw(k, mk_index(i.args[0], idx_of(rng))))]))
        return V.concat_v(k, *parts) if parts else EMPTY[k]
    return apply(f, v)


def mk_raw(k, v):
    return apply(lambda x: mkseq(k, items_of(k, x)), as_bytes(v))


def list_method(it, l, name, pos, kw, e):
    if name == 'append':
        it.list_append(l, it.keep(pos[0]) if hasattr(it, 'keep') else pos[0])
        return NONE
    if name == 'extend':
        it.list_extend(l, pos[0])
        return NONE
    if name == 'pop' and (not pos or icval(pos[0]) in (-1, 0)):
        c = it.content(l)
        first = bool(pos) and icval(pos[0]) == 0
        r = mk_index(c, C(0 if first else -1))
        it.setcontent(l, mk_slice(c, C(1), NONE) if first else mk_slice(c, NONE, C(-1)))
        return r
    if name == 'insert' and icval(pos[0]) == 0 and type(pos[0]) is Term:
        c = it.content(l)
        it.setcontent(l, apply(lambda s, x: concat('l', [mkseq('l', [T('el', x)]), s]), c, pos[1]))
        return NONE
    if name == 'insert' and len(pos) == 2:
        c = it.content(l)
        el = apply(lambda x: mkseq('l', [T('el', x)]), pos[1])
        it.setcontent(l, V.concat_v('l', mk_slice(c, NONE, pos[0]), el, mk_slice(c, pos[0], NONE)))
        return NONE
    if name == 'clear':
        it.setcontent(l, EMPTY['l'])
        return NONE
    if name == 'copy':
        c = it.content(l)
        return it.new_list(c)
    if name in ('remove', 'reverse', 'sort', 'insert', '__setitem__', 'pop'):
        c = it.content(l)
        args = tuple(it.deref(p) for p in pos)
        if all(type(a) is Term for a in args):
            it.setcontent(l, apply(lambda s: mkseq('l', [T('splat', T('listop', name, s, args))]), c))
            return NONE
    return None


def dict_view(it, d, name):
    n, el = it.iter_dict(d, {'keys': 'k', 'values': 'v', 'items': 'i'}[name])
    return it.build_seq(n, el)


def addr_method(it, l, name, pos, kw, e):
    k = l.args[1]
    if k == 'list':
        return list_method(it, l, name, pos, kw, e)
    if k == 'bytearray':
        c = it.content(l)
        if name == 'append':
            it.setcontent(l, apply(lambda s, x: mkseq('b', items_of('b', s) + [enc('B', x)]), c, pos[0]))
            return NONE
        if name == 'extend':
            it.setcontent(l, apply(lambda s, x: concat('b', [s, x]), c, b_bytes(it, pos, kw, e)))
            return NONE
        if name in ('hex', 'decode'):
            return None
    if k == 'bio':
        if name in ('getvalue', 'getbuffer'):
            return it.content(l)
        if name == 'seek' or name == 'tell':
            return None
    if k == 'hash':
        alg = HALG.get(l.id, 'sha256')
        if name == 'update':
            it.setcontent(l, apply(lambda s, x: concat('b', [s, x]), it.content(l),
                                   to_bytes_v(it, pos[0])))
            return NONE
        if name == 'digest':
            return digest(alg, it.content(l))
        if name == 'hexdigest':
            return apply(lambda x: T('mcall', x, 'hex', ()), digest(alg, it.content(l)))
        if name == 'copy':
            return hash_obj(it, alg, it.content(l))
    if k == 'hmac':
        c = it.content(l)
        if name == 'update':
            m = to_bytes_v(it, pos[0])
            it.setcontent(l, apply(lambda s, x: T('hmacst', s.args[0], s.args[1],
                                                  concat('b', [s.args[2], x])), c, m))
            return NONE
        if name == 'digest':
            return apply(lambda s: T('digest', 'hmac', *s.args), c)
    if k == 'csha':
        c = it.content(l)
        if name == 'Write':
            m = to_bytes_v(it, pos[0])
            it.setcontent(l, apply(lambda s, x: concat('b', [s, x]), c, m))
            return l
        if name == 'Midstate':
            return apply(lambda x: T('digest', 'sha256mid', x), c)
        if name == 'Finalize':
            return apply(lambda x: T('digest', 'sha256', x), c)
    if k == 'memo':
        if name == 'get' and not kw:
            return it.memo_get(l, pos[0], pos[1] if len(pos) > 1 else NONE)
        if name == 'setdefault' and not kw and len(pos) == 2:
            r = it.memo_get(l, pos[0], it.deref(pos[1]))
            it.memo_set(l, pos[0], r)
            return r
        if name == 'clear':
            it.setcontent(l, T('memo'))
            return NONE
        return None
    if k == 'dict':
        c = it.content(l)
        if name == 'get':
            return it.dict_get(c, pos[0], pos[1] if len(pos) > 1 else NONE, e)
        if name in ('keys', 'values', 'items'):
            return it.split(c, lambda d: dict_view(it, d, name))
        if name == 'update' and len(pos) == 1:
            d2 = it.deref(pos[0])
            if type(d2) is Term and d2.op == 'dict':
                for en in d2.args:
                    it.setitem(l, en.args[0], en.args[1], e)
                return NONE
    if k in ('cint', 'buf'):
        return None
    return None


# ---------------------------------------------------------------- exceptions

def may_raise(it, l, handlers):
    """library exceptions a call may raise which an enclosing handler names"""
    names = set()
    for hs in handlers:
        for h in hs:
            names.update(h or ['builtins.Exception'])
    out = []
    if l.op == 'call' and l.args[0].op == 'ref':
        q = l.args[0].args[0]
        if q == 'builtins.next':
            for nm in ('builtins.StopIteration',):
                out.append(nm)
            for nm in sorted(names):
                if nm.endswith('CScriptInvalidError'):
                    out.append(nm)
        elif q.split('.')[0] == 'elementstx':
            out.extend(sorted(names - {'builtins.Exception', 'builtins.BaseException'}) or sorted(names))
    if l.op in ('mcall', 'supercall') and l.args[1] in repo_methods(it):
        # a method of the package that is not followed here may raise what the handlers name
        out.extend(n for n in sorted(names))
    return out


# ---------------------------------------------------------------- method vocabulary

_vocab = None


def vocab():
    global _vocab
    if _vocab is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                         'spec', 'vocab.json')
        try:
            with open(p) as f:
                _vocab = json.load(f)
        except OSError:
            _vocab = {'methods': None}
    return _vocab


REPO_MODS = ['elementstx', 'elementstx.core', 'elementstx.core.script', 'elementstx.core.secp256k1',
             'elementstx.wallet', 'elementstx.blech32', 'elementstx.liquid_addr', 'elementstx.util']
_helpers = {}


def repo_methods(it):
    r = getattr(it.w, '_repo_methods', None)
    if r is None:
        r = {}
        for mn in REPO_MODS:
            m = it.w.module(mn)
            if m is None:
                continue
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    ci = it.w.classinfo(m, n)
                    for nm, nodes in ci.members.items():
                        if isinstance(nodes[-1], ast.FunctionDef):
                            r.setdefault(nm, []).append((ci, nodes[-1]))
        it.w._repo_methods = r
    return r


def newhelper(it, name, prop=False):
    vm = vocab().get('methods')
    if vm is None or name in vm:
        return None
    c = repo_methods(it).get(name)
    if not c or len(c) != 1:
        return None
    owner, node = c[0]
    isprop = it.has_deco(node, 'property')
    if isprop != prop:
        return None
    if it.has_deco(node, 'classmethod') or it.has_deco(node, 'staticmethod'):
        return None
    return owner, node


def method_sig(it, name):
    sigs = getattr(it.w, '_sigs', None)
    if sigs is None:
        sigs = it.w._sigs = {}
    if name in sigs:
        return sigs[name]
    found = []
    for ci, node in repo_methods(it).get(name, []):
        found.append(node)
    for mn in ('bitcointx.core', 'bitcointx.core.script', 'bitcointx.core.key',
               'bitcointx.core.serialize', 'bitcointx.wallet'):
        m = it.w.module(mn)
        if m is None:
            continue
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.FunctionDef) and s.name == name:
                        found.append(s)
    r = None
    if found:
        ps = {tuple(a.arg for a in f.args.args[1:] + f.args.kwonlyargs) for f in found}
        if len(ps) == 1 and not found[0].args.vararg:
            r = found[0]
    sigs[name] = r
    return r


def super_ext(it, ci, name, selfv, bound, e):
    if name == '__setattr__':
        if len(bound) == 2 and is_const(bound[0][1]):
            it.setattr(selfv, cval(bound[0][1]), bound[1][1], e)
            return NONE
        return None
    if name == 'stream_deserialize' and bound and is_stream_like(it, bound[0][1]):
        f = bound[0][1]
        p = spos(it, f)
        opts = tuple((k, v) for k, v in bound[1:] if k != '**')
        w = T('superof', T('ref', ci.qual), selfv)
        r = apply(lambda x: T('rd', x, w, None, (), opts), p)
        it.setcontent(f, apply(lambda x: T('adv', x, T('rd', x, w, None, (), opts)), p))
        return r
    if name == 'stream_serialize' and bound and is_stream_like(it, bound[0][1]):
        f = bound[0][1]
        opts = tuple((k, v) for k, v in bound[1:] if k != '**')
        return stream_write(it, f, it.lift(
            lambda b: T('ser', T('superof', T('ref', ci.qual), selfv), b), opts))
    if name in ('__init__',):
        if ci is None:
            if not bound:
                return NONE
        call = it.lift(lambda b: T('supercall', T('ref', ci.qual if ci is not None else 'object'),
                                   name, selfv, b), bound)
        it.event(apply(lambda c: T('do', c), call))
        if ci is not None:
            node = ci.members[name][-1]
            attrs = []
            for n in ast.walk(node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr == '__setattr__' and len(n.args) == 3 and \
                        isinstance(n.args[1], ast.Constant):
                    attrs.append(n.args[1].value)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                                t.value.id == 'self':
                            attrs.append(t.attr)
            for a in sorted(set(attrs)):
                it.setattr(selfv, a, apply(lambda c, a=a: T('setby', c, a), call), e)
        return NONE
    return None
