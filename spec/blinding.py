"""Reference models: issuance identifiers, confidential transaction blinding and
unblinding (Elements Core blind.cpp, issuance.cpp)."""
import os
import ctypes
import hashlib
import hmac
from bitcointx.core import COutPoint, CoreCoinParams, MoneyRange, Uint256
from bitcointx.core.key import CKey, CKeyBase, CPubKey
from bitcointx.core.script import CScript
from bitcointx.core.sha256 import CSHA256
from bitcointx.util import ensure_isinstance
from elementstx.core import (
    BlindingFailure, BlindingSuccess, CAsset, CAssetIssuance, CConfidentialAsset,
    CConfidentialNonce, CConfidentialValue, CElementsMutableTxInWitness,
    CElementsMutableTxOutWitness, CElementsTransaction, UnblindingFailure, UnblindingSuccess)
from elementstx.core.script import CElementsScript
from elementstx.core.secp256k1 import get_secp256k1
from spec.secp import aligned_array

GEN = 64
PEDERSEN = 64


# ------------------------------------------------------ issuance identifiers

def _hash32(x):
    if isinstance(x, Uint256):
        return x.data
    return x


def asset_entropy(prevout: '?', contracthash: 'bytes'):
    ensure_isinstance(prevout, COutPoint, 'prevout')
    ensure_isinstance(contracthash, (bytes, bytearray, Uint256), 'contracthash')
    h = CSHA256()
    h.Write(prevout.GetHash() + _hash32(contracthash))
    return Uint256(h.Midstate())


def _tag(entropy, last):
    ensure_isinstance(entropy, (bytes, bytearray, Uint256), 'entropy')
    data = _hash32(entropy)
    if len(data) != 32:
        raise ValueError
    return CAsset(CSHA256().Write(data + last).Midstate())


def asset_id(entropy: 'bytes'):
    return _tag(entropy, b'\x00' * 32)


def token_id(entropy: 'bytes', is_confidential: '?'):
    ensure_isinstance(is_confidential, bool, 'is_confidential')
    if is_confidential:
        return _tag(entropy, Uint256.from_int(2).data)
    return _tag(entropy, Uint256.from_int(1).data)


# ------------------------------------------------------------------- helpers

def _require(ret):
    if ret != 1:
        raise RuntimeError


def asset_commitment(self):
    """CAsset: commitment to the unblinded generator"""
    zkp = get_secp256k1()
    gen = ctypes.create_string_buffer(GEN)
    if zkp.lib.secp256k1_generator_generate(zkp.ctx.blind, gen, self.data) != 1:
        raise ValueError
    out = ctypes.create_string_buffer(33)
    _require(zkp.lib.secp256k1_generator_serialize(zkp.ctx.blind, out, gen))
    return out.raw


def blinded_asset(asset: '?', assetblind: '?'):
    ensure_isinstance(asset, CAsset, 'asset')
    ensure_isinstance(assetblind, Uint256, 'assetblind')
    zkp = get_secp256k1()
    gen = ctypes.create_string_buffer(GEN)
    _require(zkp.lib.secp256k1_generator_generate_blinded(
        zkp.ctx.blind, gen, asset.data, assetblind.data))
    out = ctypes.create_string_buffer(33)
    _require(zkp.lib.secp256k1_generator_serialize(zkp.ctx.blind, out, gen))
    return (CConfidentialAsset(out.raw), gen.raw)


def value_commitment(blind: 'bytes', gen: 'bytes', amount: 'int'):
    zkp = get_secp256k1()
    commit = ctypes.create_string_buffer(PEDERSEN)
    _require(zkp.lib.secp256k1_pedersen_commit(zkp.ctx.blind, commit, blind, amount, gen))
    out = ctypes.create_string_buffer(33)
    _require(zkp.lib.secp256k1_pedersen_commitment_serialize(zkp.ctx.blind, out, commit))
    return (CConfidentialValue(out.raw), commit.raw)


def rangeproof(in_blinds: 'list', nonce: '?', amount: 'int?', scriptPubKey: 'bytes', commit: 'bytes',
               gen: 'bytes', asset: '?', in_assetblinds: 'list',
               custom_ct_exponent: 'int?' = None, custom_ct_bits: 'int?' = None):
    ensure_isinstance(nonce, Uint256, 'nonce')
    ensure_isinstance(amount, int, 'amount')
    ensure_isinstance(scriptPubKey, CElementsScript, 'scriptPubKey')
    ensure_isinstance(commit, (bytes, bytearray), 'commit')
    if len(commit) != PEDERSEN:
        raise ValueError
    ensure_isinstance(asset, CAsset, 'asset')
    ensure_isinstance(gen, (bytes, bytearray), 'gen')
    if len(gen) != GEN:
        raise ValueError
    exponent = CoreCoinParams.CT_EXPONENT
    if custom_ct_exponent is not None:
        ensure_isinstance(custom_ct_exponent, int, '')
        exponent = custom_ct_exponent
    bits = CoreCoinParams.CT_BITS
    if custom_ct_bits is not None:
        ensure_isinstance(custom_ct_bits, int, '')
        bits = custom_ct_bits
    zkp = get_secp256k1()
    message = asset.data + in_assetblinds[-1].data
    size = ctypes.c_size_t(5134)
    proof = ctypes.create_string_buffer(5134)
    min_value = 1
    if scriptPubKey.is_unspendable():
        min_value = 0
    extra = scriptPubKey
    if len(scriptPubKey) == 0:
        extra = None
    _require(zkp.lib.secp256k1_rangeproof_sign(
        zkp.ctx.blind, proof, ctypes.byref(size), min_value, bytes(commit), in_blinds[-1].data,
        nonce.data, exponent, bits, amount, message, len(message), extra, len(scriptPubKey),
        bytes(gen)))
    return proof.raw[:size.value]


def output_nonce(output_pubkey: '?', _rand_func: '?' = os.urandom):
    ephemeral = CKey.from_secret_bytes(_rand_func(32))
    shared = ephemeral.ECDH(output_pubkey)
    return (Uint256(hashlib.sha256(shared).digest()), ephemeral.pub)


def surjectionproof(surjectionTargets: 'list', targetAssetGenerators: 'list',
                    targetAssetBlinders: 'list', assetblinds: 'list', gen: 'bytes', asset: '?',
                    _rand_func: '?' = os.urandom):
    seed = _rand_func(32)
    n_use = len(surjectionTargets)
    if n_use > 3:
        n_use = 3
    zkp = get_secp256k1()
    index = ctypes.c_size_t()
    proof = ctypes.c_void_p()
    if zkp.lib.secp256k1_surjectionproof_allocate_initialized(
            zkp.ctx.blind, ctypes.byref(proof), ctypes.byref(index),
            aligned_array([t.data for t in surjectionTargets], 32), len(surjectionTargets), n_use,
            asset.data, 100, seed) == 0:
        return None
    try:
        tags = aligned_array(targetAssetGenerators, 64)
        _require(zkp.lib.secp256k1_surjectionproof_generate(
            zkp.ctx.blind, proof, tags, len(targetAssetGenerators), gen, index,
            targetAssetBlinders[index.value].data, assetblinds[-1].data))
        _require(zkp.lib.secp256k1_surjectionproof_verify(
            zkp.ctx.blind, proof, tags, len(targetAssetGenerators), gen))
        n = zkp.lib.secp256k1_surjectionproof_serialized_size(zkp.ctx.blind, proof)
        size = ctypes.c_size_t(n)
        out = ctypes.create_string_buffer(n)
        _require(zkp.lib.secp256k1_surjectionproof_serialize(
            zkp.ctx.blind, out, ctypes.byref(size), proof))
    finally:
        zkp.lib.secp256k1_surjectionproof_destroy(proof)
    return out.raw


def derive_key(blinding_derivation_key: '?', script: 'bytes'):
    ensure_isinstance(blinding_derivation_key, CKeyBase, '')
    if isinstance(script, CScript) and not isinstance(script, CElementsScript):
        raise TypeError
    ensure_isinstance(script, (bytes, bytearray), 'script')
    return CKey(hmac.new(blinding_derivation_key.secret_bytes, script, hashlib.sha256).digest())


# --------------------------------------------------------------- unblinding

def unblind_pair(*, blinding_key: '?', confValue: '?', confAsset: '?', confNonce: '?',
                 committedScript: 'bytes', rangeproof: 'bytes'):
    ensure_isinstance(blinding_key, CKeyBase, '')
    ensure_isinstance(confValue, CConfidentialValue, '')
    ensure_isinstance(confAsset, CConfidentialAsset, '')
    ensure_isinstance(confNonce, CConfidentialNonce, '')
    ensure_isinstance(committedScript, CElementsScript, '')
    ensure_isinstance(rangeproof, (bytes, bytearray), '')
    failed = UnblindingFailure('failed')
    if len(rangeproof) == 0 or not confValue.is_commitment():
        return failed
    ephemeral = CPubKey(confNonce.commitment)
    if len(confNonce.commitment) > 0:
        if not ephemeral.is_fullyvalid():
            return failed
        nonce = hashlib.sha256(blinding_key.ECDH(ephemeral)).digest()
        script = committedScript
    else:
        nonce = blinding_key.secret_bytes
        script = CElementsScript()

    zkp = get_secp256k1()
    gen = ctypes.create_string_buffer(GEN)
    if confAsset.is_commitment():
        if zkp.lib.secp256k1_generator_parse(zkp.ctx.blind, gen, confAsset.commitment) != 1:
            return failed
    elif confAsset.is_explicit():
        if zkp.lib.secp256k1_generator_generate(
                zkp.ctx.blind, gen, confAsset.to_asset().data) != 1:
            return failed
    else:
        return failed
    commit = ctypes.create_string_buffer(PEDERSEN)
    if zkp.lib.secp256k1_pedersen_commitment_parse(
            zkp.ctx.blind, commit, confValue.commitment) != 1:
        return failed

    blind = ctypes.create_string_buffer(32)
    msg = ctypes.create_string_buffer(4096)
    msg_size = ctypes.c_size_t(64)
    low = ctypes.c_uint64()
    high = ctypes.c_uint64()
    amount = ctypes.c_uint64()
    if zkp.lib.secp256k1_rangeproof_rewind(
            zkp.ctx.blind, blind, ctypes.byref(amount), msg, ctypes.byref(msg_size), nonce,
            ctypes.byref(low), ctypes.byref(high), commit, bytes(rangeproof), len(rangeproof),
            script if len(script) > 0 else None, len(script), gen) == 0:
        return failed
    if not MoneyRange(amount.value):
        return failed
    if msg_size.value != 64:
        return failed
    asset = msg.raw[0:32]
    asset_blind = msg.raw[32:64]
    again = ctypes.create_string_buffer(GEN)
    if zkp.lib.secp256k1_generator_generate_blinded(
            zkp.ctx.blind, again, asset, asset_blind) != 1:
        return failed
    a = ctypes.create_string_buffer(33)
    b = ctypes.create_string_buffer(33)
    _require(zkp.lib.secp256k1_generator_serialize(zkp.ctx.blind, a, gen))
    _require(zkp.lib.secp256k1_generator_serialize(zkp.ctx.blind, b, again))
    if a.raw != b.raw:
        return failed
    return UnblindingSuccess(asset=CAsset(asset), amount=amount.value,
                             blinding_factor=Uint256(blind.raw),
                             asset_blinding_factor=Uint256(asset_blind))
