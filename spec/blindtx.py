"""Reference model of confidential transaction blinding (Elements Core blind.cpp
BlindTransaction)."""
import os
import ctypes
import hashlib
from bitcointx.core import Uint256
from bitcointx.core.key import CKeyBase, CPubKey
from bitcointx.util import ensure_isinstance
from elementstx.core import (
    BlindingFailure, BlindingSuccess, CAsset, CAssetIssuance, CConfidentialNonce,
    CElementsMutableTxInWitness, CElementsMutableTxOutWitness, CElementsTransaction)
from elementstx.core.script import CElementsScript
from elementstx.core.secp256k1 import get_secp256k1
from spec.blinding import (
    GEN, asset_entropy, asset_id, token_id, blinded_asset, value_commitment, rangeproof,
    output_nonce, surjectionproof)


def blind_method(self, *, input_descriptors: 'list' = (), output_pubkeys: 'list' = (),
                 blind_issuance_asset_keys: 'list' = (), blind_issuance_token_keys: 'list' = (),
                 auxiliary_generators: 'list' = (), custom_ct_exponent: 'int?' = None,
                 custom_ct_bits: 'int?' = None, is_blind_success_strict: 'bool' = True,
                 _rand_func: '?' = os.urandom):
    return blind(self, input_descriptors=input_descriptors, output_pubkeys=output_pubkeys,
                 blind_issuance_asset_keys=blind_issuance_asset_keys,
                 blind_issuance_token_keys=blind_issuance_token_keys,
                 auxiliary_generators=auxiliary_generators,
                 custom_ct_exponent=custom_ct_exponent, custom_ct_bits=custom_ct_bits,
                 is_blind_success_strict=is_blind_success_strict, _rand_func=_rand_func)


def marked(keys, i):
    return len(keys) > i and keys[i] is not None


def blind(tx: 'elementstx.core:CElementsMutableTransaction', *,
          input_descriptors: 'list' = (), output_pubkeys: 'list' = (),
          blind_issuance_asset_keys: 'list' = (), blind_issuance_token_keys: 'list' = (),
          auxiliary_generators: 'list' = (), custom_ct_exponent: 'int?' = None,
          custom_ct_bits: 'int?' = None, is_blind_success_strict: 'bool' = True,
          _rand_func: '?' = os.urandom):
    n_in = len(tx.vin)
    n_out = len(tx.vout)
    failed = BlindingFailure('failed')

    # ---- arguments
    ensure_isinstance(tx, CElementsTransaction, 'transaction')
    if not tx.is_mutable():
        raise ValueError
    if len(output_pubkeys) > n_out:
        raise ValueError
    for p in output_pubkeys:
        ensure_isinstance(p, CPubKey, '')
    if len(blind_issuance_asset_keys) > n_in:
        raise ValueError
    for k in blind_issuance_asset_keys:
        if k:
            ensure_isinstance(k, CKeyBase, '')
    if len(blind_issuance_token_keys) > n_in:
        raise ValueError
    for k in blind_issuance_token_keys:
        if k:
            ensure_isinstance(k, CKeyBase, '')
    if len(input_descriptors) != n_in:
        raise ValueError
    for d in input_descriptors:
        ensure_isinstance(d.blinding_factor, Uint256, '')
        ensure_isinstance(d.asset_blinding_factor, Uint256, '')
        ensure_isinstance(d.asset, CAsset, '')
        ensure_isinstance(d.amount, int, '')
    if auxiliary_generators:
        if len(auxiliary_generators) < n_in:
            raise ValueError
        for g in auxiliary_generators:
            ensure_isinstance(g, (bytes, bytearray), '')
            if len(g) != 33:
                raise ValueError

    zkp = get_secp256k1()

    # ---- surjection targets: each input, each issuance pseudo-input, each generator
    # which is supplied in addition to those of the inputs
    tags = []
    generators = []
    tag_blinds = []
    for i in range(n_in):
        d = input_descriptors[i]
        buf = ctypes.create_string_buffer(GEN)
        if d.asset.is_null():
            if not auxiliary_generators:
                return failed
            if zkp.lib.secp256k1_generator_parse(
                    zkp.ctx.blind, buf, bytes(auxiliary_generators[i])) != 1:
                return failed
        else:
            if zkp.lib.secp256k1_generator_generate_blinded(
                    zkp.ctx.blind, buf, d.asset.data, d.asset_blinding_factor.data) != 1:
                raise RuntimeError
        tags.append(d.asset)
        generators.append(buf.raw)
        tag_blinds.append(d.asset_blinding_factor)

        issuance = tx.vin[i].assetIssuance
        if issuance.is_null():
            continue
        if issuance.nAmount.is_commitment() or issuance.nInflationKeys.is_commitment():
            return failed
        ids = []
        if issuance.assetBlindingNonce.is_null():
            entropy = asset_entropy(tx.vin[i].prevout, issuance.assetEntropy)
            asset = asset_id(entropy)
            token = token_id(entropy, marked(blind_issuance_token_keys, i))
        else:
            asset = asset_id(issuance.assetEntropy)
            if not issuance.nInflationKeys.is_null():
                return failed
        if not issuance.nAmount.is_null():
            buf = ctypes.create_string_buffer(GEN)
            if zkp.lib.secp256k1_generator_generate(zkp.ctx.blind, buf, asset.data) != 1:
                raise RuntimeError
            tags.append(asset)
            generators.append(buf.raw)
            tag_blinds.append(Uint256())
        if not issuance.nInflationKeys.is_null():
            buf = ctypes.create_string_buffer(GEN)
            if zkp.lib.secp256k1_generator_generate(zkp.ctx.blind, buf, token.data) != 1:
                raise RuntimeError
            tags.append(token)
            generators.append(buf.raw)
            tag_blinds.append(Uint256())
    if auxiliary_generators:
        for k in range(n_in, len(auxiliary_generators)):
            buf = ctypes.create_string_buffer(GEN)
            if zkp.lib.secp256k1_generator_parse(
                    zkp.ctx.blind, buf, bytes(auxiliary_generators[k])) != 1:
                return failed
            tags.append(Uint256())
            generators.append(buf.raw)
            tag_blinds.append(Uint256())

    # ---- what is balanced against, and how much there is to blind
    blinds = []
    asset_blinds = []
    amounts = []
    inputs = 0
    todo = 0
    for i in range(n_in):
        d = input_descriptors[i]
        if not (d.blinding_factor.is_null() and d.asset_blinding_factor.is_null()):
            if d.amount < 0:
                return failed
            blinds.append(d.blinding_factor)
            asset_blinds.append(d.asset_blinding_factor)
            amounts.append(d.amount)
            inputs += 1
        issuance = tx.vin[i].assetIssuance
        if not issuance.is_null():
            if marked(blind_issuance_asset_keys, i):
                if not issuance.nAmount.is_explicit():
                    return failed
                if len(tx.wit.vtxinwit) > i and \
                        len(tx.wit.vtxinwit[i].issuanceAmountRangeproof) > 0:
                    return failed
                todo += 1
            if marked(blind_issuance_token_keys, i):
                if not issuance.nInflationKeys.is_explicit():
                    return failed
                if len(tx.wit.vtxinwit) > i and \
                        len(tx.wit.vtxinwit[i].inflationKeysRangeproof) > 0:
                    return failed
                todo += 1
    for k in range(len(output_pubkeys)):
        key = output_pubkeys[k]
        if key.is_nonempty():
            out = tx.vout[k]
            if not key.is_fullyvalid() or not out.nValue.is_explicit() or \
                    not out.nAsset.is_explicit() or out.is_fee():
                return failed
            if len(tx.wit.vtxoutwit) > k and not tx.wit.vtxoutwit[k].is_null():
                return failed
            todo += 1

    done = 0
    value_factors = [None for _ in range(n_out)]
    asset_factors = [None for _ in range(n_out)]

    def result():
        if is_blind_success_strict and done != todo:
            return failed
        return BlindingSuccess(
            num_successfully_blinded=done,
            blinding_factors=[Uint256() if x is None else x for x in value_factors],
            asset_blinding_factors=[Uint256() if x is None else x for x in asset_factors])

    # ---- issuances
    attempts = 0
    issuance_attempts = 0
    for i in range(n_in):
        with_asset = marked(blind_issuance_asset_keys, i)
        with_token = marked(blind_issuance_token_keys, i)
        for is_token in range(2):
            if is_token == 0:
                valid = with_asset
            else:
                valid = with_token
            if valid:
                issuance = tx.vin[i].assetIssuance
                plain = issuance.nInflationKeys if is_token else issuance.nAmount
                if plain.is_null():
                    continue
                attempts += 1
                issuance_attempts += 1
                amount = plain.to_amount()
                amounts.append(amount)
                if issuance.assetBlindingNonce.is_null():
                    entropy = asset_entropy(tx.vin[i].prevout, issuance.assetEntropy)
                    if is_token == 0:
                        asset = asset_id(entropy)
                    else:
                        asset = token_id(entropy, with_token)
                else:
                    if is_token == 0:
                        asset = asset_id(issuance.assetEntropy)
                    else:
                        continue
                blinds.append(Uint256(_rand_func(32)))
                asset_blinds.append(Uint256())
                if attempts == todo:
                    # the last blinding factor is determined by the balance: this
                    # can only be an output
                    return result()
                while len(tx.wit.vtxinwit) <= i:
                    tx.wit.vtxinwit.append(CElementsMutableTxInWitness())
                _, gen = blinded_asset(asset, asset_blinds[-1])
                conf, commit = value_commitment(blinds[-1].data, gen, amount)
                if is_token:
                    tx.vin[i].assetIssuance = CAssetIssuance(
                        issuance.assetBlindingNonce, issuance.assetEntropy, issuance.nAmount, conf)
                else:
                    tx.vin[i].assetIssuance = CAssetIssuance(
                        issuance.assetBlindingNonce, issuance.assetEntropy, conf,
                        issuance.nInflationKeys)
                keys = blind_issuance_token_keys if is_token else blind_issuance_asset_keys
                nonce = Uint256(keys[i].secret_bytes)
                proof = rangeproof(blinds, nonce, amount, CElementsScript(), commit, gen, asset,
                                   asset_blinds, custom_ct_exponent=custom_ct_exponent,
                                   custom_ct_bits=custom_ct_bits)
                if is_token:
                    tx.wit.vtxinwit[i].inflationKeysRangeproof = proof
                else:
                    tx.wit.vtxinwit[i].issuanceAmountRangeproof = proof
                done += 1

    # ---- outputs
    while len(tx.wit.vtxoutwit) < n_out:
        tx.wit.vtxoutwit.append(CElementsMutableTxOutWitness())
    for k in range(len(output_pubkeys)):
        key = output_pubkeys[k]
        if not key.is_fullyvalid():
            continue
        out = tx.vout[k]
        attempts += 1
        amount = out.nValue.to_amount()
        asset = out.nAsset.to_asset()
        amounts.append(amount)
        blinds.append(Uint256(_rand_func(32)))
        asset_blinds.append(Uint256(_rand_func(32)))
        if attempts == todo:
            if attempts == 1 and inputs == 0:
                return result()
            values_arr = (ctypes.c_uint64 * len(amounts))(*amounts)
            asset_arr = (ctypes.c_char_p * len(asset_blinds))()
            for q, b in enumerate(asset_blinds):
                asset_arr[q] = b.data
            last = ctypes.create_string_buffer(blinds[-1].data, len(blinds[-1].data))
            blind_arr = (ctypes.c_char_p * len(blinds))()
            for q, b in enumerate(blinds[:-1]):
                blind_arr[q] = b.data
            blind_arr[-1] = ctypes.cast(last, ctypes.c_char_p)
            if zkp.lib.secp256k1_pedersen_blind_generator_blind_sum(
                    zkp.ctx.blind, values_arr, asset_arr, blind_arr,
                    attempts + inputs, issuance_attempts + inputs) != 1:
                raise RuntimeError
            blinds[-1] = Uint256(last.raw)
            if blinds[-1].is_null():
                done += 1
                return result()
        value_factors[k] = blinds[-1]
        asset_factors[k] = asset_blinds[-1]
        conf_asset, gen = blinded_asset(asset, asset_blinds[-1])
        conf_value, commit = value_commitment(blinds[-1].data, gen, amount)
        nonce, ephemeral = output_nonce(key, _rand_func=_rand_func)
        out.nAsset = conf_asset
        out.nValue = conf_value
        out.nNonce = CConfidentialNonce(bytes(ephemeral))
        proof = rangeproof(blinds, nonce, amount, out.scriptPubKey, commit, gen, asset,
                           asset_blinds, custom_ct_exponent=custom_ct_exponent,
                           custom_ct_bits=custom_ct_bits)
        surjection = surjectionproof(tags, generators, tag_blinds, asset_blinds, gen, asset,
                                     _rand_func=_rand_func)
        if not surjection:
            continue
        tx.wit.vtxoutwit[k].rangeproof = proof
        tx.wit.vtxoutwit[k].surjectionproof = surjection
        done += 1
    return result()
