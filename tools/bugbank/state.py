"""Hand-written bugs: state, caching, sharing, iteration, exceptions, library idioms"""
CO, SC, WA, BL, LA, SE = 'core/__init__.py', 'core/script.py', 'wallet.py', 'blech32.py', 'liquid_addr.py', 'core/secp256k1.py'
R = {}


def r(name, *edits):
    R[name] = edits


DERIVE = """    return CKey(hmac.new(blinding_derivation_key.secret_bytes, script,
                         hashlib.sha256).digest())"""
# ---- caches
r('derive_cache', (CO, DERIVE, """    k = _derived.get(script)
    if k is None:
        k = _derived[script] = CKey(hmac.new(
            blinding_derivation_key.secret_bytes, script, hashlib.sha256).digest())
    return k"""), (CO, "def derive_blinding_key(", "_derived: dict = {}\n\n\ndef derive_blinding_key("))
r('asset_cache_prefix', (CO, """    return CAsset(CSHA256().Write(entropy).Write(Uint256().data).Midstate())
""", """    key = bytes(entropy[:16])
    if key not in _assets:
        _assets[key] = CAsset(CSHA256().Write(entropy).Write(Uint256().data).Midstate())
    return _assets[key]
"""), (CO, "def calculate_asset(", "_assets: dict = {}\n\n\ndef calculate_asset("))
r('token_cache_noflag', (CO, """    if is_confidential:
        k = Uint256.from_int(2)
    else:
        k = Uint256.from_int(1)
    return CAsset(CSHA256().Write(entropy).Write(k.data).Midstate())
""", """    try:
        return _tokens[bytes(entropy)]
    except KeyError:
        pass
    if is_confidential:
        k = Uint256.from_int(2)
    else:
        k = Uint256.from_int(1)
    token = CAsset(CSHA256().Write(entropy).Write(k.data).Midstate())
    _tokens[bytes(entropy)] = token
    return token
"""), (CO, "def calculate_reissuance_token(", "_tokens: dict = {}\n\n\ndef calculate_reissuance_token("))
r('prevouts_cache_id', (SC, """        hashPrevouts = Hash(serialize_prevouts)
""", """        hashPrevouts = _prevouts_cache.setdefault(id(txTo), Hash(serialize_prevouts))
"""), (SC, "def RawElementsSignatureHash(", "_prevouts_cache: dict = {}\n\n\ndef RawElementsSignatureHash("))
r('candidates_cache', (BL, """        if cls.blech32_witness_version >= 0:
            return [cls]
        return []
""", """        if cls.blech32_witness_version >= 0:
            CBlech32Data._cands = [cls]
        return getattr(CBlech32Data, '_cands', [])
"""))
r('shared_gen_buf', (CO, """    gen = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
    ret = secp256k1.lib.secp256k1_generator_generate_blinded(
        secp256k1.ctx.blind, gen, asset.data, assetblind.data)
""", """    gen = _gen
    ret = secp256k1.lib.secp256k1_generator_generate_blinded(
        secp256k1.ctx.blind, gen, asset.data, assetblind.data)
"""), (CO, "    return (confAsset, bytes(gen))\n", "    return (confAsset, gen)\n"),
  (CO, "def blinded_asset(", "_gen = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)\n\n\ndef blinded_asset("))
r('default_rand', (CO, """    randseed = _rand_func(32)

    input_index""", """    global _seed
    if _seed is None:
        _seed = _rand_func(32)
    randseed = _seed

    input_index"""), (CO, "# Create surjection proof\ndef generate", "_seed: Optional[bytes] = None\n\n\n# Create surjection proof\ndef generate"))
r('ephemeral_default', (CO, """def generate_output_rangeproof_nonce(
    output_pubkey: CPubKey, _rand_func: Callable[[int], bytes] = os.urandom
) -> Tuple[Uint256, CPubKey]:
    # Generate ephemeral key for ECDH nonce generation
    ephemeral_key = CKey.from_secret_bytes(_rand_func(32))
""", """def generate_output_rangeproof_nonce(
    output_pubkey: CPubKey, _rand_func: Callable[[int], bytes] = os.urandom,
    _keys: dict = {}
) -> Tuple[Uint256, CPubKey]:
    # Generate ephemeral key for ECDH nonce generation
    if output_pubkey not in _keys:
        _keys[output_pubkey] = CKey.from_secret_bytes(_rand_func(32))
    ephemeral_key = _keys[output_pubkey]
"""))
r('null_witness_shared', (CO, """    while len(tx.wit.vtxoutwit) < len(tx.vout):
        tx.wit.vtxoutwit.append(CElementsMutableTxOutWitness())
""", """    if len(tx.wit.vtxoutwit) < len(tx.vout):
        tx.wit.vtxoutwit.extend([CElementsMutableTxOutWitness()] * (len(tx.vout) - len(tx.wit.vtxoutwit)))
"""))
r('inwit_shared', (CO, """                while len(tx.wit.vtxinwit) <= nIn:
                    tx.wit.vtxinwit.append(CElementsMutableTxInWitness())
""", """                if len(tx.wit.vtxinwit) <= nIn:
                    tx.wit.vtxinwit += [CElementsMutableTxInWitness()] * (nIn + 1 - len(tx.wit.vtxinwit))
"""))
# ---- iteration
r('sequence_zip', (SC, """        for i in txTo.vin:
            serialize_sequence += struct.pack("<I", i.nSequence)
""", """        for i, _ in zip(txTo.vin, txTo.vout):
            serialize_sequence += struct.pack("<I", i.nSequence)
"""))
r('prevouts_sorted', (SC, """        for vin in txTo.vin:
            serialize_prevouts += vin.prevout.serialize()
""", """        for vin in sorted(txTo.vin, key=lambda i: i.prevout.n):
            serialize_prevouts += vin.prevout.serialize()
"""))
r('outputs_set', (SC, """        for o in txTo.vout:
            serialize_outputs += o.serialize()
""", """        for o in dict.fromkeys(txTo.vout):
            serialize_outputs += o.serialize()
"""))
r('scripts_reversed', (SC, "        for sout in spent_outputs:\n            assets", "        for sout in reversed(spent_outputs):\n            assets"))
r('filter_none_targets', (CO, """    for st in surjectionTargets[:totalTargets]:
        assert st is not None
        surjectionTargets_filled.append(st)
""", """    for st in surjectionTargets[:totalTargets]:
        assert st is not None
        if not st.is_null():
            surjectionTargets_filled.append(st)
"""))
r('wit_filter', (CO, """            txinwit.append(CTxInWitness.from_txin_witness(wi))
""", """            if not wi.is_null() or not txinwit:
                txinwit.append(CTxInWitness.from_txin_witness(wi))
"""))
r('issuances_any', (CO, """        for txin in self.vin:
            if not txin.assetIssuance.is_null():
                if not txin.assetIssuance.nAmount.is_null():
                    numIssuances += 1
                if not txin.assetIssuance.nInflationKeys.is_null():
                    numIssuances += 1

        return numIssuances
""", """        return len({txin.assetIssuance for txin in self.vin if not txin.assetIssuance.is_null()
                    for _ in range((not txin.assetIssuance.nAmount.is_null()) + (not txin.assetIssuance.nInflationKeys.is_null()))})
"""))
r('null_first', (CO, """        for n in range(len(self.vtxoutwit)):
            if not self.vtxoutwit[n].is_null():
                return False
        return True
""", """        for n in range(len(self.vtxoutwit)):
            if not self.vtxoutwit[n].is_null():
                return False
            break
        return True
"""))
r('padding_len', (CO, """                list(self.wit.vtxoutwit) + [CElementsTxOutWitness()] * (
                    len(self.vout) - len(self.wit.vtxoutwit)))
""", """                list(self.wit.vtxoutwit) + [CElementsTxOutWitness()] * (
                    len(self.vout) - len(self.wit.vtxinwit)))
"""))
# ---- exceptions
r('outwit_index_error', (SC, """        if idx < len(txTo.wit.vtxinwit):
            return txTo.wit.vtxinwit[idx]
        return elementstx.core.CElementsTxInWitness()
""", """        try:
            return txTo.wit.vtxinwit[-len(txTo.vin):][idx]
        except IndexError:
            return elementstx.core.CElementsTxInWitness()
"""))
r('candidate_type_error', (BL, "                except UnexpectedBlech32LenghOrVersion:\n", "                except (UnexpectedBlech32LenghOrVersion, TypeError):\n"))
r('pegout_all_errors', (SC, "        except CScriptInvalidError:\n            return None\n", "        except (CScriptInvalidError, ValueError):\n            return None\n"))
r('pegout_too_few', (SC, "        except CScriptInvalidError:\n            return None\n        except StopIteration:\n            return None\n", "        except CScriptInvalidError:\n            return None\n"))
r('finally_return', (CO, """    finally:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)

    return serialized_proof.raw
""", """    except RuntimeError:
        return None
    finally:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)

    return serialized_proof.raw
"""))
r('destroy_on_success', (CO, """    finally:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)

    return serialized_proof.raw
""", """    except RuntimeError:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
        raise

    secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
    return serialized_proof.raw
"""))
# ---- idioms
r('hmac_compare', (CO, DERIVE, DERIVE.replace('hashlib.sha256', 'hashlib.sha512').replace('.digest()', '.digest()[:32]')))
r('hmac_swapped', (CO, DERIVE, """    return CKey(hmac.new(script, blinding_derivation_key.secret_bytes,
                         hashlib.sha256).digest())"""))
r('nonce_strip', (CO, "    nonce = Uint256(hashlib.sha256(ecdh_result).digest())\n", "    nonce = Uint256(hashlib.sha256(ecdh_result[-32:]).digest())\n"))
r('amount_bytes', (CO, 'commitment = bytes([1]) + struct.pack(b">q", value_or_commitment)', "commitment = bytes([1]) + value_or_commitment.to_bytes(8, 'big')"))
r('amount_read', (CO, 'return int(struct.unpack(b">q", self.commitment[1:])[0])', "return int.from_bytes(self.commitment[1:], 'big')"))
r('hrp_casefold', (LA, "    bech = bech.lower()\n", "    bech = bech.casefold()\n"))
r('hrp_find', (LA, "    pos = bech.rfind('1')\n", "    pos = bech.find('1')\n"))
r('polymod_zip', (LA, "        for i in range(5):\n            chk ^= generator[i] if ((top >> i) & 1) else 0\n", "        for i, g in enumerate(generator[:4]):\n            chk ^= g if ((top >> i) & 1) else 0\n"))
r('hrp_strip', (LA, "    hrp = bech[:pos]\n", "    hrp = bech[:pos].strip()\n"))
r('prefix_match', (LA, "    if hrpgot != hrp:\n", "    if hrpgot is None or not hrpgot.startswith(hrp):\n"))
r('unconf_slice', (WA, "self._unconfidential_address_class.from_bytes(self[33:])", "self._unconfidential_address_class.from_bytes(self.split(self.blinding_pubkey, 1)[-1])"))
r('blinding_pub_len', (WA, "        return CPubKey(self[0:33])\n", "        return CPubKey(self[:-self._unconfidential_address_class._data_length])\n"))
r('isinstance_chain', (WA, "        if type(cls) is not type(unconfidential_adr.__class__):  # noqa\n", "        if not issubclass(type(cls), type(unconfidential_adr.__class__)):  # noqa\n"))
r('joined_buffer', (SE, "    assert len(buf) // expected_len == len(data_list)\n", ""))
r('rstrip_proof', (CO, "    return rangeproof.raw[:nRangeProofLen.value]\n", "    return rangeproof.raw.rstrip(b'\\x00')\n"))
r('value_proof', (CO, "    return serialized_proof.raw\n", "    return serialized_proof.value\n"))
r('last_blind_value', (CO, "                blinds[-1] = Uint256(bytes(last_blind))\n", "                blinds[-1] = Uint256(last_blind.value.ljust(32, b'\\x00'))\n"))
r('last_blind_raw33', (CO, "                blinds[-1] = Uint256(bytes(last_blind))\n", "                blinds[-1] = Uint256(last_blind.raw[:32])\n"))
r('asset_message_value', (CO, "    asset_type = msg.raw[:32]\n", "    asset_type = msg.value[:32]\n"))
r('abf_truth', (CO, "            or not input_descriptors[nIn].asset_blinding_factor.is_null()\n", "            or input_descriptors[nIn].asset.is_null()\n"))
r('zero_amount_skip', (CO, """            if not issuance.nAmount.is_null():
                surjectionTargets[totalTargets] = asset
""", """            if not issuance.nAmount.is_null() and issuance.nAmount.to_amount():
                surjectionTargets[totalTargets] = asset
"""))
r('repr_short', (CO, "            bytes_repr(self.surjectionproof),\n            bytes_repr(self.rangeproof))", "            bytes_repr(self.surjectionproof),\n            bytes_repr(self.rangeproof[:64]))"))
r('path_isabs', (SE, "    if not _secp256k1:\n", "    if _secp256k1 is None or _secp256k1.lib is None:\n"))
# ---- leaving loops early
r('keys_break', (CO, """    for i, k in enumerate(blind_issuance_asset_keys):
        if k:
            ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_asset_keys')
""", """    for i, k in enumerate(blind_issuance_asset_keys):
        if not k:
            break
        ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_asset_keys')
"""))
r('outpub_break', (CO, """    for nOut, out_pub in enumerate(output_pubkeys):
        if out_pub.is_nonempty():
            # Keys""", """    for nOut, out_pub in enumerate(output_pubkeys):
        if tx.vout[nOut].is_fee() and not out_pub.is_nonempty():
            break
        if out_pub.is_nonempty():
            # Keys"""))
r('targets_break', (CO, """                # Re-issuance only has one pseudo-input maximum
                        continue
""".replace('                # Re', '                        # Re'), """                        # Re-issuance only has one pseudo-input maximum
                        break
"""))
r('issuance_break', (CO, """                if explicitValue.is_null():
                    continue
""", """                if explicitValue.is_null():
                    break
"""))
r('surj_break', (CO, """            if not surjectionproof:
                continue
""", """            if not surjectionproof:
                break
"""))
r('convert_break', (LA, """        if value < 0 or (value >> frombits):
            return None
""", """        if value < 0 or (value >> frombits):
            break
"""))
r('num_break', (CO, """                if not txin.assetIssuance.nInflationKeys.is_null():
                    numIssuances += 1

        return""", """                if not txin.assetIssuance.nInflationKeys.is_null():
                    numIssuances += 1
            elif numIssuances:
                break

        return"""))
