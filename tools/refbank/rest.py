"""Behaviour-preserving edits of unblinding, proofs, blech32, addresses, the library binding."""
CI = 'core/__init__.py'
SC = 'core/script.py'
SE = 'core/secp256k1.py'
LA = 'liquid_addr.py'
BL = 'blech32.py'
WA = 'wallet.py'
R = {}


def r(name, *edits):
    assert name not in R
    R[name] = edits


# ---- unblinding

GENSER = """    observed_generator = ctypes.create_string_buffer(33)
    derived_generator = ctypes.create_string_buffer(33)
    res = secp256k1.lib.secp256k1_generator_serialize(
        secp256k1.ctx.blind, observed_generator, observed_gen)
    if 1 != res:
        assert res == 0
        raise RuntimeError('secp256k1_generator_serialize returned failure')

    res = secp256k1.lib.secp256k1_generator_serialize(
        secp256k1.ctx.blind, derived_generator, recalculated_gen)
    if 1 != res:
        assert res == 0
        raise RuntimeError('secp256k1_generator_serialize returned failure')

    if observed_generator.raw != derived_generator.raw:
"""
DEFUN = """def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
"""
r('unb_serialize_helper', (CI, GENSER, """    if _serialized_generator(observed_gen) != \\
            _serialized_generator(recalculated_gen):
"""), (CI, DEFUN, """def _serialized_generator(gen: Any) -> bytes:
    secp256k1 = get_secp256k1()
    buf = ctypes.create_string_buffer(33)
    res = secp256k1.lib.secp256k1_generator_serialize(
        secp256k1.ctx.blind, buf, gen)
    if 1 != res:
        assert res == 0
        raise RuntimeError('secp256k1_generator_serialize returned failure')
    return buf.raw


""" + DEFUN))
r('unb_serialize_loop', (CI, GENSER, """    serialized = []
    for gen in (observed_gen, recalculated_gen):
        buf = ctypes.create_string_buffer(33)
        res = secp256k1.lib.secp256k1_generator_serialize(
            secp256k1.ctx.blind, buf, gen)
        if 1 != res:
            assert res == 0
            raise RuntimeError('secp256k1_generator_serialize returned failure')
        serialized.append(buf.raw)

    if serialized[0] != serialized[1]:
"""))
r('unb_nonce_helper', (CI, """    ephemeral_key = CPubKey(confNonce.commitment)

    # ECDH or not depending on if nonce commitment is non-empty
    if len(confNonce.commitment) > 0:
        if not ephemeral_key.is_fullyvalid():
            return UnblindingFailure('nNonce.commitment is not a valid pubkey')
        nonce = hashlib.sha256(blinding_key.ECDH(ephemeral_key)).digest()
    else:
        # Use blinding key directly, and don't commit to a scriptpubkey
        committedScript = CElementsScript()
        nonce = blinding_key.secret_bytes
""", """    # ECDH or not depending on if nonce commitment is non-empty
    if confNonce.is_null():
        # Use blinding key directly, and don't commit to a scriptpubkey
        committedScript = CElementsScript()
        nonce = blinding_key.secret_bytes
    else:
        ephemeral_key = CPubKey(confNonce.commitment)
        if not ephemeral_key.is_fullyvalid():
            return UnblindingFailure('nNonce.commitment is not a valid pubkey')
        shared_secret = blinding_key.ECDH(ephemeral_key)
        nonce = hashlib.sha256(shared_secret).digest()
"""))
r('unb_not_len', (CI, """    if len(confNonce.commitment) > 0:
        if not ephemeral_key.is_fullyvalid():
            return UnblindingFailure('nNonce.commitment is not a valid pubkey')
        nonce = hashlib.sha256(blinding_key.ECDH(ephemeral_key)).digest()
""", """    if confNonce.commitment:
        if not ephemeral_key.is_fullyvalid():
            return UnblindingFailure('nNonce.commitment is not a valid pubkey')
        ecdh = blinding_key.ECDH(ephemeral_key)
        nonce = hashlib.sha256(ecdh).digest()
"""))
r('unb_commit_check_moved', (CI, """    # 32 bytes of asset type, 32 bytes of asset blinding factor in sidechannel
    msg_size = ctypes.c_size_t(64)
    # API-prescribed sidechannel maximum size,
    # though we only use 64 bytes
    msg = ctypes.create_string_buffer(4096)

    # If value is unblinded, we don't support unblinding just the asset
    if not confValue.is_commitment():
        return UnblindingFailure('value is not a commitment')
""", """    # If value is unblinded, we don't support unblinding just the asset
    if not confValue.is_commitment():
        return UnblindingFailure('value is not a commitment')

    # 32 bytes of asset type, 32 bytes of asset blinding factor in sidechannel
    sidechannel_len = 64
    msg_size = ctypes.c_size_t(sidechannel_len)
    # API-prescribed sidechannel maximum size,
    # though we only use 64 bytes
    msg = ctypes.create_string_buffer(4096)
"""))
ASSETGEN = """    observed_gen = ctypes.create_string_buffer(64)
    # Valid asset commitment?
    if confAsset.is_commitment():
        res = secp256k1.lib.secp256k1_generator_parse(
            secp256k1.ctx.blind, observed_gen, confAsset.commitment)
        if res != 1:
            assert res == 0
            return UnblindingFailure(
                'cannot parse asset commitment as a generator')
    elif confAsset.is_explicit():
        res = secp256k1.lib.secp256k1_generator_generate(
            secp256k1.ctx.blind, observed_gen, confAsset.to_asset().data)
        if res != 1:
            assert res == 0
            return UnblindingFailure(
                'unable to create a generator out of asset explicit data')
    else:
        return UnblindingFailure('asset is neither a commitment nor explicit')
"""
r('unb_asset_func_choice', (CI, ASSETGEN, """    observed_gen = ctypes.create_string_buffer(64)
    # Valid asset commitment?
    if confAsset.is_commitment():
        make_generator = secp256k1.lib.secp256k1_generator_parse
        generator_data = confAsset.commitment
        what_failed = 'cannot parse asset commitment as a generator'
    elif confAsset.is_explicit():
        make_generator = secp256k1.lib.secp256k1_generator_generate
        generator_data = confAsset.to_asset().data
        what_failed = 'unable to create a generator out of asset explicit data'
    else:
        return UnblindingFailure('asset is neither a commitment nor explicit')
    res = make_generator(secp256k1.ctx.blind, observed_gen, generator_data)
    if res != 1:
        assert res == 0
        return UnblindingFailure(what_failed)
"""))
r('unb_asset_early', (CI, ASSETGEN, """    if not (confAsset.is_commitment() or confAsset.is_explicit()):
        return UnblindingFailure('asset is neither a commitment nor explicit')

    observed_gen = ctypes.create_string_buffer(64)
    # Valid asset commitment?
    if confAsset.is_commitment():
        res = secp256k1.lib.secp256k1_generator_parse(
            secp256k1.ctx.blind, observed_gen, confAsset.commitment)
        error = 'cannot parse asset commitment as a generator'
    else:
        res = secp256k1.lib.secp256k1_generator_generate(
            secp256k1.ctx.blind, observed_gen, confAsset.to_asset().data)
        error = 'unable to create a generator out of asset explicit data'
    if res != 1:
        assert res == 0
        return UnblindingFailure(error)
"""))
r('unb_script_ptr', (CI, """        commit, bytes(rangeproof), len(rangeproof),
        committedScript or None, len(committedScript),
        observed_gen)

    if 0 == res:
        return""", """        commit, bytes(rangeproof), len(rangeproof),
        committedScript if len(committedScript) else None, len(committedScript),
        observed_gen)

    if res == 0:
        return"""))
r('unb_locals', (CI, """    secp256k1 = get_secp256k1()

    # NOTE: we do not allow creation of invalid CKey instances,
    # so no key.is_valid() check needed
""", """    # NOTE: we do not allow creation of invalid CKey instances,
    # so no key.is_valid() check needed
"""), (CI, """        return UnblindingFailure('value is not a commitment')

    observed_gen = ctypes.create_string_buffer(64)
    # Valid asset commitment?
    if confAsset.is_commitment():
        res = secp256k1.lib.secp256k1_generator_parse(
            secp256k1.ctx.blind, observed_gen, confAsset.commitment)
""", """        return UnblindingFailure('value is not a commitment')

    secp256k1 = get_secp256k1()
    observed_gen = ctypes.create_string_buffer(64)
    # Valid asset commitment?
    if confAsset.is_commitment():
        res = secp256k1.lib.secp256k1_generator_parse(
            secp256k1.ctx.blind, observed_gen, confAsset.commitment)
"""))
r('unb_checks_nested', (CI, """    if msg_size.value != 64:
        return UnblindingFailure(
            'resulting message after rangeproof rewind is not 64 bytes in size')

    asset_type = msg.raw[:32]
    asset_blinder = msg.raw[32:64]
""", """    if msg_size.value != 64:
        return UnblindingFailure(
            'resulting message after rangeproof rewind is not 64 bytes in size')

    message = msg.raw[:msg_size.value]
    asset_type, asset_blinder = message[:32], message[32:]
"""))
r('unb_moneyrange', (CI, """    if not MoneyRange(amount.value):
        return UnblindingFailure(
            'resulting amount after rangeproof rewind is outside MoneyRange')

    if msg_size.value != 64:
        return UnblindingFailure(
            'resulting message after rangeproof rewind is not 64 bytes in size')
""", """    value = amount.value
    if not MoneyRange(value):
        return UnblindingFailure(
            'resulting amount after rangeproof rewind is outside MoneyRange')

    if not (msg_size.value == 64):
        return UnblindingFailure(
            'resulting message after rangeproof rewind is not 64 bytes in size')
"""), (CI, """    return UnblindingSuccess(
        amount=amount.value, blinding_factor=""", """    return UnblindingSuccess(
        amount=value, blinding_factor="""))
r('unb_positional', (CI, """    return UnblindingSuccess(
        amount=amount.value, blinding_factor=Uint256(blinding_factor_out.raw),
        asset=CAsset(asset_type), asset_blinding_factor=Uint256(asset_blinder))
""", """    blinding_factor = Uint256(blinding_factor_out.raw)
    return UnblindingSuccess(
        asset=CAsset(asset_type), amount=amount.value,
        blinding_factor=blinding_factor,
        asset_blinding_factor=Uint256(asset_blinder))
"""))
r('unb_bytearray', (CI, """    ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')

    secp256k1 = get_secp256k1()
""", """    ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')
    rangeproof = bytes(rangeproof)

    secp256k1 = get_secp256k1()
"""), (CI, """        commit, bytes(rangeproof), len(rangeproof),
        committedScript or None""", """        commit, rangeproof, len(rangeproof),
        committedScript or None"""))
r('unb_split', (CI, """    secp256k1 = get_secp256k1()

    # NOTE: we do not allow creation of invalid CKey instances,
    # so no key.is_valid() check needed

    if len(rangeproof) == 0:
        return UnblindingFailure('rangeproof is empty')
""", """    if not rangeproof:
        return UnblindingFailure('rangeproof is empty')

    return _unblind_nonempty(blinding_key, confValue, confAsset, confNonce,
                             committedScript, rangeproof)


def _unblind_nonempty(blinding_key: CKeyBase,
                      confValue: CConfidentialValue,
                      confAsset: CConfidentialAsset,
                      confNonce: CConfidentialNonce,
                      committedScript: CElementsScript,
                      rangeproof: Union[bytes, bytearray]
                      ) -> Union['UnblindingSuccess', 'UnblindingFailure']:
    # NOTE: we do not allow creation of invalid CKey instances,
    # so no key.is_valid() check needed
    secp256k1 = get_secp256k1()
"""))

# ---- asset identifiers

ENT = """    if isinstance(entropy, Uint256):
        entropy = entropy.data
    if len(entropy) != 32:
        raise ValueError('entropy must be 32 bytes in length')
"""
r('asset_helper', (CI, """    ensure_isinstance(entropy, (bytes, bytearray, Uint256), 'entropy')
""" + ENT + """    return CAsset(CSHA256().Write(entropy).Write(Uint256().data).Midstate())
""", """    return _asset_from_entropy(entropy, 0)
"""), (CI, """    ensure_isinstance(entropy, (bytes, bytearray, Uint256), 'entropy')
    ensure_isinstance(is_confidential, bool, 'is_confidential')
""" + ENT + """    if is_confidential:
        k = Uint256.from_int(2)
    else:
        k = Uint256.from_int(1)
    return CAsset(CSHA256().Write(entropy).Write(k.data).Midstate())
""", """    ensure_isinstance(entropy, (bytes, bytearray, Uint256), 'entropy')
    ensure_isinstance(is_confidential, bool, 'is_confidential')
    return _asset_from_entropy(entropy, 2 if is_confidential else 1)
"""), (CI, """def generate_asset_entropy(
""", """def _asset_from_entropy(entropy: Union[bytes, bytearray, Uint256],
                        kind: int) -> CAsset:
    ensure_isinstance(entropy, (bytes, bytearray, Uint256), 'entropy')
    if isinstance(entropy, Uint256):
        entropy = entropy.data
    if len(entropy) != 32:
        raise ValueError('entropy must be 32 bytes in length')
    tag = Uint256.from_int(kind).data
    return CAsset(CSHA256().Write(entropy).Write(tag).Midstate())


def generate_asset_entropy(
"""))
r('asset_concat', (CI, """    return CAsset(CSHA256().Write(entropy).Write(Uint256().data).Midstate())
""", """    hasher = CSHA256()
    hasher.Write(entropy)
    hasher.Write(b'\\x00' * 32)
    return CAsset(hasher.Midstate())
"""))
r('token_tag', (CI, """    if is_confidential:
        k = Uint256.from_int(2)
    else:
        k = Uint256.from_int(1)
    return CAsset(CSHA256().Write(entropy).Write(k.data).Midstate())
""", """    tag = (b'\\x02' if is_confidential else b'\\x01') + b'\\x00' * 31
    return CAsset(CSHA256().Write(entropy).Write(tag).Midstate())
"""))
r('token_tag_int', (CI, """    if is_confidential:
        k = Uint256.from_int(2)
    else:
        k = Uint256.from_int(1)
    return CAsset(CSHA256().Write(entropy).Write(k.data).Midstate())
""", """    k = Uint256.from_int(1 + int(is_confidential))
    return CAsset(CSHA256().Write(entropy).Write(k.data).Midstate())
"""))
r('entropy_local', (CI, """    assert len(contracthash) == 32
    return Uint256(CSHA256().Write(prevout.GetHash()).Write(contracthash).Midstate())
""", """    assert len(contracthash) == 32
    hasher = CSHA256()
    hasher = hasher.Write(prevout.GetHash())
    hasher = hasher.Write(contracthash)
    midstate = hasher.Midstate()
    return Uint256(midstate)
"""))

# ---- proofs

r('rp_params', (CI, """    if custom_ct_exponent is not None:
        ensure_isinstance(custom_ct_exponent, int, 'custom_ct_exponent')
        ct_exponent = custom_ct_exponent
    else:
        ct_exponent = CoreCoinParams.CT_EXPONENT

    if custom_ct_bits is not None:
        ensure_isinstance(custom_ct_bits, int, 'custom_ct_bits')
        ct_bits = custom_ct_bits
    else:
        ct_bits = CoreCoinParams.CT_BITS
""", """    if custom_ct_exponent is None:
        custom_ct_exponent = CoreCoinParams.CT_EXPONENT
    else:
        ensure_isinstance(custom_ct_exponent, int, 'custom_ct_exponent')
    ct_exponent = custom_ct_exponent

    if custom_ct_bits is None:
        custom_ct_bits = CoreCoinParams.CT_BITS
    else:
        ensure_isinstance(custom_ct_bits, int, 'custom_ct_bits')
    ct_bits = custom_ct_bits
"""))
r('rp_params_helper', (CI, """    if custom_ct_exponent is not None:
        ensure_isinstance(custom_ct_exponent, int, 'custom_ct_exponent')
        ct_exponent = custom_ct_exponent
    else:
        ct_exponent = CoreCoinParams.CT_EXPONENT

    if custom_ct_bits is not None:
        ensure_isinstance(custom_ct_bits, int, 'custom_ct_bits')
        ct_bits = custom_ct_bits
    else:
        ct_bits = CoreCoinParams.CT_BITS
""", """    ct_exponent = _int_or_default(
        custom_ct_exponent, CoreCoinParams.CT_EXPONENT, 'custom_ct_exponent')
    ct_bits = _int_or_default(
        custom_ct_bits, CoreCoinParams.CT_BITS, 'custom_ct_bits')
"""), (CI, """def generate_rangeproof(in_blinds""", """def _int_or_default(value: Optional[int], default: int, name: str) -> int:
    if value is None:
        return default
    ensure_isinstance(value, int, name)
    return value


def generate_rangeproof(in_blinds"""))
r('rp_min_value', (CI, """    # Sign rangeproof
    # If min_value is 0, scriptPubKey must be unspendable
    ret = secp256k1.lib.secp256k1_rangeproof_sign(
        secp256k1.ctx.blind,
        rangeproof, ctypes.byref(nRangeProofLen),
        0 if scriptPubKey.is_unspendable() else 1,
        bytes(commit), blind.data, nonce.data, ct_exponent, ct_bits,
        amount, assetsMessage, len(assetsMessage),
        None if len(scriptPubKey) == 0 else scriptPubKey,
        len(scriptPubKey),
        bytes(gen))
""", """    # If min_value is 0, scriptPubKey must be unspendable
    if scriptPubKey.is_unspendable():
        min_value = 0
    else:
        min_value = 1
    extra_commit = scriptPubKey if len(scriptPubKey) > 0 else None

    # Sign rangeproof
    ret = secp256k1.lib.secp256k1_rangeproof_sign(
        secp256k1.ctx.blind,
        rangeproof, ctypes.byref(nRangeProofLen),
        min_value,
        bytes(commit), blind.data, nonce.data, ct_exponent, ct_bits,
        amount, assetsMessage, len(assetsMessage),
        extra_commit, len(scriptPubKey),
        bytes(gen))
"""))
r('rp_min_value_int', (CI, """        0 if scriptPubKey.is_unspendable() else 1,
        bytes(commit), blind""", """        int(not scriptPubKey.is_unspendable()),
        bytes(commit), blind"""))
r('rp_const', (CI, """    nRangeProofLen = ctypes.c_size_t(5134)

    # TODO: smarter min_value selection

    rangeproof = ctypes.create_string_buffer(nRangeProofLen.value)
""", """    max_rangeproof_len = 5134
    rangeproof = ctypes.create_string_buffer(max_rangeproof_len)
    nRangeProofLen = ctypes.c_size_t(max_rangeproof_len)
"""), (CI, """    return rangeproof.raw[:nRangeProofLen.value]
""", """    proof_len = nRangeProofLen.value
    return bytes(rangeproof)[:proof_len]
"""))
r('rp_blind_reorder', (CI, """    secp256k1 = get_secp256k1()

    # Note: the code only uses the single last elements of blinds and
    # assetblinds. We could require these elements to be passed explicitly,
    # but we will try to be close to original code.
    blind = in_blinds[-1]
    assert isinstance(blind, Uint256)
    assetblind = in_assetblinds[-1]
    assert isinstance(assetblind, Uint256)
""", """    # Note: the code only uses the single last elements of blinds and
    # assetblinds. We could require these elements to be passed explicitly,
    # but we will try to be close to original code.
    blind, assetblind = in_blinds[-1], in_assetblinds[-1]
    assert isinstance(blind, Uint256) and isinstance(assetblind, Uint256)

    secp256k1 = get_secp256k1()
"""))
r('nonce_inline', (CI, """    ecdh_result = ephemeral_key.ECDH(output_pubkey)
    nonce = Uint256(hashlib.sha256(ecdh_result).digest())
    return nonce, ephemeral_pubkey
""", """    hasher = hashlib.sha256()
    hasher.update(ephemeral_key.ECDH(output_pubkey))
    return Uint256(hasher.digest()), ephemeral_pubkey
"""))
r('sp_len_local', (CI, """    nInputsToSelect = min(3, len(surjectionTargets))
    randseed = _rand_func(32)
""", """    n_targets = len(surjectionTargets)
    nInputsToSelect = n_targets if n_targets < 3 else 3
    randseed = _rand_func(32)
"""), (CI, """        build_aligned_data_array([st.data for st in surjectionTargets], 32),
        len(surjectionTargets),
        nInputsToSelect""", """        build_aligned_data_array([st.data for st in surjectionTargets], 32),
        n_targets,
        nInputsToSelect"""))
r('sp_tags_loop', (CI, """    # Find correlation between asset tag and listed input tags
    ret = secp256k1.lib.secp256k1_surjectionproof_allocate_initialized(
        secp256k1.ctx.blind,
        ctypes.byref(proof), ctypes.byref(input_index),
        build_aligned_data_array([st.data for st in surjectionTargets], 32),
""", """    fixed_input_tags = []
    for target in surjectionTargets:
        fixed_input_tags.append(target.data)

    # Find correlation between asset tag and listed input tags
    ret = secp256k1.lib.secp256k1_surjectionproof_allocate_initialized(
        secp256k1.ctx.blind,
        ctypes.byref(proof), ctypes.byref(input_index),
        build_aligned_data_array(fixed_input_tags, 32),
"""))
r('sp_check_helper', (CI, """        if 1 != ret:
            assert ret == 0
            raise RuntimeError('secp256k1_surjectionproof_generate returned failure')
""", """        _check_zkp_result(ret, 'secp256k1_surjectionproof_generate')
"""), (CI, """        if 1 != ret:
            assert ret == 0
            raise RuntimeError('secp256k1_surjectionproof_verify returned failure')
""", """        _check_zkp_result(ret, 'secp256k1_surjectionproof_verify')
"""), (CI, """        if 1 != ret:
            assert ret == 0
            raise RuntimeError('secp256k1_surjectionproof_serialize returned failure')
""", """        _check_zkp_result(ret, 'secp256k1_surjectionproof_serialize')
"""), (CI, """# Create surjection proof
def""", """def _check_zkp_result(ret: int, name: str) -> None:
    if ret == 1:
        return
    assert ret == 0
    raise RuntimeError('{} returned failure'.format(name))


# Create surjection proof
def"""))
r('sp_inner', (CI, """        ephemeral_input_tags_buf = build_aligned_data_array(targetAssetGenerators, 64)

        # Using the input chosen, build proof
        ret = secp256k1.lib.secp256k1_surjectionproof_generate(
            secp256k1.ctx.blind, proof,
            ephemeral_input_tags_buf, len(targetAssetGenerators),
            gen, input_index, targetAssetBlinders[input_index.value].data, assetblinds[-1].data)
""", """        n_generators = len(targetAssetGenerators)
        ephemeral_input_tags_buf = build_aligned_data_array(
            targetAssetGenerators, SECP256K1_GENERATOR_SIZE)
        input_blinder = targetAssetBlinders[input_index.value]
        output_blinder = assetblinds[-1]

        # Using the input chosen, build proof
        ret = secp256k1.lib.secp256k1_surjectionproof_generate(
            secp256k1.ctx.blind, proof,
            ephemeral_input_tags_buf, n_generators,
            gen, input_index, input_blinder.data, output_blinder.data)
"""))
r('sp_return_in_try', (CI, """        assert output_len.value == expected_output_len
    finally:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)

    return serialized_proof.raw
""", """        assert output_len.value == expected_output_len
        return serialized_proof.raw
    finally:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
"""))
r('sp_alloc_not', (CI, """    if ret == 0:
        # probably asset did not match any surjectionTargets
        return None

    try:
""", """    if not ret:
        # probably asset did not match any surjectionTargets
        return None

    try:
"""))
r('sp_split', (CI, """    try:
        ephemeral_input_tags_buf = build_aligned_data_array(targetAssetGenerators, 64)
""", """    try:
        return _surjectionproof_bytes(
            proof, input_index, targetAssetGenerators, targetAssetBlinders,
            assetblinds[-1], gen)
    finally:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)


def _surjectionproof_bytes(proof: Any, input_index: Any,
                           targetAssetGenerators: List[bytes],
                           targetAssetBlinders: List[Uint256],
                           output_blinder: Uint256, gen: bytes) -> bytes:
        secp256k1 = get_secp256k1()
        ephemeral_input_tags_buf = build_aligned_data_array(targetAssetGenerators, 64)
"""), (CI, """            gen, input_index, targetAssetBlinders[input_index.value].data, assetblinds[-1].data)
""", """            gen, input_index, targetAssetBlinders[input_index.value].data, output_blinder.data)
"""), (CI, """        assert output_len.value == expected_output_len
    finally:
        secp256k1.lib.secp256k1_surjectionproof_destroy(proof)

    return serialized_proof.raw
""", """        assert output_len.value == expected_output_len
        return serialized_proof.raw
"""))
r('ba_names', (CI, """    confAsset = CConfidentialAsset(bytes(result_commitment))
    assert confAsset.is_valid()

    return (confAsset, bytes(gen))
""", """    gen_bytes = bytes(gen)
    conf_asset = CConfidentialAsset(result_commitment.raw)
    assert conf_asset.is_valid()
    return conf_asset, gen_bytes
"""))
r('cvc_order', (CI, """    commit = ctypes.create_string_buffer(SECP256K1_PEDERSEN_COMMITMENT_SIZE)
    secp256k1 = get_secp256k1()
    ret = secp256k1.lib.secp256k1_pedersen_commit(
        secp256k1.ctx.blind, commit, blind, amount, gen)
    if 1 != ret:
        assert ret == 0
        raise RuntimeError('secp256k1_pedersen_commit returned failure')
    result_commitment = ctypes.create_string_buffer(CConfidentialAsset._committedSize)
""", """    secp256k1 = get_secp256k1()
    lib, ctx = secp256k1.lib, secp256k1.ctx.blind
    commit = ctypes.create_string_buffer(SECP256K1_PEDERSEN_COMMITMENT_SIZE)
    result_commitment = ctypes.create_string_buffer(CConfidentialValue._committedSize)
    ret = lib.secp256k1_pedersen_commit(ctx, commit, blind, amount, gen)
    if ret != 1:
        assert ret == 0
        raise RuntimeError('secp256k1_pedersen_commit returned failure')
"""))
r('dbk', (CI, """    if isinstance(script, CScript) and not isinstance(script, CElementsScript):
        raise TypeError(
            f'script is expected to be CElementsScript, but is {script.__class__.__name__}')
    else:
        ensure_isinstance(script, (bytes, bytearray),
                          'script that is not an instance of CScript')
""", """    if isinstance(script, CScript):
        if not isinstance(script, CElementsScript):
            raise TypeError(
                f'script is expected to be CElementsScript, but is {script.__class__.__name__}')
    else:
        ensure_isinstance(script, (bytes, bytearray),
                          'script that is not an instance of CScript')
"""))
r('dbk_mac', (CI, """    return CKey(hmac.new(blinding_derivation_key.secret_bytes, script,
                         hashlib.sha256).digest())
""", """    mac = hmac.new(blinding_derivation_key.secret_bytes,
                   digestmod=hashlib.sha256)
    mac.update(script)
    return CKey(mac.digest())
"""))
r('aligned', (SE, """    buf = b''.join(data_list)
    # but we must check that our expectation of the data size is correct
    assert len(buf) % expected_len == 0
    assert len(buf) // expected_len == len(data_list)

    return buf
""", """    buf = bytearray()
    for data in data_list:
        buf += data
    # but we must check that our expectation of the data size is correct
    assert len(buf) == expected_len * len(data_list)

    return bytes(buf)
"""))
r('aligned_each', (SE, """    # but we must check that our expectation of the data size is correct
    assert len(buf) % expected_len == 0
    assert len(buf) // expected_len == len(data_list)
""", """    # but we must check that our expectation of the data size is correct
    n_items, remainder = divmod(len(buf), expected_len)
    assert remainder == 0
    assert n_items == len(data_list)
"""))
r('secp_early', (SE, """    if not _secp256k1:
        secp256k1 = secp256k1_load_library""", """    if _secp256k1:
        return _secp256k1

    if True:
        secp256k1 = secp256k1_load_library"""))
r('secp_lib', (SE, """        has_zkp = False
        blind_ctx: Optional['bitcointx.core.secp256k1.secp256k1_context_type'] = None

        if getattr(secp256k1.lib, 'secp256k1_rangeproof_info', None):
            has_zkp = True

            _set_zkp_func_types(secp256k1.lib)
""", """        blind_ctx: Optional['bitcointx.core.secp256k1.secp256k1_context_type'] = None

        has_zkp = hasattr(secp256k1.lib, 'secp256k1_rangeproof_info')
        if has_zkp:
            _set_zkp_func_types(secp256k1.lib)
"""))
r('secp_decl_helper', (SE, """    lib.secp256k1_generator_parse.restype = ctypes.c_int
    lib.secp256k1_generator_parse.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
    lib.secp256k1_generator_generate.restype = ctypes.c_int
    lib.secp256k1_generator_generate.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
""", """    def declare(func: Any, argtypes: List[Any]) -> None:
        func.restype = ctypes.c_int
        func.argtypes = argtypes

    declare(lib.secp256k1_generator_parse,
            [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p])
    declare(lib.secp256k1_generator_generate,
            [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p])
"""), (SE, """import elementstx.util
""", """from typing import Any

import elementstx.util
"""))
r('secp_decl_loop', (SE, """    lib.secp256k1_generator_parse.restype = ctypes.c_int
    lib.secp256k1_generator_parse.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
    lib.secp256k1_generator_generate.restype = ctypes.c_int
    lib.secp256k1_generator_generate.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
""", """    for name in ('parse', 'generate'):
        func = getattr(lib, 'secp256k1_generator_' + name)
        func.restype = ctypes.c_int
        func.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
"""))
r('secp_decl_alias', (SE, """    lib.secp256k1_rangeproof_info.restype = ctypes.c_int
    lib.secp256k1_rangeproof_info.argtypes = [
        ctypes.c_void_p,
        ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_int),
        ctypes.POINTER(ctypes.c_uint64), ctypes.POINTER(ctypes.c_uint64),
        ctypes.c_char_p, ctypes.c_size_t
    ]
""", """    int_ptr = ctypes.POINTER(ctypes.c_int)
    uint64_ptr = ctypes.POINTER(ctypes.c_uint64)
    lib.secp256k1_rangeproof_info.restype = ctypes.c_int
    lib.secp256k1_rangeproof_info.argtypes = [
        ctypes.c_void_p,
        int_ptr, int_ptr,
        uint64_ptr, uint64_ptr,
        ctypes.c_char_p, ctypes.c_size_t
    ]
"""))
r('secp_decl_table', (SE, """    lib.secp256k1_pedersen_commitment_serialize.restype = ctypes.c_int
    lib.secp256k1_pedersen_commitment_serialize.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
    lib.secp256k1_pedersen_commitment_parse.restype = ctypes.c_int
    lib.secp256k1_pedersen_commitment_parse.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
""", """    three_pointers = {
        'secp256k1_pedersen_commitment_serialize': [
            ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p],
        'secp256k1_pedersen_commitment_parse': [
            ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p],
    }
    for name, argtypes in three_pointers.items():
        func = getattr(lib, name)
        func.restype = ctypes.c_int
        func.argtypes = argtypes
"""))

# ---- blech32

r('poly_enum', (LA, """        for i in range(5):
            chk ^= generator[i] if ((top >> i) & 1) else 0
    return chk
""", """        for i, gen in enumerate(generator):
            if (top >> i) & 1:
                chk ^= gen
    return chk
"""))
r('poly_const', (LA, """    generator = [0x7d52fba40bd886, 0x5e8dbf1a03950c, 0x1c3a3c74072a18, 0x385d72fa0e5139, 0x7093e5a608865b]  # new generators, 7 bytes
    chk = 1
""", """    generator = BLECH32_GENERATOR
    chk = 1
"""), (LA, """class Encoding(Enum):
""", """BLECH32_GENERATOR = (
    0x7d52fba40bd886, 0x5e8dbf1a03950c, 0x1c3a3c74072a18,
    0x385d72fa0e5139, 0x7093e5a608865b)  # new generators, 7 bytes


class Encoding(Enum):
"""))
r('expand_loop', (LA, """    return [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]
""", """    high = []
    low = []
    for x in hrp:
        code = ord(x)
        high.append(code >> 5)
        low.append(code & 31)
    return high + [0] + low
"""))
r('verify_map', (LA, """    if check == BECH32_CONST:
        return Encoding.BECH32
    elif check == BECH32M_CONST:
        return Encoding.BECH32M
    else:
        return None
""", """    return {
        BECH32_CONST: Encoding.BECH32,
        BECH32M_CONST: Encoding.BECH32M,
    }.get(check)
"""))
r('checksum_loop', (LA, """    return [(polymod >> 5 * (11 - i)) & 31 for i in range(12)]
""", """    checksum = []
    for i in range(12):
        shift = 5 * (11 - i)
        checksum.append((polymod >> shift) & 31)
    return checksum
"""))
r('checksum_rev', (LA, """    return [(polymod >> 5 * (11 - i)) & 31 for i in range(12)]
""", """    return [(polymod >> shift) & 31 for shift in range(55, -1, -5)]
"""))
r('encode_plus', (LA, """    combined = data + blech32_create_checksum(encoding, hrp, data)
    return hrp + '1' + ''.join([CHARSET[d] for d in combined])
""", """    checksum = blech32_create_checksum(encoding, hrp, data)
    payload = ''.join(CHARSET[d] for d in data + checksum)
    return f'{hrp}1{payload}'
"""))
r('bdecode_split', (LA, """    if ((any(ord(x) < 33 or ord(x) > 126 for x in bech)) or
            (bech.lower() != bech and bech.upper() != bech)):
        return (None, None, None)
    bech = bech.lower()
""", """    if not all(33 <= ord(x) <= 126 for x in bech):
        return (None, None, None)
    lowered = bech.lower()
    if bech != lowered and bech != bech.upper():
        return (None, None, None)
    bech = lowered
"""))
r('bdecode_rest', (LA, """    if not all(x in CHARSET for x in bech[pos+1:]):
        return (None, None, None)
    hrp = bech[:pos]
    data = [CHARSET.find(x) for x in bech[pos+1:]]
    encoding""", """    hrp, rest = bech[:pos], bech[pos+1:]
    if any(x not in CHARSET for x in rest):
        return (None, None, None)
    data = [CHARSET.index(x) for x in rest]
    encoding"""))
r('bdecode_loop', (LA, """    if not all(x in CHARSET for x in bech[pos+1:]):
        return (None, None, None)
    hrp = bech[:pos]
    data = [CHARSET.find(x) for x in bech[pos+1:]]
    encoding""", """    hrp = bech[:pos]
    data = []
    for x in bech[pos+1:]:
        d = CHARSET.find(x)
        if d == -1:
            return (None, None, None)
        data.append(d)
    encoding"""))
r('convert_enum', (LA, """        acc = ((acc << frombits) | value) & max_acc
        bits += frombits
        while bits >= tobits:
            bits -= tobits
            ret.append((acc >> bits) & maxv)
    if pad:
        if bits:
            ret.append((acc << (tobits - bits)) & maxv)
    elif bits >= frombits or ((acc << (tobits - bits)) & maxv):
        return None
    return ret
""", """        acc = max_acc & ((acc << frombits) | value)
        bits = bits + frombits
        while bits >= tobits:
            bits = bits - tobits
            ret.append((acc >> bits) & maxv)
    padding = (acc << (tobits - bits)) & maxv
    if pad:
        if bits:
            ret.append(padding)
    elif bits >= frombits or padding != 0:
        return None
    return ret
"""))
r('convert_checks', (LA, """        if value < 0 or (value >> frombits):
            return None
        acc =""", """        if not 0 <= value < (1 << frombits):
            return None
        acc ="""))
r('decode_split', (LA, """    decoded = convertbits(data[1:], 5, 8, False)
    if decoded is None or len(decoded) < 2 or len(decoded) > 40+33:
        return (None, None)
    if data[0] > 16:
        return (None, None)
    if data[0] == 0 and len(decoded) != 20+33 and len(decoded) != 32+33:
        return (None, None)
    if (data[0] == 0 and encoding != Encoding.BECH32) or \\
            (data[0] != 0 and encoding != Encoding.BECH32M):
        return (None, None)
    return (data[0], bytes(decoded))
""", """    decoded = convertbits(data[1:], 5, 8, False)
    if decoded is None or not (2 <= len(decoded) <= 73):
        return (None, None)
    witver = data[0]
    if witver > 16:
        return (None, None)
    if witver == 0:
        if len(decoded) not in (53, 65):
            return (None, None)
        expected_encoding = Encoding.BECH32
    else:
        expected_encoding = Encoding.BECH32M
    if encoding != expected_encoding:
        return (None, None)
    return (witver, bytes(decoded))
"""))
r('decode_star', (LA, """    decoded = convertbits(data[1:], 5, 8, False)
    if decoded is None""", """    program = data[1:]
    decoded = convertbits(data=program, frombits=5, tobits=8, pad=False)
    if decoded is None"""))
r('encode_version', (LA, """    encoding = Encoding.BECH32 if witver == 0 else Encoding.BECH32M
    decoded = convertbits(witprog, 8, 5)
    if decoded is None:
        return None
    ret = blech32_encode(encoding, hrp, [witver] + decoded)
    if decode(hrp, ret) == (None, None):
        return None
    return ret
""", """    decoded = convertbits(witprog, 8, 5)
    if decoded is None:
        return None
    if witver == 0:
        encoding = Encoding.BECH32
    else:
        encoding = Encoding.BECH32M
    ret = blech32_encode(encoding, hrp, [witver, *decoded])
    return None if decode(hrp, ret) == (None, None) else ret
"""))
r('encode_check', (LA, """    if decode(hrp, ret) == (None, None):
        return None
    return ret
""", """    decoded_witver, decoded_witprog = decode(hrp, ret)
    if decoded_witver is None and decoded_witprog is None:
        return None
    return ret
"""))
r('bfrom_order', (BL, """        if witver is None:
            if cls_wv < 0:
                raise ValueError(
                    f'witver must be specified, {cls.__name__} does not '
                    f'specify blech32_witness_version')
            witver = cls_wv
        elif witver < 0:
            raise ValueError('negative witver specified')
        elif cls_wv >= 0 and witver != cls_wv:
            raise ValueError(
                f'witver specified but is not the same as '
                f'{cls.__name__}.blech32_witness_version')

        if not (0 <= witver <= 16):
            raise ValueError(
                'witver must be in range 0 to 16 inclusive; got %r' % witver)
""", """        if witver is not None:
            if witver < 0:
                raise ValueError('negative witver specified')
            if cls_wv >= 0 and witver != cls_wv:
                raise ValueError(
                    f'witver specified but is not the same as '
                    f'{cls.__name__}.blech32_witness_version')
        else:
            if cls_wv < 0:
                raise ValueError(
                    f'witver must be specified, {cls.__name__} does not '
                    f'specify blech32_witness_version')
            witver = cls_wv

        if witver < 0 or witver > 16:
            raise ValueError(
                'witver must be in range 0 to 16 inclusive; got %r' % witver)
"""))
r('bmatch', (BL, """            wv = candidate.blech32_witness_version
            if wv < 0:
                try:
                    return candidate.blech32_match_progam_and_version(
                        data, witver)
                except UnexpectedBlech32LenghOrVersion:
                    pass
            elif len(data) == candidate._data_length and witver == wv:
                return candidate.from_bytes(data, witver=witver)
""", """            wv = candidate.blech32_witness_version
            if wv >= 0:
                if witver != wv or len(data) != candidate._data_length:
                    continue
                return candidate.from_bytes(data, witver=witver)
            try:
                return candidate.blech32_match_progam_and_version(
                    data, witver)
            except UnexpectedBlech32LenghOrVersion:
                continue
"""))
r('bnew', (BL, """        witver, data = decode(cls.blech32_hrp, s)
        if witver is None or data is None:
            assert witver is None and data is None
            raise Blech32Error('Blech32 decoding error')

        return cls.blech32_match_progam_and_version(data, witver)
""", """        witver, data = decode(cls.blech32_hrp, s)
        if witver is not None and data is not None:
            return cls.blech32_match_progam_and_version(data, witver)

        assert witver is None and data is None
        raise Blech32Error('Blech32 decoding error')
"""))
r('bstr', (BL, """        result = encode(self.blech32_hrp, self.blech32_witness_version, self)
        if result is None:
            raise AssertionError(
                'encode should not fail, this is data that '
                'was successfully decoded earlier')
        return result
""", """        result = encode(self.blech32_hrp, self.blech32_witness_version, self)
        if result is not None:
            return result
        raise AssertionError(
            'encode should not fail, this is data that '
            'was successfully decoded earlier')
"""))
r('brepr', (BL, """        return '%s(%r)' % (self.__class__.__name__, str(self))
""", """        return f'{self.__class__.__name__}({str(self)!r})'
"""))

# ---- addresses

r('uncf_pub', (WA, """        if not isinstance(blinding_pubkey, CPubKey):
            blinding_pubkey = CPubKey(blinding_pubkey)
        if not blinding_pubkey.is_fullyvalid():
            raise ValueError('invalid blinding pubkey')
""", """        pub = blinding_pubkey if isinstance(blinding_pubkey, CPubKey) \\
            else CPubKey(blinding_pubkey)
        if not pub.is_fullyvalid():
            raise ValueError('invalid blinding pubkey')
"""), (WA, """conf_cls.from_bytes(blinding_pubkey + unconfidential_adr)""", """conf_cls.from_bytes(pub + unconfidential_adr)"""))
r('uncf_pairs', (WA, """        clsmap = {
            P2PKHCoinAddress: P2PKHCoinConfidentialAddress,
            P2WPKHCoinAddress: P2WPKHCoinConfidentialAddress,
            P2SHCoinAddress: P2SHCoinConfidentialAddress,
            P2WSHCoinAddress: P2WSHCoinConfidentialAddress,
            P2TRCoinAddress: P2TRCoinConfidentialAddress,
        }
        for unconf_cls, conf_cls in clsmap.items():
""", """        class_pairs = (
            (P2PKHCoinAddress, P2PKHCoinConfidentialAddress),
            (P2WPKHCoinAddress, P2WPKHCoinConfidentialAddress),
            (P2SHCoinAddress, P2SHCoinConfidentialAddress),
            (P2WSHCoinAddress, P2WSHCoinConfidentialAddress),
            (P2TRCoinAddress, P2TRCoinConfidentialAddress),
        )
        for unconf_cls, conf_cls in class_pairs:
"""))
r('uncf_specific', (WA, """            mapped_cls_list = dispatcher_mapped_list(conf_cls)
            if mapped_cls_list:
                if len(mapped_cls_list) != 1:
                    raise TypeError(
                        f"{conf_cls.__name__} must be final dispatch class")
                chain_specific_conf_cls = mapped_cls_list[0]
            else:
                chain_specific_conf_cls = conf_cls
            if isinstance""", """            mapped_cls_list = dispatcher_mapped_list(conf_cls)
            if len(mapped_cls_list) > 1:
                raise TypeError(
                    f"{conf_cls.__name__} must be final dispatch class")
            chain_specific_conf_cls = (
                mapped_cls_list[0] if mapped_cls_list else conf_cls)
            if isinstance"""))
r('uncf_nested', (WA, """            if isinstance(unconfidential_adr, unconf_cls) and\\
                    (issubclass(cls, (conf_cls, chain_specific_conf_cls))
                     or issubclass(chain_specific_conf_cls, cls)):
                conf_adr = conf_cls.from_bytes(blinding_pubkey + unconfidential_adr)
                return cast(T_CCoinConfidentialAddress, conf_adr)
            if issubclass(cls, (conf_cls, chain_specific_conf_cls)):
                raise""", """            is_target = issubclass(cls, (conf_cls, chain_specific_conf_cls))
            if isinstance(unconfidential_adr, unconf_cls):
                if is_target or issubclass(chain_specific_conf_cls, cls):
                    return cast(
                        T_CCoinConfidentialAddress,
                        conf_cls.from_bytes(blinding_pubkey + unconfidential_adr))
            if is_target:
                raise"""))
SIZE = """        if isinstance(cls_or_inst, type):
            cls = cls_or_inst
            data_length = getattr(cls, '_data_length', None)
            if not data_length:
                raise TypeError('output size is not available for {}'
                                .format(cls.__name__))
            inst = cls.from_bytes(b'\\x00'*data_length)
        else:
            inst = cls_or_inst
        dummy"""
r('osz_helper', (WA, SIZE, """        inst = _instance_for_size(cls_or_inst)
        dummy"""), (WA, """class CConfidentialAddressError(""", """def _instance_for_size(cls_or_inst: Any) -> Any:
    if not isinstance(cls_or_inst, type):
        return cls_or_inst
    data_length = getattr(cls_or_inst, '_data_length', None)
    if not data_length:
        raise TypeError('output size is not available for {}'
                        .format(cls_or_inst.__name__))
    return cls_or_inst.from_bytes(b'\\x00'*data_length)


class CConfidentialAddressError("""), (WA, """from typing import """, """from typing import Any, """))
r('osz_serialize', (WA, """                             nNonce=CConfidentialNonce(dummy_commitment))
        f = BytesIO()
        txo.stream_serialize(f)
        return len(f.getbuffer())
""", """                             nNonce=CConfidentialNonce(dummy_commitment))
        return len(txo.serialize())
"""))
r('osz_getvalue', (WA, """                             nNonce=CConfidentialNonce(dummy_commitment))
        f = BytesIO()
        txo.stream_serialize(f)
        return len(f.getbuffer())
""", """                             nNonce=CConfidentialNonce(dummy_commitment))
        stream = BytesIO()
        txo.stream_serialize(stream)
        return len(stream.getvalue())
"""))
r('bdd_init', (WA, """        if self.__class__.blech32_witness_version < 0:
            raise TypeError(
                f'{self.__class__.__name__} must not be instantiated directly')
        if len(self) != self.__class__._data_length:
            raise TypeError(
                f'lengh of the data is not {self.__class__._data_length}')
""", """        cls = self.__class__
        if cls.blech32_witness_version < 0:
            raise TypeError(
                f'{cls.__name__} must not be instantiated directly')
        expected_length = cls._data_length
        if len(self) != expected_length:
            raise TypeError(
                f'lengh of the data is not {expected_length}')
"""))
r('bdd_cand', (WA, """        candidates = dispatcher_mapped_list(cls)
        if not candidates:
            if cls.blech32_witness_version < 0:
                raise TypeError(
                    "if class has no dispatched descendants, it must have "
                    "blech32_witness_version set to non-negative value")
            candidates = [cls]
        return candidates
""", """        candidates = dispatcher_mapped_list(cls)
        if candidates:
            return candidates
        if cls.blech32_witness_version >= 0:
            return [cls]
        raise TypeError(
            "if class has no dispatched descendants, it must have "
            "blech32_witness_version set to non-negative value")
"""))
r('unconf_slice', (WA, """        unconf_adr = self._unconfidential_address_class.from_bytes(self[33:])
        return cast(CCoinAddress, unconf_adr)
""", """        payload = self[33:]
        unconf_cls = self._unconfidential_address_class
        return cast(CCoinAddress, unconf_cls.from_bytes(payload))
"""))
r('pub_slice', (WA, """        return CPubKey(self[0:33])
""", """        blinding_pubkey_size = 33
        return CPubKey(self[:blinding_pubkey_size])
"""))
