"""Hand-written behaviour-preserving edits of blind_transaction: name -> [(file, old, new)]"""
F = 'core/__init__.py'
R = {}

R['marked_helper'] = [
    (F, """def blind_transaction(tx: CElementsMutableTransaction, *, # noqa""",
     """def _key_at(keys, n):
    if n < len(keys):
        return keys[n]
    return None


def blind_transaction(tx: CElementsMutableTransaction, *, # noqa"""),
    (F, """                blind_issuance = (len(blind_issuance_token_keys) > i
                                  and blind_issuance_token_keys[i] is not None)
""", """                blind_issuance = _key_at(blind_issuance_token_keys, i) is not None
"""),
    (F, """            if len(blind_issuance_asset_keys) > nIn and blind_issuance_asset_keys[nIn] is not None:
""", """            if _key_at(blind_issuance_asset_keys, nIn) is not None:
"""),
    (F, """            if len(blind_issuance_token_keys) > nIn and blind_issuance_token_keys[nIn] is not None:
""", """            if _key_at(blind_issuance_token_keys, nIn) is not None:
"""),
    (F, """        asset_issuace_valid = (len(blind_issuance_asset_keys) > nIn
                               and blind_issuance_asset_keys[nIn] is not None)
        token_issuance_valid = (len(blind_issuance_token_keys) > nIn and
                                blind_issuance_token_keys[nIn] is not None)
""", """        asset_issuace_valid = _key_at(blind_issuance_asset_keys, nIn) is not None
        token_issuance_valid = _key_at(blind_issuance_token_keys, nIn) is not None
"""),
]

R['generator_helper'] = [
    (F, """def blind_transaction(tx: CElementsMutableTransaction, *, # noqa""",
     """def _unblinded_generator(asset: CAsset) -> bytes:
    secp256k1 = get_secp256k1()
    buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
    if secp256k1.lib.secp256k1_generator_generate(secp256k1.ctx.blind, buf, asset.data) != 1:
        raise RuntimeError('secp256k1_generator_generate returned failure')
    return buf.raw


def blind_transaction(tx: CElementsMutableTransaction, *, # noqa"""),
    (F, """                ta_gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                ret = secp256k1.lib.secp256k1_generator_generate(
                    secp256k1.ctx.blind, ta_gen_buf, asset.data)

                if 1 != ret:
                    assert ret == 0
                    raise RuntimeError('secp256k1_generator_generate returned failure')

                targetAssetGenerators[totalTargets] = ta_gen_buf.raw
""", """                targetAssetGenerators[totalTargets] = _unblinded_generator(asset)
"""),
    (F, """                ta_gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                ret = secp256k1.lib.secp256k1_generator_generate(
                    secp256k1.ctx.blind, ta_gen_buf, token.data)
                if 1 != ret:
                    assert ret == 0
                    raise RuntimeError('secp256k1_generator_generate returned failure')
                targetAssetGenerators[totalTargets] = ta_gen_buf.raw
""", """                targetAssetGenerators[totalTargets] = _unblinded_generator(token)
"""),
]

R['add_target_closure'] = [
    (F, """    totalTargets = 0

    secp256k1 = get_secp256k1()
""", """    totalTargets = 0

    secp256k1 = get_secp256k1()

    def add_target(target, generator, blinder):
        nonlocal totalTargets
        surjectionTargets[totalTargets] = target
        targetAssetGenerators[totalTargets] = generator
        targetAssetBlinders.append(blinder)
        totalTargets += 1
"""),
    (F, """        targetAssetGenerators[totalTargets] = asset_generator.raw
        surjectionTargets[totalTargets] = input_descriptors[i].asset
        targetAssetBlinders.append(input_descriptors[i].asset_blinding_factor)
        totalTargets += 1
""", """        add_target(input_descriptors[i].asset, asset_generator.raw,
                   input_descriptors[i].asset_blinding_factor)
"""),
    (F, """            targetAssetGenerators[totalTargets] = gen_buf.raw
            surjectionTargets[totalTargets] = Uint256()
            targetAssetBlinders.append(Uint256())
            totalTargets += 1
""", """            add_target(Uint256(), gen_buf.raw, Uint256())
"""),
]

R['args_helper'] = [
    (F, """def blind_transaction(tx: CElementsMutableTransaction, *, # noqa""",
     """def _check_keys(tx, what, keys):
    if len(keys) > len(tx.vin):
        raise ValueError('unexpected extra ' + what)
    for i, k in enumerate(keys):
        if k:
            ensure_isinstance(k, CKeyBase, f'key {i} in {what}')


def blind_transaction(tx: CElementsMutableTransaction, *, # noqa"""),
    (F, """    if not (len(tx.vin) >= len(blind_issuance_asset_keys)):
        raise ValueError('unexpected extra blind_issuance_asset_keys')
    for i, k in enumerate(blind_issuance_asset_keys):
        if k:
            ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_asset_keys')
    if not len(tx.vin) >= len(blind_issuance_token_keys):
        raise ValueError('unexpected extra blind_issuance_token_keys')
    for i, k in enumerate(blind_issuance_token_keys):
        if k:
            ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_token_keys')
""", """    _check_keys(tx, 'blind_issuance_asset_keys', blind_issuance_asset_keys)
    _check_keys(tx, 'blind_issuance_token_keys', blind_issuance_token_keys)
"""),
]

R['args_loop'] = [
    (F, """    if not (len(tx.vin) >= len(blind_issuance_asset_keys)):
        raise ValueError('unexpected extra blind_issuance_asset_keys')
    for i, k in enumerate(blind_issuance_asset_keys):
        if k:
            ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_asset_keys')
    if not len(tx.vin) >= len(blind_issuance_token_keys):
        raise ValueError('unexpected extra blind_issuance_token_keys')
    for i, k in enumerate(blind_issuance_token_keys):
        if k:
            ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_token_keys')
""", """    for keyname, keys in (('blind_issuance_asset_keys', blind_issuance_asset_keys),
                          ('blind_issuance_token_keys', blind_issuance_token_keys)):
        if len(tx.vin) < len(keys):
            raise ValueError('unexpected extra %s' % keyname)
        for i, k in enumerate(keys):
            if k:
                ensure_isinstance(k, CKeyBase, f'key {i} in {keyname}')
"""),
]

R['args_reorder'] = [
    (F, """    if not (len(tx.vout) >= len(output_pubkeys)):
        raise ValueError('unexpected extra output_pubkeys')
    for i, p in enumerate(output_pubkeys):
        ensure_isinstance(p, CPubKey, f'pubkey {i} in output_pubkeys')
    if not (len(tx.vin) >= len(blind_issuance_asset_keys)):
        raise ValueError('unexpected extra blind_issuance_asset_keys')
""", """    if len(output_pubkeys) > len(tx.vout):
        raise ValueError('unexpected extra output_pubkeys')
    if len(blind_issuance_asset_keys) > len(tx.vin):
        raise ValueError('unexpected extra blind_issuance_asset_keys')
    for i in range(len(output_pubkeys)):
        ensure_isinstance(output_pubkeys[i], CPubKey, f'pubkey {i} in output_pubkeys')
"""),
]

R['count_helper'] = [
    (F, """def blind_transaction(tx: CElementsMutableTransaction, *, # noqa""",
     """def _has_proof(tx, n, name):
    wits = tx.wit.vtxinwit
    return n < len(wits) and len(getattr(wits[n], name)) != 0


def blind_transaction(tx: CElementsMutableTransaction, *, # noqa"""),
    (F, """                if len(tx.wit.vtxinwit) <= nIn \\
                        or len(tx.wit.vtxinwit[nIn].issuanceAmountRangeproof) == 0:
                    nToBlind += 1
                else:
                    return BlindingFailure(
                        'blind_issuance_asset_keys is specified for input %d, '
                        'but issuanceAmountRangeproof is already in place')
""", """                if _has_proof(tx, nIn, 'issuanceAmountRangeproof'):
                    return BlindingFailure(
                        'blind_issuance_asset_keys is specified for input %d, '
                        'but issuanceAmountRangeproof is already in place')
                nToBlind += 1
"""),
]

R['check_output_helper'] = [
    (F, """def blind_transaction(tx: CElementsMutableTransaction, *, # noqa""",
     """def _output_problem(tx, nOut, out_pub):
    txout = tx.vout[nOut]
    if not out_pub.is_fullyvalid():
        return 'blinding pubkey for output %d is not valid' % nOut
    if not txout.nValue.is_explicit():
        return 'nValue for output %d is not explicit' % nOut
    if not txout.nAsset.is_explicit():
        return 'nAsset for output %d is not explicit' % nOut
    if nOut < len(tx.wit.vtxoutwit) and not tx.wit.vtxoutwit[nOut].is_null():
        return 'txout witness for output %d is already in place' % nOut
    if txout.is_fee():
        return 'output %d is a fee output' % nOut
    return None


def blind_transaction(tx: CElementsMutableTransaction, *, # noqa"""),
    (F, """            if not out_pub.is_fullyvalid():
                return BlindingFailure(
                    'blinding pubkey for output %d is not valid' % nOut)
            if not tx.vout[nOut].nValue.is_explicit():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but nValue for this output is not explicit' % nOut)
            if not tx.vout[nOut].nAsset.is_explicit():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but nAsset for this output is not explicit' % nOut)
            if len(tx.wit.vtxoutwit) > nOut and not tx.wit.vtxoutwit[nOut].is_null():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but txout witness for this output is already in place' % nOut)
            if tx.vout[nOut].is_fee():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but this output is a fee output' % nOut)

            nToBlind += 1
""", """            problem = _output_problem(tx, nOut, out_pub)
            if problem is not None:
                return BlindingFailure(problem)

            nToBlind += 1
"""),
]

R['check_outputs_failure'] = [
    (F, """def blind_transaction(tx: CElementsMutableTransaction, *, # noqa""",
     """def _check_output(tx, nOut, out_pub):
    if not out_pub.is_fullyvalid():
        return BlindingFailure('blinding pubkey for output %d is not valid' % nOut)
    if not tx.vout[nOut].nValue.is_explicit():
        return BlindingFailure('nValue for output %d is not explicit' % nOut)
    if not tx.vout[nOut].nAsset.is_explicit():
        return BlindingFailure('nAsset for output %d is not explicit' % nOut)
    if len(tx.wit.vtxoutwit) > nOut and not tx.wit.vtxoutwit[nOut].is_null():
        return BlindingFailure('txout witness for output %d is already in place' % nOut)
    if tx.vout[nOut].is_fee():
        return BlindingFailure('output %d is a fee output' % nOut)
    return None


def blind_transaction(tx: CElementsMutableTransaction, *, # noqa"""),
    (F, """            if not out_pub.is_fullyvalid():
                return BlindingFailure(
                    'blinding pubkey for output %d is not valid' % nOut)
            if not tx.vout[nOut].nValue.is_explicit():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but nValue for this output is not explicit' % nOut)
            if not tx.vout[nOut].nAsset.is_explicit():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but nAsset for this output is not explicit' % nOut)
            if len(tx.wit.vtxoutwit) > nOut and not tx.wit.vtxoutwit[nOut].is_null():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but txout witness for this output is already in place' % nOut)
            if tx.vout[nOut].is_fee():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but this output is a fee output' % nOut)

            nToBlind += 1
""", """            failure = _check_output(tx, nOut, out_pub)
            if failure is not None:
                return failure

            nToBlind += 1
"""),
]

R['append_targets'] = [
    (F, """    surjectionTargets: List[Optional[Uint256]] = [None for _ in range(num_targets)]
""", """    surjectionTargets: List[Uint256] = []
"""),
    (F, """    targetAssetGenerators: List[Optional[bytes]] = [None for _ in range(num_targets)]
""", """    targetAssetGenerators: List[bytes] = []
"""),
    (F, """        targetAssetGenerators[totalTargets] = asset_generator.raw
        surjectionTargets[totalTargets] = input_descriptors[i].asset
""", """        targetAssetGenerators.append(asset_generator.raw)
        surjectionTargets.append(input_descriptors[i].asset)
"""),
    (F, """                surjectionTargets[totalTargets] = asset
""", """                surjectionTargets.append(asset)
"""),
    (F, """                surjectionTargets[totalTargets] = token
""", """                surjectionTargets.append(token)
"""),
    (F, """                    raise RuntimeError('secp256k1_generator_generate returned failure')

                targetAssetGenerators[totalTargets] = ta_gen_buf.raw
""", """                    raise RuntimeError('secp256k1_generator_generate returned failure')

                targetAssetGenerators.append(ta_gen_buf.raw)
"""),
    (F, """                    raise RuntimeError('secp256k1_generator_generate returned failure')
                targetAssetGenerators[totalTargets] = ta_gen_buf.raw
""", """                    raise RuntimeError('secp256k1_generator_generate returned failure')
                targetAssetGenerators.append(ta_gen_buf.raw)
"""),
    (F, """            targetAssetGenerators[totalTargets] = gen_buf.raw
            surjectionTargets[totalTargets] = Uint256()
""", """            targetAssetGenerators.append(gen_buf.raw)
            surjectionTargets.append(Uint256())
"""),
    (F, """    surjectionTargets_filled: List[Uint256] = []
    for st in surjectionTargets[:totalTargets]:
        assert st is not None
        surjectionTargets_filled.append(st)

    targetAssetGenerators_filled: List[bytes] = []
    for tag in targetAssetGenerators[:totalTargets]:
        assert tag is not None
        targetAssetGenerators_filled.append(tag)
""", """    surjectionTargets_filled = surjectionTargets
    targetAssetGenerators_filled = targetAssetGenerators
"""),
]

R['filled_comprehension'] = [
    (F, """    surjectionTargets_filled: List[Uint256] = []
    for st in surjectionTargets[:totalTargets]:
        assert st is not None
        surjectionTargets_filled.append(st)

    targetAssetGenerators_filled: List[bytes] = []
    for tag in targetAssetGenerators[:totalTargets]:
        assert tag is not None
        targetAssetGenerators_filled.append(tag)
""", """    surjectionTargets_filled = [st for st in surjectionTargets if st is not None]
    targetAssetGenerators_filled = [tag for tag in targetAssetGenerators if tag is not None]
"""),
]

R['zip_inputs'] = [
    (F, """    for i in range(len(tx.vin)):
        # For each input we either need the asset/blinds or the generator
        if input_descriptors[i].asset.is_null():
""", """    for i, (txin, idesc) in enumerate(zip(tx.vin, input_descriptors)):
        # For each input we either need the asset/blinds or the generator
        if idesc.asset.is_null():
"""),
    (F, """                input_descriptors[i].asset.data,
                input_descriptors[i].asset_blinding_factor.data)
""", """                idesc.asset.data,
                idesc.asset_blinding_factor.data)
"""),
    (F, """        surjectionTargets[totalTargets] = input_descriptors[i].asset
        targetAssetBlinders.append(input_descriptors[i].asset_blinding_factor)
        totalTargets += 1

        # Create target generators for issuances
        issuance = tx.vin[i].assetIssuance
""", """        surjectionTargets[totalTargets] = idesc.asset
        targetAssetBlinders.append(idesc.asset_blinding_factor)
        totalTargets += 1

        # Create target generators for issuances
        issuance = txin.assetIssuance
"""),
    (F, """                entropy = generate_asset_entropy(tx.vin[i].prevout, issuance.assetEntropy)
                asset = calculate_asset(entropy)
                token""", """                entropy = generate_asset_entropy(txin.prevout, issuance.assetEntropy)
                asset = calculate_asset(entropy)
                token"""),
]

R['enumerate_descriptors'] = [
    (F, """    for nIn in range(len(tx.vin)):
        if (
            not input_descriptors[nIn].blinding_factor.is_null()
            or not input_descriptors[nIn].asset_blinding_factor.is_null()
        ):
            if input_descriptors[nIn].amount < 0:
""", """    for nIn, idesc in enumerate(input_descriptors):
        if not (idesc.blinding_factor.is_null()
                and idesc.asset_blinding_factor.is_null()):
            if idesc.amount < 0:
"""),
    (F, """            blinds.append(input_descriptors[nIn].blinding_factor)
            assetblinds.append(input_descriptors[nIn].asset_blinding_factor)
            amounts_to_blind.append(input_descriptors[nIn].amount)
            nBlindsIn += 1
""", """            nBlindsIn += 1
            amounts_to_blind.append(idesc.amount)
            assetblinds.append(idesc.asset_blinding_factor)
            blinds.append(idesc.blinding_factor)
"""),
]

R['split_loop'] = [
    (F, """            amounts_to_blind.append(input_descriptors[nIn].amount)
            nBlindsIn += 1

        # Count number""", """            amounts_to_blind.append(input_descriptors[nIn].amount)
            nBlindsIn += 1

    for nIn in range(len(tx.vin)):
        # Count number"""),
]

R['pseudo_keys'] = [
    (F, """        for nPseudo in range(2):
            if nPseudo == 0:
                iss_valid = asset_issuace_valid
            else:
                iss_valid = token_issuance_valid

            if iss_valid:
""", """        for nPseudo, iss_valid in enumerate((asset_issuace_valid, token_issuance_valid)):
            if iss_valid:
"""),
    (F, """                if nPseudo == 0:
                    asset_key = blind_issuance_asset_keys[nIn]
                    assert asset_key is not None
                    nonce = Uint256(asset_key.secret_bytes)
                else:
                    token_key = blind_issuance_token_keys[nIn]
                    assert token_key is not None
                    nonce = Uint256(token_key.secret_bytes)
""", """                issuance_key = (blind_issuance_token_keys if nPseudo
                                else blind_issuance_asset_keys)[nIn]
                assert issuance_key is not None
                nonce = Uint256(issuance_key.secret_bytes)
"""),
]

R['pseudo_continue'] = [
    (F, """                if explicitValue.is_null():
                    continue

                nBlindAttempts += 1

                nIssuanceBlindAttempts += 1

                amount = explicitValue.to_amount()

                amounts_to_blind.append(amount)
""", """                if explicitValue.is_null():
                    continue

                amount = explicitValue.to_amount()
                amounts_to_blind.append(amount)
                nIssuanceBlindAttempts += 1
                nBlindAttempts += 1
"""),
    (F, """        asset_issuace_valid = (len(blind_issuance_asset_keys) > nIn
                               and blind_issuance_asset_keys[nIn] is not None)
        token_issuance_valid = (len(blind_issuance_token_keys) > nIn and
                                blind_issuance_token_keys[nIn] is not None)
""", """        asset_issuace_valid = token_issuance_valid = False
        if nIn < len(blind_issuance_asset_keys):
            asset_issuace_valid = blind_issuance_asset_keys[nIn] is not None
        if nIn < len(blind_issuance_token_keys):
            token_issuance_valid = blind_issuance_token_keys[nIn] is not None
"""),
]

R['issuance_kwargs'] = [
    (F, """                if nPseudo:
                    issuance = CAssetIssuance(
                        assetBlindingNonce=issuance.assetBlindingNonce,
                        assetEntropy=issuance.assetEntropy,
                        nAmount=issuance.nAmount,
                        nInflationKeys=confValue)
                else:
                    issuance = CAssetIssuance(
                        assetBlindingNonce=issuance.assetBlindingNonce,
                        assetEntropy=issuance.assetEntropy,
                        nAmount=confValue,
                        nInflationKeys=issuance.nInflationKeys)

                tx.vin[nIn].assetIssuance = issuance
""", """                tx.vin[nIn].assetIssuance = CAssetIssuance(
                    assetBlindingNonce=issuance.assetBlindingNonce,
                    assetEntropy=issuance.assetEntropy,
                    nAmount=issuance.nAmount if nPseudo else confValue,
                    nInflationKeys=confValue if nPseudo else issuance.nInflationKeys)
"""),
]

R['entropy_first'] = [
    (F, """                if issuance.assetBlindingNonce.is_null():
                    entropy = generate_asset_entropy(tx.vin[nIn].prevout, issuance.assetEntropy)
                    if nPseudo == 0:
                        asset = calculate_asset(entropy)
                    else:
                        assert token_issuance_valid
                        asset = calculate_reissuance_token(entropy, token_issuance_valid)
                else:
                    if nPseudo == 0:
                        asset = calculate_asset(issuance.assetEntropy)
                    else:
                        # Re-issuance only has one pseudo-input maximum
                        continue
""", """                is_reissuance = not issuance.assetBlindingNonce.is_null()
                if is_reissuance and nPseudo:
                    # Re-issuance only has one pseudo-input maximum
                    continue
                entropy = (issuance.assetEntropy if is_reissuance
                           else generate_asset_entropy(txin.prevout, issuance.assetEntropy))
                if nPseudo == 0:
                    asset = calculate_asset(entropy)
                else:
                    asset = calculate_reissuance_token(entropy, True)
"""),
]

R['output_closure'] = [
    (F, """            txoutwit = tx.wit.vtxoutwit[nOut]

            output_blinding_factors[nOut] = blinds[-1]
            output_asset_blinding_factors[nOut] = assetblinds[-1]

            # Blind the asset ID
            (confAsset, gen) = blinded_asset(asset, assetblinds[-1])

            out.nAsset = confAsset

            # Create value commitment
            (confValue, commit) = create_value_commitment(blinds[-1].data, gen, amount)

            out.nValue = confValue
""", """            blind, assetblind = blinds[-1], assetblinds[-1]
            txoutwit = tx.wit.vtxoutwit[nOut]

            # Blind the asset ID
            (confAsset, gen) = blinded_asset(asset, assetblind)

            # Create value commitment
            (confValue, commit) = create_value_commitment(blind.data, gen, amount)

            out.nAsset, out.nValue = confAsset, confValue
            output_blinding_factors[nOut] = blind
            output_asset_blinding_factors[nOut] = assetblind
"""),
]

R['sum_helper'] = [
    (F, """def blind_transaction(tx: CElementsMutableTransaction, *, # noqa""",
     """def _balancing_factor(blinds, assetblinds, amounts, n_total, n_inputs):
    secp256k1 = get_secp256k1()
    values = (ctypes.c_uint64 * len(amounts))(*amounts)
    assetptrs = (ctypes.c_char_p * len(assetblinds))()
    for i, ab in enumerate(assetblinds):
        assetptrs[i] = ab.data
    last = ctypes.create_string_buffer(blinds[-1].data, len(blinds[-1].data))
    ptrs = (ctypes.c_char_p * len(blinds))()
    for i, b in enumerate(blinds[:-1]):
        ptrs[i] = b.data
    ptrs[-1] = ctypes.cast(last, ctypes.c_char_p)
    ret = secp256k1.lib.secp256k1_pedersen_blind_generator_blind_sum(
        secp256k1.ctx.blind, values, assetptrs, ptrs, n_total, n_inputs)
    if ret != 1:
        raise RuntimeError('secp256k1_pedersen_blind_generator_blind_sum returned failure')
    return Uint256(bytes(last))


def blind_transaction(tx: CElementsMutableTransaction, *, # noqa"""),
    (F, """                blindedAmounts = (ctypes.c_uint64 * len(amounts_to_blind))(*amounts_to_blind)
                assetblindptrs = (ctypes.c_char_p*len(assetblinds))()
                for i, ab in enumerate(assetblinds):
                    assetblindptrs[i] = ab.data

                # Last blind will be written to
                # by secp256k1_pedersen_blind_generator_blind_sum(),
                # so we need to convert it into mutable buffer beforehand
                last_blind = ctypes.create_string_buffer(blinds[-1].data, len(blinds[-1].data))
                blindptrs = (ctypes.c_char_p*len(blinds))()
                for i, blind in enumerate(blinds[:-1]):
                    blindptrs[i] = blind.data

                blindptrs[-1] = ctypes.cast(last_blind, ctypes.c_char_p)

                # Check that number of blinds match. This is important
                # because this number is used by
                # secp256k1_pedersen_blind_generator_blind_sum() to get the
                # index of last blind, and that blinding factor will be overwritten.
                assert len(blindptrs) == nBlindAttempts + nBlindsIn

                assert len(amounts_to_blind) == len(blindptrs)

                _immutable_check_hash = hashlib.sha256(b''.join(b.data for b in blinds)).digest()

                # Generate value we intend to insert
                ret = secp256k1.lib.secp256k1_pedersen_blind_generator_blind_sum(
                    secp256k1.ctx.blind,
                    blindedAmounts, assetblindptrs, blindptrs,
                    nBlindAttempts + nBlindsIn, nIssuanceBlindAttempts + nBlindsIn)

                if 1 != ret:
                    assert ret == 0
                    raise RuntimeError('secp256k1_pedersen_blind_generator_blind_sum returned failure')

                assert _immutable_check_hash == hashlib.sha256(b''.join(b.data
                                                                        for b in blinds)).digest(),\\
                    ("secp256k1_pedersen_blind_generator_blind_sum should not change "
                        "blinding factors other than the last one. Failing this assert "
                        "probably means that we supplied incorrect parameters to the function.")

                blinds[-1] = Uint256(bytes(last_blind))
""", """                blinds[-1] = _balancing_factor(
                    blinds, assetblinds, amounts_to_blind,
                    nBlindAttempts + nBlindsIn, nIssuanceBlindAttempts + nBlindsIn)
"""),
]

R['result_comprehension'] = [
    (F, """        for i, bf in enumerate(output_blinding_factors):
            if bf is None:
                output_blinding_factors[i] = Uint256()

        for i, bf in enumerate(output_asset_blinding_factors):
            if bf is None:
                output_asset_blinding_factors[i] = Uint256()

        return BlindingSuccess(
            num_successfully_blinded=nSuccessfullyBlinded,
            blinding_factors=output_blinding_factors,
            asset_blinding_factors=output_asset_blinding_factors)
""", """        return BlindingSuccess(
            num_successfully_blinded=nSuccessfullyBlinded,
            blinding_factors=[Uint256() if bf is None else bf
                              for bf in output_blinding_factors],
            asset_blinding_factors=[bf if bf is not None else Uint256()
                                    for bf in output_asset_blinding_factors])
"""),
]

R['prefilled_factors'] = [
    (F, """    output_blinding_factors = [None for _ in range(len(tx.vout))]
    output_asset_blinding_factors = [None for _ in range(len(tx.vout))]

    nBlindAttempts = 0
""", """    output_blinding_factors = [Uint256()] * len(tx.vout)
    output_asset_blinding_factors = [Uint256()] * len(tx.vout)

    nBlindAttempts = 0
"""),
    (F, """        for i, bf in enumerate(output_blinding_factors):
            if bf is None:
                output_blinding_factors[i] = Uint256()

        for i, bf in enumerate(output_asset_blinding_factors):
            if bf is None:
                output_asset_blinding_factors[i] = Uint256()

""", ""),
]

R['extend_witness'] = [
    (F, """    while len(tx.wit.vtxoutwit) < len(tx.vout):
        tx.wit.vtxoutwit.append(CElementsMutableTxOutWitness())
""", """    for _ in range(len(tx.vout) - len(tx.wit.vtxoutwit)):
        tx.wit.vtxoutwit.append(CElementsMutableTxOutWitness())
"""),
]

R['output_continue'] = [
    (F, """        if out_pub.is_nonempty():
            # Keys must be valid and outputs completely unblinded or else call fails
            if not out_pub.is_fullyvalid():
                return BlindingFailure(
                    'blinding pubkey for output %d is not valid' % nOut)
            if not tx.vout[nOut].nValue.is_explicit():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but nValue for this output is not explicit' % nOut)
            if not tx.vout[nOut].nAsset.is_explicit():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but nAsset for this output is not explicit' % nOut)
            if len(tx.wit.vtxoutwit) > nOut and not tx.wit.vtxoutwit[nOut].is_null():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but txout witness for this output is already in place' % nOut)
            if tx.vout[nOut].is_fee():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but this output is a fee output' % nOut)

            nToBlind += 1
""", """        if not out_pub.is_nonempty():
            continue
        txout = tx.vout[nOut]
        # Keys must be valid and outputs completely unblinded or else call fails
        if txout.is_fee():
            return BlindingFailure(
                'valid blinding pubkey specified for output %d, '
                'but this output is a fee output' % nOut)
        if not out_pub.is_fullyvalid():
            return BlindingFailure(
                'blinding pubkey for output %d is not valid' % nOut)
        if not (txout.nValue.is_explicit() and txout.nAsset.is_explicit()):
            return BlindingFailure(
                'valid blinding pubkey specified for output %d, '
                'but nValue or nAsset for this output is not explicit' % nOut)
        if nOut < len(tx.wit.vtxoutwit):
            if not tx.wit.vtxoutwit[nOut].is_null():
                return BlindingFailure(
                    'valid blinding pubkey specified for output %d, '
                    'but txout witness for this output is already in place' % nOut)

        nToBlind += 1
"""),
]

R['empty_key_len'] = [
    (F, """        if out_pub.is_nonempty():
""", """        if len(out_pub) > 0:
"""),
]

R['result_args'] = [
    (F, """    def blinding_result() -> Union['BlindingSuccess', 'BlindingFailure']:

        if is_blind_success_strict and nSuccessfullyBlinded != nToBlind:
""", """    def blinding_result() -> Union['BlindingSuccess', 'BlindingFailure']:
        incomplete = nToBlind != nSuccessfullyBlinded

        if incomplete and is_blind_success_strict:
"""),
]
