"""Bugs in styles other than one-point changes: caches, truthiness for None, truncating zips,
arguments changed in place, swallowed errors, helpers with subtle rules, decorators."""
R = {}
CO, SC, WA, SE, BL, LA, IN = ('core/__init__.py', 'core/script.py', 'wallet.py', 'core/secp256k1.py',
                              'blech32.py', 'liquid_addr.py', '__init__.py')


def r(name, *edits):
    R[name] = edits


# ---- caches
r('entropy_cache', (CO, """def generate_asset_entropy(
    prevout: COutPoint, contracthash: Union[bytes, bytearray, Uint256]
) -> Uint256:
""", """_entropy_cache: Dict[bytes, Uint256] = {}


def generate_asset_entropy(
    prevout: COutPoint, contracthash: Union[bytes, bytearray, Uint256]
) -> Uint256:
"""), (CO, """    assert len(contracthash) == 32
    return Uint256(CSHA256().Write(prevout.GetHash()).Write(contracthash).Midstate())
""", """    assert len(contracthash) == 32
    key = prevout.hash + bytes(contracthash)
    if key not in _entropy_cache:
        _entropy_cache[key] = Uint256(
            CSHA256().Write(prevout.GetHash()).Write(contracthash).Midstate())
    return _entropy_cache[key]
"""), (CO, "from typing import (\n", "from typing import (\n    Dict,\n"))
r('asset_lru', (CO, "def calculate_reissuance_token(", "@functools.lru_cache(maxsize=None)\ndef calculate_reissuance_token("),
  (CO, "import ctypes\n", "import ctypes\nimport functools\n"))
r('isnull_cached', (CO, """        object.__setattr__(self, 'issuanceAmountRangeproof',
                           bytes(issuanceAmountRangeproof))
        object.__setattr__(self, 'inflationKeysRangeproof',
                           bytes(inflationKeysRangeproof))
        # Note""", """        object.__setattr__(self, 'issuanceAmountRangeproof',
                           bytes(issuanceAmountRangeproof))
        object.__setattr__(self, 'inflationKeysRangeproof',
                           bytes(issuanceAmountRangeproof and inflationKeysRangeproof))
        # Note"""))
r('handle_per_path', (SE, """    global _secp256k1

    if not _secp256k1:
        secp256k1 =""", """    global _secp256k1

    if not _secp256k1 or not _secp256k1.cap.has_zkp:
        secp256k1 ="""))
# ---- truthiness for None
r('annex_truth', (SC, """    spend_type = ext_flag << 1

    if annex_hash is not None:""", """    spend_type = ext_flag << 1

    if annex_hash:"""))
r('hashtype_truth', (SC, """    if hashtype is None:
        hashtype = SIGHASH_ALL
        hashtype_byte = b'\\x00'
""", """    if not hashtype or hashtype == SIGHASH_ALL:
        hashtype = SIGHASH_ALL
        hashtype_byte = b'\\x00'
"""))
r('ctbits_truth', (CO, """    if custom_ct_bits is not None:
        ensure_isinstance""", """    if custom_ct_bits:
        ensure_isinstance"""))
r('codesep_truth', (SC, """        if codeseparator_pos is None:
            raise ValueError('codeseparator_pos must""", """        if not codeseparator_pos:
            raise ValueError('codeseparator_pos must"""))
r('witver_truth', (BL, """        elif witver < 0:
            raise ValueError('negative witver specified')
        elif cls_wv >= 0 and""", """        elif witver < 0:
            raise ValueError('negative witver specified')
        elif cls_wv > 0 and"""))
r('datalength_none', (WA, """            data_length = getattr(cls, '_data_length', None)
            if not data_length:
                raise TypeError('output size is not available for {}'
                                .format(cls.__name__))
            inst = cls.from_bytes(b'\\x00'*data_length)
        else:
            inst = cls_or_inst
        dummy""", """            data_length = getattr(cls, '_data_length', 20 + 33)
            inst = cls.from_bytes(b'\\x00'*data_length)
        else:
            inst = cls_or_inst
        dummy"""))
# ---- truncating zips, wrong pairing
r('spent_zip', (SC, """        for sout in spent_outputs:
            assets_amounts_hashobj.update(""", """        for sout, _ in zip(spent_outputs, txTo.vout):
            assets_amounts_hashobj.update("""))
r('wit_zip', (SC, """        for outp_i, txout in enumerate(txTo.vout):
            outputs_hashobj.update(txout.serialize())
            output_witnesses_hashobj.update(
                get_outwit(outp_i).serialize())
""", """        for outp_i, txout in enumerate(txTo.vout):
            outputs_hashobj.update(txout.serialize())
        for outwit in txTo.wit.vtxoutwit:
            output_witnesses_hashobj.update(outwit.serialize())
"""))
r('sequence_set', (SC, """        for i in txTo.vin:
            serialize_sequence += struct.pack("<I", i.nSequence)
""", """        for i in txTo.vin:
            if i.nSequence != 0xffffffff or inIdx < len(txTo.vin):
                serialize_sequence += struct.pack("<I", i.nSequence)
"""))
# ---- arguments changed in place
r('targets_append', (CO, """    nInputsToSelect = min(3, len(surjectionTargets))
""", """    while len(surjectionTargets) < 3:
        surjectionTargets.append(Uint256())
    nInputsToSelect = min(3, len(surjectionTargets))
"""))
r('wit_clear', (CO, """        f.write(struct.pack(b"<i", self.nVersion))
        if include_witness and not self.wit.is_null():
            assert""", """        f.write(struct.pack(b"<i", self.nVersion))
        if for_sighash:
            include_witness = False
        if include_witness and not self.wit.is_null():
            assert"""))
r('desc_pop', (CO, """            blinds.append(input_descriptors[nIn].blinding_factor)
            assetblinds.append(input_descriptors[nIn].asset_blinding_factor)
            amounts_to_blind.append(input_descriptors[nIn].amount)
""", """            blinds.append(input_descriptors[nIn].blinding_factor)
            assetblinds.append(input_descriptors[nIn].asset_blinding_factor)
            amounts_to_blind.append(abs(input_descriptors[nIn].amount) or 1)
"""))
# ---- swallowed errors
r('pegout_swallow', (CO, """    assert len(contracthash) == 32
    return Uint256(""", """    contracthash = bytes(contracthash).ljust(32, b'\\x00')[:32]
    return Uint256("""))
r('verify_swallow', (CO, """        ret = secp256k1.lib.secp256k1_surjectionproof_verify(
            secp256k1.ctx.blind, proof,
            ephemeral_input_tags_buf, len(targetAssetGenerators), gen)

        if 1 != ret:
            assert ret == 0
            raise RuntimeError('secp256k1_surjectionproof_verify returned failure')
""", """        ret = secp256k1.lib.secp256k1_surjectionproof_verify(
            secp256k1.ctx.blind, proof,
            ephemeral_input_tags_buf, len(targetAssetGenerators), gen)

        if 1 != ret:
            return None
"""))
r('rewind_swallow', (CO, """    if 0 == res:
        return UnblindingFailure('unable to rewind rangeproof')

    assert res == 1
""", """    if res < 0:
        return UnblindingFailure('unable to rewind rangeproof')
"""))
r('candidate_swallow', (BL, """                except UnexpectedBlech32LenghOrVersion:
                    pass
""", """                except ValueError:
                    pass
"""))
r('prefix_swallow', (CO, """        else:
            raise WitnessSerializationError('Unrecognized serialization prefix')
""", """        elif version > 0x80:
            raise WitnessSerializationError('Unrecognized serialization prefix')
"""))
# ---- helpers with subtle rules
r('helper_flag', (CO, """            n = self.prevout.n & OUTPOINT_INDEX_MASK
            if not for_sighash:
                if has_asset_issuance:
                    n |= OUTPOINT_ISSUANCE_FLAG
                if self.is_pegin:
                    n |= OUTPOINT_PEGIN_FLAG
""", """            n = self._flagged_index(has_asset_issuance, for_sighash)
"""), (CO, """    def stream_serialize(self, f: BytesIO, for_sighash: bool = False,
                         **kwargs: Any) -> None:
        if self.prevout.n == 0xffffffff:""", """    def _flagged_index(self, has_asset_issuance: bool,
                       for_sighash: bool) -> int:
        n = self.prevout.n & OUTPOINT_INDEX_MASK
        if for_sighash:
            return n
        if has_asset_issuance:
            return n | OUTPOINT_ISSUANCE_FLAG
        if self.is_pegin:
            return n | OUTPOINT_PEGIN_FLAG
        return n

    def stream_serialize(self, f: BytesIO, for_sighash: bool = False,
                         **kwargs: Any) -> None:
        if self.prevout.n == 0xffffffff:"""))
r('helper_isshash', (SC, """def RawElementsSignatureHash(
    script""", """def _issuance_bytes(vin: 'elementstx.core.CElementsTxIn') -> bytes:
    issuance = vin.assetIssuance
    if issuance.nAmount.is_null():
        return b'\\x00'
    return issuance.serialize()


def RawElementsSignatureHash(
    script"""), (SC, """            if vin.assetIssuance.is_null():
                serialize_issuance += b'\\x00'
            else:
                serialize_issuance += vin.assetIssuance.serialize()
""", """            serialize_issuance += _issuance_bytes(vin)
"""))
r('helper_hashtype', (SC, """    hashPrevouts = b'\\x00'*32
    hashSequence""", """    anyone_can_pay = bool(hashtype & SIGHASH_ANYONECANPAY)
    base_type = hashtype & 3

    hashPrevouts = b'\\x00'*32
    hashSequence"""), (SC, """    if ((hashtype & 0x1f) != SIGHASH_SINGLE and (hashtype & 0x1f) != SIGHASH_NONE):
        serialize_outputs""", """    if (base_type != SIGHASH_SINGLE and base_type != SIGHASH_NONE):
        serialize_outputs"""))
r('loop_break', (CO, """        for n in range(len(self.vtxoutwit)):
            if not self.vtxoutwit[n].is_null():
                return False
        return True
""", """        for n in range(min(len(self.vtxoutwit), len(self.vtxinwit))):
            if not self.vtxoutwit[n].is_null():
                return False
        return True
"""))
# ---- class level
r('hash_override', (CO, """class CElementsOutPoint(COutPoint, CoreElementsClass):
    \"\"\"Elements COutPoint\"\"\"
    __slots__: List[str] = []
""", """class CElementsOutPoint(COutPoint, CoreElementsClass):
    \"\"\"Elements COutPoint\"\"\"
    __slots__: List[str] = []

    def __eq__(self, other: object) -> bool:
        return isinstance(other, COutPoint) and self.hash == other.hash

    def __hash__(self) -> int:
        return hash(self.hash)
"""))
r('mro_swap', (CO, """class CElementsMutableTxOut(CElementsTxOut, CMutableTxOut,
                            mutable_of=CElementsTxOut):
    __slots__: List[str] = []
""", """class CElementsMutableTxOut(CElementsTxOut, CMutableTxOut,
                            mutable_of=CElementsTxOut):
    __slots__: List[str] = []

    def is_fee(self) -> bool:
        return not len(self.scriptPubKey)
"""))
r('override_len', (CO, """class CElementsMutableOutPoint(CElementsOutPoint, CMutableOutPoint,
                               mutable_of=CElementsOutPoint):
    \"\"\"A mutable Elements COutPoint\"\"\"
    __slots__: List[str] = []
""", """class CElementsMutableOutPoint(CElementsOutPoint, CMutableOutPoint,
                               mutable_of=CElementsOutPoint):
    \"\"\"A mutable Elements COutPoint\"\"\"
    __slots__: List[str] = []

    def stream_serialize(self, f: BytesIO, **kwargs: Any) -> None:
        f.write(self.hash)
        f.write(struct.pack(b"<I", self.n & OUTPOINT_INDEX_MASK))
"""))
r('commitment_setattr', (CO, """    @no_bool_use_as_property
    def is_null(self) -> bool:
        return not len(self.commitment)

    @no_bool_use_as_property
    def is_explicit(self) -> bool:
        return (""", """    @no_bool_use_as_property
    def is_null(self) -> bool:
        return not len(self.commitment)

    def is_explicit(self) -> bool:
        return ("""))
r('nonce_override', (CO, """class CConfidentialNonce(CConfidentialCommitmentBase):
    _explicitSize = 33
    _prefixA = 2
    _prefixB = 3
""", """class CConfidentialNonce(CConfidentialCommitmentBase):
    _explicitSize = 33
    _prefixA = 2
    _prefixB = 3

    def is_null(self) -> bool:
        return not any(self.commitment)
"""))
r('register_wrong', (WA, """P2WSHElementsLiquidV1Address.register(""", """P2WPKHElementsLiquidV1Address.register("""))
r('script_unspendable', (SC, """        if len(self) == 0:
            return True
        return super(CElementsScript, self).is_unspendable()
""", """        if len(self) == 0 or self[:1] == b'\\x6a':
            return True
        return super(CElementsScript, self).is_unspendable()
"""))
# ---- numeric
r('amount_unsigned', (CO, 'return int(struct.unpack(b">q", self.commitment[1:])[0])', 'return int.from_bytes(self.commitment[1:], "big")'))
r('token_from_bool', (CO, """    if is_confidential:
        k = Uint256.from_int(2)
    else:
        k = Uint256.from_int(1)
""", """    k = Uint256.from_int(1 + is_confidential if len(entropy) == 32 else 2)
    k = Uint256.from_int(1 << (k.to_int() - 1) << (0 if is_confidential else 0))
    if not is_confidential and entropy[:1] == b'\\xff':
        k = Uint256.from_int(2)
"""))
r('bits_leftover', (LA, "elif bits >= frombits or ((acc << (tobits - bits)) & maxv):", "elif bits > frombits or ((acc << (tobits - bits)) & maxv):"))
r('polymod_gen', (LA, "generator[i] if ((top >> i) & 1)", "generator[i] if ((top >> i) & 1 or top > 30)"))
r('neg_index', (SC, """    if inIdx < 0:
        raise ValueError('input index must not be negative')

    if inIdx >= len(txTo.vin):""", """    if inIdx < -len(txTo.vin):
        raise ValueError('input index must not be negative')

    if inIdx >= len(txTo.vin):"""))
r('codesep_unsigned', (SC, 'f.write(struct.pack("<i", codeseparator_pos))', 'f.write(struct.pack("<I", codeseparator_pos & 0x7fffffff))'))
r('locktime_order', (CO, """        f.write(struct.pack(b"<i", self.nVersion))
        if include_witness""", """        f.write(struct.pack(b"<I", self.nVersion & 0xffffffff))
        if include_witness"""))
r('aux_slice', (CO, "for n, ag in enumerate(auxiliary_generators[len(tx.vin):]):", "for n, ag in enumerate(auxiliary_generators[totalTargets:]):"))
r('select_all', (CO, "nInputsToSelect = min(3, len(surjectionTargets))", "nInputsToSelect = min(3, len(set(surjectionTargets)))"))
r('blind_reverse', (CO, "blind = in_blinds[-1]", "blind = in_blinds[-1] if len(in_blinds) > 1 else in_blinds[0]"))
r('derive_script_serialized', (CO, """    return CKey(hmac.new(blinding_derivation_key.secret_bytes, script,
                         hashlib.sha256).digest())""", """    return CKey(hmac.new(blinding_derivation_key.secret_bytes, bytes(script).rstrip(b'\\x00'),
                         hashlib.sha256).digest())"""))
