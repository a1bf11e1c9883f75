"""Behaviour-preserving edits of records, sighash, addresses, blech32, C declarations."""
CI = 'core/__init__.py'
SC = 'core/script.py'
R = {}


def r(name, *edits):
    assert name not in R
    R[name] = edits


# ---- confidential commitments
r('size_table', (CI, """        version = ser_read(f, 1)[0]
        read_size = 0
        if version == 0:
            read_size = 0
        elif version == 1:
            read_size = cls._explicitSize
        elif version in (cls._prefixA, cls._prefixB):
            read_size = cls._committedSize
        else:
            raise WitnessSerializationError('Unrecognized serialization prefix')

        if read_size > 0:
            commitment = bytes([version]) + ser_read(f, read_size-1)
        else:
            commitment = b''

        return cls(commitment)
""", """        prefix = ser_read(f, 1)
        sizes = {0: 0, 1: cls._explicitSize,
                 cls._prefixA: cls._committedSize,
                 cls._prefixB: cls._committedSize}
        if prefix[0] not in sizes:
            raise WitnessSerializationError('Unrecognized serialization prefix')

        if prefix[0] == 0:
            return cls(b'')

        return cls(prefix + ser_read(f, sizes[prefix[0]] - 1))
"""))
r('size_early', (CI, """        read_size = 0
        if version == 0:
            read_size = 0
        elif version == 1:
            read_size = cls._explicitSize
        elif version in (cls._prefixA, cls._prefixB):
            read_size = cls._committedSize
        else:
            raise WitnessSerializationError('Unrecognized serialization prefix')

        if read_size > 0:
            commitment = bytes([version]) + ser_read(f, read_size-1)
        else:
            commitment = b''

        return cls(commitment)
""", """        if version == 0:
            return cls(b'')

        if version == 1:
            payload_size = cls._explicitSize - 1
        elif version == cls._prefixA or version == cls._prefixB:
            payload_size = cls._committedSize - 1
        else:
            raise WitnessSerializationError('Unrecognized serialization prefix')

        payload = ser_read(f, payload_size)
        return cls(struct.pack('B', version) + payload)
"""))
r('commit_or', (CI, """        if len(self.commitment):
            f.write(self.commitment)
        else:
            f.write(bytes([0]))
""", """        f.write(self.commitment or b'\\x00')
"""))
r('commit_checks', (CI, """        return (len(self.commitment) == self._explicitSize
                and self.commitment[0] == 1)
""", """        if len(self.commitment) != self._explicitSize:
            return False
        return self.commitment[0] == 1
"""), (CI, """                and self.commitment[0] in (self._prefixA, self._prefixB))
""", """                and (self.commitment[0] == self._prefixA
                     or self.commitment[0] == self._prefixB))
"""), (CI, """        return not len(self.commitment)
""", """        return self.commitment == b''
"""))
r('commit_size_or', (CI, """        allowed_sizes = (0, self._explicitSize, self._committedSize)
        if len(commitment) not in allowed_sizes:
""", """        allowed_sizes = (0, self._explicitSize, self._committedSize)
        size = len(commitment)
        if not (size == 0 or size == self._explicitSize or size == self._committedSize):
"""))
r('explicit_prefix_const', (CI, """        if isinstance(asset_or_commitment, CAsset):
            commitment = bytes([1]) + asset_or_commitment.data
        else:
            commitment = asset_or_commitment
        super(CConfidentialAsset, self).__init__(commitment)
""", """        commitment = asset_or_commitment
        if isinstance(commitment, CAsset):
            commitment = b'\\x01' + commitment.data
        super().__init__(commitment)
"""), (CI, """            commitment = bytes([1]) + struct.pack(b">q", value_or_commitment)
""", """            commitment = struct.pack(b">Bq", 1, value_or_commitment)
"""), (CI, """        return int(struct.unpack(b">q", self.commitment[1:])[0])
""", """        (amount, ) = struct.unpack('>q', self.commitment[1:])
        return int(amount)
"""))
# ---- witnesses
r('wit_null_all', (CI, """        for n in range(len(self.vtxinwit)):
            if not self.vtxinwit[n].is_null():
                return False
        for n in range(len(self.vtxoutwit)):
            if not self.vtxoutwit[n].is_null():
                return False
        return True
""", """        return (all(w.is_null() for w in self.vtxinwit)
                and all(w.is_null() for w in self.vtxoutwit))
"""))
r('wit_null_any', (CI, """        for n in range(len(self.vtxinwit)):
            if not self.vtxinwit[n].is_null():
                return False
        for n in range(len(self.vtxoutwit)):
            if not self.vtxoutwit[n].is_null():
                return False
        return True
""", """        witnesses = list(self.vtxinwit) + list(self.vtxoutwit)
        return not any(not wit.is_null() for wit in witnesses)
"""))
r('wit_write_loop', (CI, """        for i in range(len(self.vtxinwit)):
            self.vtxinwit[i].stream_serialize(f)
        for i in range(len(self.vtxoutwit)):
            self.vtxoutwit[i].stream_serialize(f)
""", """        for inwit in self.vtxinwit:
            inwit.stream_serialize(f)
        for outwit in self.vtxoutwit:
            outwit.stream_serialize(f)
"""))
r('wit_read_list', (CI, """        vtxinwit = tuple(
            CElementsTxInWitness.stream_deserialize(f)
            for dummy in range(num_inputs))
        vtxoutwit = tuple(
            CElementsTxOutWitness.stream_deserialize(f)
            for dummy in range(num_outputs))

        return cls(vtxinwit, vtxoutwit)
""", """        vtxinwit = []
        for _ in range(num_inputs):
            vtxinwit.append(CElementsTxInWitness.stream_deserialize(f))
        vtxoutwit = []
        for _ in range(num_outputs):
            vtxoutwit.append(CElementsTxOutWitness.stream_deserialize(f))

        return cls(tuple(vtxinwit), tuple(vtxoutwit))
"""))
r('wit_init_comp', (CI, """        txinwit = []
        for wi in vtxinwit:
            txinwit.append(CTxInWitness.from_txin_witness(wi))

        txoutwit = []
        for wo in vtxoutwit:
            txoutwit.append(CTxOutWitness.from_txout_witness(wo))

        if self.is_immutable():
            txinwit = tuple(txinwit)  # type: ignore
            txoutwit = tuple(txoutwit)  # type: ignore

        # Note: vtxoutwit is ignored, does not exist for bitcon tx witness
        object.__setattr__(self, 'vtxinwit', txinwit)
        object.__setattr__(self, 'vtxoutwit', txoutwit)
""", """        container = tuple if self.is_immutable() else list
        object.__setattr__(
            self, 'vtxinwit',
            container(CTxInWitness.from_txin_witness(w) for w in vtxinwit))
        object.__setattr__(
            self, 'vtxoutwit',
            container(CTxOutWitness.from_txout_witness(w) for w in vtxoutwit))
"""))
r('inwit_null_falsy', (CI, """        return (not len(self.issuanceAmountRangeproof)
                and not len(self.inflationKeysRangeproof)
                and self.scriptWitness.is_null()
                and self.pegin_witness.is_null())
""", """        if self.issuanceAmountRangeproof or self.inflationKeysRangeproof:
            return False
        return self.scriptWitness.is_null() and self.pegin_witness.is_null()
"""))
r('outwit_null_or', (CI, """        return not len(self.surjectionproof) and not len(self.rangeproof)
""", """        return not (self.surjectionproof or self.rangeproof)
"""))
r('inwit_kw', (CI, """        return cls(scriptWitness, issuanceAmountRangeproof, inflationKeysRangeproof,
                   pegin_witness)
""", """        return cls(scriptWitness=scriptWitness,
                   issuanceAmountRangeproof=issuanceAmountRangeproof,
                   inflationKeysRangeproof=inflationKeysRangeproof,
                   pegin_witness=pegin_witness)
"""))
r('proof_helper', (CI, """        BytesSerializer.stream_serialize(self.issuanceAmountRangeproof, f)
        BytesSerializer.stream_serialize(self.inflationKeysRangeproof, f)
        self.scriptWitness.stream_serialize(f)
        self.pegin_witness.stream_serialize(f)
""", """        for proof in (self.issuanceAmountRangeproof, self.inflationKeysRangeproof):
            BytesSerializer.stream_serialize(proof, f)
        for script_wit in (self.scriptWitness, self.pegin_witness):
            script_wit.stream_serialize(f)
"""))
r('setattr_loop', (CI, """        object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
        object.__setattr__(self, 'rangeproof', bytes(rangeproof))
""", """        for name, proof in (('surjectionproof', surjectionproof), ('rangeproof', rangeproof)):
            object.__setattr__(self, name, bytes(proof))
"""))
# ---- issuance, txin, txout
r('issuance_helper', (CI, """        self.assetBlindingNonce.stream_serialize(f)
        self.assetEntropy.stream_serialize(f)
        self.nAmount.stream_serialize(f)
        self.nInflationKeys.stream_serialize(f)

    def _repr_or_str""", """        for field in self.__slots__:
            getattr(self, field).stream_serialize(f)

    def _repr_or_str"""))
r('issuance_fields', (CI, """        self.assetBlindingNonce.stream_serialize(f)
        self.assetEntropy.stream_serialize(f)
        self.nAmount.stream_serialize(f)
        self.nInflationKeys.stream_serialize(f)

    def _repr_or_str""", """        for field in (self.assetBlindingNonce, self.assetEntropy,
                      self.nAmount, self.nInflationKeys):
            field.stream_serialize(f)

    def _repr_or_str"""))
r('issuance_repr', (CI, """        r = []
        if self.assetBlindingNonce.to_int():
            r.append(bytes_repr(self.assetBlindingNonce.data))
        if self.assetEntropy.to_int():
            r.append(bytes_repr(self.assetEntropy.data))
        if not self.nAmount.is_null():
            r.append(strfn(self.nAmount))
        if not self.nInflationKeys.is_null():
            r.append(strfn(self.nInflationKeys))
""", """        r = [bytes_repr(v.data) for v in (self.assetBlindingNonce, self.assetEntropy)
             if v.to_int()]
        r.extend(strfn(v) for v in (self.nAmount, self.nInflationKeys)
                 if not v.is_null())
"""))
r('txin_read_early', (CI, """        if base.prevout.n == 0xffffffff:
            # No asset issuance for Coinbase inputs.
            has_asset_issuance = False
            is_pegin = False
            prevout = base.prevout
        else:
""", """        has_asset_issuance = is_pegin = False
        prevout = base.prevout
        if base.prevout.n != 0xffffffff:
"""))
r('txin_read_helper', (CI, """        base = super(CElementsTxIn, cls).stream_deserialize(f)
        if base.prevout.n == 0xffffffff:
            # No asset issuance for Coinbase inputs.
            has_asset_issuance = False
            is_pegin = False
            prevout = base.prevout
        else:
            # The presence of the asset issuance object is indicated by
            # a bit set in the outpoint index field.
            has_asset_issuance = bool(base.prevout.n & OUTPOINT_ISSUANCE_FLAG)
            # The interpretation of this input as a peg-in is indicated by
            # a bit set in the outpoint index field.
            is_pegin = bool(base.prevout.n & OUTPOINT_PEGIN_FLAG)
            # The mode, if set, must be masked out of the outpoint so
            # that the in-memory index field retains its traditional
            # meaning of identifying the index into the output array
            # of the previous transaction.
            prevout = CElementsOutPoint(base.prevout.hash,
                                        base.prevout.n & OUTPOINT_INDEX_MASK)

        if has_asset_issuance:
            assetIssuance = CAssetIssuance.stream_deserialize(f)
        else:
            assetIssuance = CAssetIssuance()

        return cls(prevout, base.scriptSig, base.nSequence, assetIssuance, is_pegin)
""", """        base = super().stream_deserialize(f)
        prevout, has_asset_issuance, is_pegin = cls._split_outpoint(base.prevout)
        issuance = (CAssetIssuance.stream_deserialize(f) if has_asset_issuance
                    else CAssetIssuance())
        return cls(prevout, base.scriptSig, base.nSequence,
                   assetIssuance=issuance, is_pegin=is_pegin)

    @staticmethod
    def _split_outpoint(outpoint: Any) -> Tuple[Any, bool, bool]:
        if outpoint.n == 0xffffffff:
            return outpoint, False, False
        return (CElementsOutPoint(outpoint.hash, outpoint.n & OUTPOINT_INDEX_MASK),
                (outpoint.n & OUTPOINT_ISSUANCE_FLAG) != 0,
                (outpoint.n & OUTPOINT_PEGIN_FLAG) != 0)
"""))
r('txin_write_flags', (CI, """            n = self.prevout.n & OUTPOINT_INDEX_MASK
            if not for_sighash:
                if has_asset_issuance:
                    n |= OUTPOINT_ISSUANCE_FLAG
                if self.is_pegin:
                    n |= OUTPOINT_PEGIN_FLAG
            outpoint = CElementsOutPoint(self.prevout.hash, n)
""", """            n = self.prevout.n
            if has_asset_issuance and not for_sighash:
                n += OUTPOINT_ISSUANCE_FLAG
            if self.is_pegin and not for_sighash:
                n += OUTPOINT_PEGIN_FLAG
            outpoint = CElementsOutPoint(self.prevout.hash, n)
"""))
r('txin_write_flags2', (CI, """            if not for_sighash:
                if has_asset_issuance:
                    n |= OUTPOINT_ISSUANCE_FLAG
                if self.is_pegin:
                    n |= OUTPOINT_PEGIN_FLAG
            outpoint = CElementsOutPoint(self.prevout.hash, n)
""", """            flags = 0
            if not for_sighash:
                flags |= OUTPOINT_ISSUANCE_FLAG if has_asset_issuance else 0
                flags |= OUTPOINT_PEGIN_FLAG if self.is_pegin else 0
            outpoint = CElementsOutPoint(self.prevout.hash, n | flags)
"""))
r('txin_write_split', (CI, """        if self.prevout.n == 0xffffffff:
            has_asset_issuance = False
            outpoint = self.prevout
        else:
            if self.prevout.n & ~OUTPOINT_INDEX_MASK:
                raise TxInSerializationError('High bits of prevout.n should not be set')
""", """        is_coinbase = self.prevout.n == 0xffffffff
        if not is_coinbase and self.prevout.n > OUTPOINT_INDEX_MASK:
            raise TxInSerializationError('High bits of prevout.n should not be set')

        if is_coinbase:
            has_asset_issuance = False
            outpoint = self.prevout
        else:
"""))
r('txin_write_pack', (CI, """        BytesSerializer.stream_serialize(self.scriptSig, f)
        f.write(struct.pack(b"<I", self.nSequence))

        if has_asset_issuance:
            self.assetIssuance.stream_serialize(f)
""", """        f.write(BytesSerializer.serialize(self.scriptSig)
                + struct.pack('<I', self.nSequence))

        if not has_asset_issuance:
            return
        self.assetIssuance.stream_serialize(f)
"""))
r('txout_fee_len', (CI, """        return (not len(self.scriptPubKey)
                and self.nValue.is_explicit()
                and self.nAsset.is_explicit())
""", """        if len(self.scriptPubKey) > 0:
            return False
        return self.nAsset.is_explicit() and self.nValue.is_explicit()
"""))
r('txout_null_all', (CI, """        return (self.nAsset.is_null() and self.nValue.is_null()
                and self.nNonce.is_null() and not len(self.scriptPubKey))
""", """        return len(self.scriptPubKey) == 0 and all(
            part.is_null() for part in (self.nAsset, self.nValue, self.nNonce))
"""))
r('txout_read_inline', (CI, """        nAsset = CConfidentialAsset.stream_deserialize(f)
        nValue = CConfidentialValue.stream_deserialize(f)
        nNonce = CConfidentialNonce.stream_deserialize(f)
        scriptPubKey = CElementsScript(BytesSerializer.stream_deserialize(f))
        return cls(nValue, scriptPubKey, nAsset, nNonce)
""", """        asset, value, nonce = (
            field_cls.stream_deserialize(f)
            for field_cls in (CConfidentialAsset, CConfidentialValue, CConfidentialNonce))
        script = BytesSerializer.stream_deserialize(f)
        return cls(value, CElementsScript(script), asset, nonce)
"""))
# ---- transaction
r('tx_read_shared', (CI, """        if markerbyte == 0 and flagbyte == 1:
            vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
            vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
            # Note: nLockTime goes before witness in Elements transactions
            nLockTime = struct.unpack(b"<I", ser_read(f, 4))[0]
            wit = CElementsTxWitness.stream_deserialize(
                f, num_inputs=len(vin), num_outputs=len(vout),
                **kwargs)

            if wit.is_null():
                # It's illegal to encode witnesses
                # when all witness stacks are empty.
                raise ValueError('Superfluous witness record')

            return cls(vin, vout, nLockTime, nVersion, wit)
        elif flagbyte != 0:
            raise SerializationError('Unknown transaction optional data')
        else:
            vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
            vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
            nLockTime = struct.unpack(b"<I", ser_read(f, 4))[0]
            return cls(vin, vout, nLockTime, nVersion)
""", """        if flagbyte not in (0, 1):
            raise SerializationError('Unknown transaction optional data')

        vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
        vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
        # Note: nLockTime goes before witness in Elements transactions
        nLockTime = struct.unpack(b"<I", ser_read(f, 4))[0]
        if flagbyte == 0:
            return cls(vin, vout, nLockTime, nVersion)

        wit = CElementsTxWitness.stream_deserialize(
            f, num_inputs=len(vin), num_outputs=len(vout), **kwargs)
        if not wit.is_null():
            return cls(vin, vout, nLockTime, nVersion, wit)

        # It's illegal to encode witnesses when all witness stacks are empty.
        raise ValueError('Superfluous witness record')
"""), (CI, """        markerbyte = 0
        flagbyte = struct""", """        flagbyte = struct"""))
r('tx_write_shared', (CI, """        if include_witness and not self.wit.is_null():
            assert len(self.wit.vtxinwit) <= len(self.vin)
            assert len(self.wit.vtxoutwit) <= len(self.vout)
            f.write(b'\\x01')  # Flag
            # no check of for_sighash, because standard sighash calls this without witnesses.
            VectorSerializer.stream_serialize(self.vin, f)
            VectorSerializer.stream_serialize(self.vout, f)
            # Note: nLockTime goes before witness in Elements transactions
            f.write(struct.pack(b"<I", self.nLockTime))
            # There is no count of witnesses in the serialized data, there
            # must be exactly one for each input and one for each output.
            # Absent witness is the same as null witness.
            wit = CElementsTxWitness(
                list(self.wit.vtxinwit) + [CElementsTxInWitness()] * (
                    len(self.vin) - len(self.wit.vtxinwit)),
                list(self.wit.vtxoutwit) + [CElementsTxOutWitness()] * (
                    len(self.vout) - len(self.wit.vtxoutwit)))
            wit.stream_serialize(f)
        else:
""", """        if include_witness and not self.wit.is_null():
            vtxinwit = list(self.wit.vtxinwit)
            vtxoutwit = list(self.wit.vtxoutwit)
            assert len(vtxinwit) <= len(self.vin)
            assert len(vtxoutwit) <= len(self.vout)
            f.write(b'\\x01')  # Flag
            # no check of for_sighash, because standard sighash calls this without witnesses.
            VectorSerializer.stream_serialize(self.vin, f)
            VectorSerializer.stream_serialize(self.vout, f)
            # Note: nLockTime goes before witness in Elements transactions
            f.write(struct.pack(b"<I", self.nLockTime))
            vtxinwit.extend(CElementsTxInWitness() for _ in range(len(self.vin) - len(vtxinwit)))
            vtxoutwit.extend(CElementsTxOutWitness() for _ in range(len(self.vout) - len(vtxoutwit)))
            CElementsTxWitness(vtxinwit, vtxoutwit).stream_serialize(f)
        else:
"""))
r('num_issuances_sum', (CI, """        numIssuances = 0
        for txin in self.vin:
            if not txin.assetIssuance.is_null():
                if not txin.assetIssuance.nAmount.is_null():
                    numIssuances += 1
                if not txin.assetIssuance.nInflationKeys.is_null():
                    numIssuances += 1

        return numIssuances
""", """        return sum(int(not part.is_null())
                   for txin in self.vin
                   for part in (txin.assetIssuance.nAmount,
                                txin.assetIssuance.nInflationKeys))
"""))
r('num_issuances_flat', (CI, """            if not txin.assetIssuance.is_null():
                if not txin.assetIssuance.nAmount.is_null():
                    numIssuances += 1
                if not txin.assetIssuance.nInflationKeys.is_null():
                    numIssuances += 1
""", """            issuance = txin.assetIssuance
            if not issuance.nAmount.is_null():
                numIssuances += 1
            if not issuance.nInflationKeys.is_null():
                numIssuances += 1
"""))
r('rpinfo', (CI, """        if result != 1:
            assert result == 0
            return None

        return ZKPRangeproofInfo(exp=exp.value, mantissa=mantissa.value,
                                 value_min=value_min.value, value_max=value_max.value)
""", """        if result == 1:
            return ZKPRangeproofInfo(*(v.value for v in (exp, mantissa, value_min, value_max)))

        assert result == 0
        return None
"""))
# ---- sighash
r('sh_types', (SC, """    if (not (hashtype & SIGHASH_ANYONECANPAY) and (hashtype & 0x1f) != SIGHASH_SINGLE and (hashtype & 0x1f) != SIGHASH_NONE):
""", """    anyone_can_pay = bool(hashtype & SIGHASH_ANYONECANPAY)
    base_type = hashtype & 0x1f
    if not anyone_can_pay and base_type not in (SIGHASH_SINGLE, SIGHASH_NONE):
"""), (SC, """    if ((hashtype & 0x1f) != SIGHASH_SINGLE and (hashtype & 0x1f) != SIGHASH_NONE):
        serialize_outputs = bytes()
        for o in txTo.vout:
            serialize_outputs += o.serialize()
        hashOutputs = Hash(serialize_outputs)
    elif ((hashtype & 0x1f) == SIGHASH_SINGLE and inIdx < len(txTo.vout)):
        serialize_outputs = txTo.vout[inIdx].serialize()
        hashOutputs = Hash(serialize_outputs)
""", """    if base_type == SIGHASH_SINGLE:
        if inIdx < len(txTo.vout):
            hashOutputs = Hash(txTo.vout[inIdx].serialize())
    elif base_type != SIGHASH_NONE:
        hashOutputs = Hash(b''.join(o.serialize() for o in txTo.vout))
"""))
r('sh_join', (SC, """        serialize_prevouts = bytes()
        serialize_issuance = bytes()
        for vin in txTo.vin:
            serialize_prevouts += vin.prevout.serialize()
            if vin.assetIssuance.is_null():
                serialize_issuance += b'\\x00'
            else:
                serialize_issuance += vin.assetIssuance.serialize()
        hashPrevouts = Hash(serialize_prevouts)
        hashIssuance = Hash(serialize_issuance)
""", """        hashPrevouts = Hash(b''.join(vin.prevout.serialize() for vin in txTo.vin))
        hashIssuance = Hash(b''.join(
            b'\\x00' if vin.assetIssuance.is_null() else vin.assetIssuance.serialize()
            for vin in txTo.vin))
"""))
r('sh_buffers', (SC, """        serialize_prevouts = bytes()
        serialize_issuance = bytes()
        for vin in txTo.vin:
            serialize_prevouts += vin.prevout.serialize()
            if vin.assetIssuance.is_null():
                serialize_issuance += b'\\x00'
            else:
                serialize_issuance += vin.assetIssuance.serialize()
        hashPrevouts = Hash(serialize_prevouts)
        hashIssuance = Hash(serialize_issuance)
""", """        prevouts_buf = BytesIO()
        issuance_buf = BytesIO()
        for vin in txTo.vin:
            vin.prevout.stream_serialize(prevouts_buf)
            if vin.assetIssuance.is_null():
                issuance_buf.write(b'\\x00')
            else:
                vin.assetIssuance.stream_serialize(issuance_buf)
        hashPrevouts = Hash(prevouts_buf.getvalue())
        hashIssuance = Hash(issuance_buf.getvalue())
"""))
r('sh_concat', (SC, """    f = BytesIO()
    f.write(struct.pack("<i", txTo.nVersion))
    f.write(hashPrevouts)
    f.write(hashSequence)
    f.write(hashIssuance)
    txTo.vin[inIdx].prevout.stream_serialize(f)
    BytesSerializer.stream_serialize(script, f)
    amount.stream_serialize(f)
    f.write(struct.pack("<I", txTo.vin[inIdx].nSequence))
    if not txTo.vin[inIdx].assetIssuance.is_null():
        txTo.vin[inIdx].assetIssuance.stream_serialize(f)
    f.write(hashOutputs)
    f.write(struct.pack("<I", txTo.nLockTime))
    f.write(struct.pack("<i", hashtype))

    hash = Hash(f.getvalue())

    return (hash, None)
""", """    txin = txTo.vin[inIdx]
    parts = [struct.pack("<i", txTo.nVersion), hashPrevouts, hashSequence, hashIssuance,
             txin.prevout.serialize(), BytesSerializer.serialize(script),
             amount.serialize(), struct.pack("<I", txin.nSequence)]
    if not txin.assetIssuance.is_null():
        parts.append(txin.assetIssuance.serialize())
    parts += [hashOutputs, struct.pack("<Ii", txTo.nLockTime, hashtype)]

    return Hash(b''.join(parts)), None
"""))
r('sh_version_first', (SC, """    if sigversion not in (SIGVERSION_BASE, SIGVERSION_WITNESS_V0):
        raise ValueError('unexpected sigversion')

    if sigversion == SIGVERSION_BASE:
        # revert to standard bitcoin signature hash
        # amount is not used in SIGVERSION_BASE sighash,
        # so we specify invalid value.
        return RawBitcoinSignatureHash(script, txTo, inIdx, hashtype,
                                       amount=None, sigversion=sigversion)
""", """    if sigversion == SIGVERSION_BASE:
        # revert to standard bitcoin signature hash
        # amount is not used in SIGVERSION_BASE sighash,
        # so we specify invalid value.
        return RawBitcoinSignatureHash(script, txTo, inIdx, hashtype,
                                       amount=None, sigversion=sigversion)

    if sigversion != SIGVERSION_WITNESS_V0:
        raise ValueError('unexpected sigversion')
"""))
r('tap_join', (SC, """        for sout in spent_outputs:
            assets_amounts_hashobj.update(sout.nAsset.serialize())
            assets_amounts_hashobj.update(sout.nValue.serialize())
            scripts_hashobj.update(BytesSerializer.serialize(sout.scriptPubKey))
""", """        for sout in spent_outputs:
            assets_amounts_hashobj.update(sout.nAsset.serialize() + sout.nValue.serialize())
        for sout in spent_outputs:
            scripts_hashobj.update(BytesSerializer.serialize(sout.scriptPubKey))
"""))
r('tap_issuance_helper', (SC, """    if input_type != SIGHASH_ANYONECANPAY:
        outpoints_flag_hashobj""", """    def ser_issuance(txin: 'elementstx.core.CElementsTxIn') -> bytes:
        if txin.assetIssuance.is_null():
            return b'\\x00'
        return txin.assetIssuance.serialize()

    def ser_issuance_rangeproofs(idx: int) -> bytes:
        inwit = get_inwit(idx)
        return (BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
                + BytesSerializer.serialize(inwit.inflationKeysRangeproof))

    if input_type != SIGHASH_ANYONECANPAY:
        outpoints_flag_hashobj"""), (SC, """            if txin.assetIssuance.is_null():
                issuances_hashobj.update(b'\\x00')
            else:
                issuances_hashobj.update(txin.assetIssuance.serialize())

            inwit = get_inwit(inp_i)
            issuance_rangeproof_hashobj.update(
                BytesSerializer.serialize(inwit.issuanceAmountRangeproof))
            issuance_rangeproof_hashobj.update(
                BytesSerializer.serialize(inwit.inflationKeysRangeproof))
""", """            issuances_hashobj.update(ser_issuance(txin))
            issuance_rangeproof_hashobj.update(ser_issuance_rangeproofs(inp_i))
"""), (SC, """        if txTo.vin[inIdx].assetIssuance.is_null():
            f.write(b'\\x00')
        else:
            f.write(txTo.vin[inIdx].assetIssuance.serialize())

            inwit = get_inwit(inIdx)
            f.write(
                hashlib.sha256(
                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                ).digest()
            )
""", """        f.write(ser_issuance(txTo.vin[inIdx]))
        if not txTo.vin[inIdx].assetIssuance.is_null():
            f.write(hashlib.sha256(ser_issuance_rangeproofs(inIdx)).digest())
"""))
r('tap_flag_bits', (SC, """        opf = 0

        if not txin.assetIssuance.is_null():
            opf |= elementstx.core.OUTPOINT_ISSUANCE_FLAG

        if txin.is_pegin:
            opf |= elementstx.core.OUTPOINT_PEGIN_FLAG

        return bytes([opf >> 24])
""", """        flag = 0
        if not txin.assetIssuance.is_null():
            flag += elementstx.core.OUTPOINT_ISSUANCE_FLAG >> 24
        if txin.is_pegin:
            flag += elementstx.core.OUTPOINT_PEGIN_FLAG >> 24
        return struct.pack('B', flag)
"""))
r('tap_inwit_ternary', (SC, """        if idx < len(txTo.wit.vtxinwit):
            return txTo.wit.vtxinwit[idx]
        return elementstx.core.CElementsTxInWitness()
""", """        inwits = txTo.wit.vtxinwit
        return inwits[idx] if len(inwits) > idx else elementstx.core.CElementsTxInWitness()
"""), (SC, """        if idx < len(txTo.wit.vtxoutwit):
            return txTo.wit.vtxoutwit[idx]
        return elementstx.core.CElementsTxOutWitness()
""", """        if idx >= len(txTo.wit.vtxoutwit):
            return elementstx.core.CElementsTxOutWitness()
        return txTo.wit.vtxoutwit[idx]
"""))
r('tap_shahelper', (SC, """    if output_type == SIGHASH_ALL:
        outputs_hashobj = hashlib.sha256()
        output_witnesses_hashobj = hashlib.sha256()

        for outp_i, txout in enumerate(txTo.vout):
            outputs_hashobj.update(txout.serialize())
            output_witnesses_hashobj.update(
                get_outwit(outp_i).serialize())

        f.write(outputs_hashobj.digest())
        f.write(output_witnesses_hashobj.digest())
""", """    if output_type == SIGHASH_ALL:
        f.write(hashlib.sha256(
            b''.join(txout.serialize() for txout in txTo.vout)).digest())
        f.write(hashlib.sha256(
            b''.join(get_outwit(i).serialize() for i in range(len(txTo.vout)))).digest())
"""))
r('tap_spend_type', (SC, """    spend_type = ext_flag << 1

    if annex_hash is not None:
        spend_type += 1  # The low bit indicates whether an annex is present

    f.write(bytes([spend_type]))
""", """    has_annex = annex_hash is not None
    f.write(bytes([ext_flag * 2 + (1 if has_annex else 0)]))
"""))
r('tap_single_first', (SC, """    if output_type == SIGHASH_SINGLE:
        outIdx = inIdx
        if outIdx >= len(txTo.vout):
            raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
        f.write(hashlib""", """    if output_type == SIGHASH_SINGLE:
        outIdx = inIdx
        f.write(hashlib"""), (SC, """    f = BytesIO()

    # No epoch in elements taphash
""", """    if (SIGHASH_ALL if hashtype is None else hashtype).output_type == SIGHASH_SINGLE \\
            and inIdx >= len(txTo.vout):
        raise ValueError(f'outIdx {inIdx} out of range ({len(txTo.vout)})')

    f = BytesIO()

    # No epoch in elements taphash
"""))
r('tap_range_check', (SC, """    if inIdx < 0:
        raise ValueError('input index must not be negative')

    if inIdx >= len(txTo.vin):
        raise ValueError(f'inIdx {inIdx} out of range ({len(txTo.vin)})')
""", """    if not 0 <= inIdx < len(txTo.vin):
        raise ValueError(f'inIdx {inIdx} out of range ({len(txTo.vin)})')
"""))
r('tap_hash_checks', (SC, """    if tapleaf_hash is not None:
        ensure_isinstance(tapleaf_hash, bytes, 'tapleaf_hash')
        if len(tapleaf_hash) != 32:
            raise ValueError('tapleaf_hash must be exactly 32 bytes long')

    if annex_hash is not None:
        ensure_isinstance(annex_hash, bytes, 'annex_hash')
        if len(annex_hash) != 32:
            raise ValueError('annex_hash must be exactly 32 bytes long')

    ensure_isinstance(genesis_block_hash, bytes, 'genesis_block_hash')
    if len(genesis_block_hash) != 32:
        raise ValueError('genesis_block_hash must be exactly 32 bytes long')
""", """    def check_hash(value: Optional[bytes], name: str) -> None:
        ensure_isinstance(value, bytes, name)
        if len(value) != 32:  # type: ignore
            raise ValueError(f'{name} must be exactly 32 bytes long')

    if tapleaf_hash is not None:
        check_hash(tapleaf_hash, 'tapleaf_hash')
    if annex_hash is not None:
        check_hash(annex_hash, 'annex_hash')
    check_hash(genesis_block_hash, 'genesis_block_hash')
"""))
r('tap_hash_checks_loop', (SC, """    if tapleaf_hash is not None:
        ensure_isinstance(tapleaf_hash, bytes, 'tapleaf_hash')
        if len(tapleaf_hash) != 32:
            raise ValueError('tapleaf_hash must be exactly 32 bytes long')

    if annex_hash is not None:
        ensure_isinstance(annex_hash, bytes, 'annex_hash')
        if len(annex_hash) != 32:
            raise ValueError('annex_hash must be exactly 32 bytes long')
""", """    for value, name in ((tapleaf_hash, 'tapleaf_hash'), (annex_hash, 'annex_hash')):
        if value is None:
            continue
        ensure_isinstance(value, bytes, name)
        if len(value) != 32:
            raise ValueError(f'{name} must be exactly 32 bytes long')
"""))
r('pegout_iter', (SC, """            op_iter = self.raw_iter()
            op, _, _ = next(op_iter)
            if op != OP_RETURN:
                return None

            op, op_data, _ = next(op_iter)

            if op_data is None:
                return None

            if len(op_data) != 32:
                return None

            genesis_hash = op_data

            op, op_data, _ = next(op_iter)

            if op_data is None:
                return None

            if len(op_data) == 0:
                return None

            pegout_scriptpubkey = self.__class__(op_data)

            # The code in reference client does not check if there
            # is more data after pegout_scriptpubkey.

        except CScriptInvalidError:
            return None
        except StopIteration:
            return None

        return (genesis_hash, pegout_scriptpubkey)
""", """            op_iter = self.raw_iter()
            if next(op_iter)[0] != OP_RETURN:
                return None

            genesis_hash = next(op_iter)[1]
            if genesis_hash is None or len(genesis_hash) != 32:
                return None

            script_data = next(op_iter)[1]
            if not script_data:
                return None
        except (CScriptInvalidError, StopIteration):
            return None

        # The code in reference client does not check if there
        # is more data after pegout_scriptpubkey.
        return genesis_hash, self.__class__(script_data)
"""))
r('unspendable_or', (SC, """        if len(self) == 0:
            return True
        return super(CElementsScript, self).is_unspendable()
""", """        return len(self) == 0 or super().is_unspendable()
"""))
r('sighash_direct', (SC, """        hashtype = SIGHASH_Type(hashtype)

        (h, err) = self.raw_sighash(txTo, inIdx, hashtype, amount=amount,
                                    sigversion=sigversion)
        if err is not None:
            raise ValueError(err)
        return h
""", """        h, err = self.raw_sighash(txTo, inIdx, SIGHASH_Type(hashtype),
                                  amount, sigversion)
        if err is None:
            return h
        raise ValueError(err)
"""))
