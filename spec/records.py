"""Reference models: confidential commitments, transaction records and their
serialisation (Elements Core transaction.h / issuance.h / confidential.h)."""
import struct
from bitcointx.core import COutPoint, CTransaction, CTxIn, CTxOut, CTxInWitness, CTxOutWitness, Uint256
from bitcointx.core.script import CScriptWitness
from bitcointx.core.serialize import (BytesSerializer, VectorSerializer, SerializationError,
                                      ser_read)
from bitcointx.util import ensure_isinstance, no_bool_use_as_property
from elementstx.core import (
    CAsset, CAssetIssuance, CConfidentialAsset, CConfidentialNonce, CConfidentialValue,
    CElementsOutPoint, CElementsTxIn, CElementsTxInWitness, CElementsTxOut,
    CElementsTxOutWitness, CElementsTxWitness, TxInSerializationError,
    WitnessSerializationError)
from elementstx.core.script import CElementsScript

# ------------------------------------------------------------- commitments
# kind      explicit size   commitment size   commitment prefixes
# asset     1 + 32          33                0x0a 0x0b
# value     1 + 8           33                0x08 0x09
# nonce     1 + 32          33                0x02 0x03


def _init_commitment(self, commitment, explicit_size):
    ensure_isinstance(commitment, (bytes, bytearray), 'commitment')
    n = len(commitment)
    if not (n == 0 or n == explicit_size or n == 33):
        raise ValueError
    object.__setattr__(self, 'commitment', bytes(commitment))


def nonce_init(self, commitment: '?' = b''):
    _init_commitment(self, commitment, 33)


def asset_init(self, asset_or_commitment: '?' = b''):
    ensure_isinstance(asset_or_commitment, (CAsset, bytes, bytearray), '')
    if isinstance(asset_or_commitment, CAsset):
        _init_commitment(self, b'\x01' + asset_or_commitment.data, 33)
    else:
        _init_commitment(self, asset_or_commitment, 33)


def value_init(self, value_or_commitment: '?' = b''):
    ensure_isinstance(value_or_commitment, (int, bytes, bytearray), '')
    if isinstance(value_or_commitment, int):
        _init_commitment(self, b'\x01' + struct.pack('>q', value_or_commitment), 9)
    else:
        _init_commitment(self, value_or_commitment, 9)


def _read_commitment(cls, f, explicit_size, prefix_a, prefix_b):
    prefix = ser_read(f, 1)
    v = prefix[0]
    if v == 0:
        return cls(b'')
    if v == 1:
        return cls(prefix + ser_read(f, explicit_size - 1))
    if v == prefix_a or v == prefix_b:
        return cls(prefix + ser_read(f, 32))
    raise WitnessSerializationError


@classmethod
def asset_read(cls, f: 'stream', **kwargs):
    return _read_commitment(cls, f, 33, 10, 11)


@classmethod
def value_read(cls, f: 'stream', **kwargs):
    return _read_commitment(cls, f, 9, 8, 9)


@classmethod
def nonce_read(cls, f: 'stream', **kwargs):
    return _read_commitment(cls, f, 33, 2, 3)


def commitment_write(self, f: 'stream', **kwargs):
    if len(self.commitment) == 0:
        f.write(b'\x00')
    else:
        f.write(self.commitment)


@no_bool_use_as_property
def commitment_is_null(self):
    return len(self.commitment) == 0


@no_bool_use_as_property
def value_is_explicit(self):
    return len(self.commitment) == 9 and self.commitment[0] == 1


@no_bool_use_as_property
def long_is_explicit(self):
    return len(self.commitment) == 33 and self.commitment[0] == 1


@no_bool_use_as_property
def asset_is_commitment(self):
    return len(self.commitment) == 33 and (self.commitment[0] == 10 or self.commitment[0] == 11)


@no_bool_use_as_property
def value_is_commitment(self):
    return len(self.commitment) == 33 and (self.commitment[0] == 8 or self.commitment[0] == 9)


@no_bool_use_as_property
def nonce_is_commitment(self):
    return len(self.commitment) == 33 and (self.commitment[0] == 2 or self.commitment[0] == 3)


@no_bool_use_as_property
def commitment_is_valid(self):
    return self.is_null() or self.is_explicit() or self.is_commitment()


@classmethod
def asset_from_asset(cls, asset: '?'):
    ensure_isinstance(asset, CAsset, 'asset')
    return cls(asset)


def asset_to_asset(self):
    if not self.is_explicit():
        raise TypeError
    return CAsset(self.commitment[1:])


@classmethod
def value_from_amount(cls, amount: 'int?'):
    ensure_isinstance(amount, int, 'amount')
    return cls(amount)


def value_to_amount(self):
    if not self.is_explicit():
        raise TypeError
    return struct.unpack('>q', self.commitment[1:])[0]


# --------------------------------------------------------- input witnesses

def inwit_init(self, scriptWitness: '?' = CScriptWitness(),
               issuanceAmountRangeproof: '?' = b'',
               inflationKeysRangeproof: '?' = b'',
               pegin_witness: '?' = CScriptWitness()):
    ensure_isinstance(scriptWitness, CScriptWitness, '')
    ensure_isinstance(pegin_witness, CScriptWitness, '')
    ensure_isinstance(issuanceAmountRangeproof, (bytes, bytearray), '')
    ensure_isinstance(inflationKeysRangeproof, (bytes, bytearray), '')
    object.__setattr__(self, 'scriptWitness', scriptWitness)
    object.__setattr__(self, 'pegin_witness', pegin_witness)
    object.__setattr__(self, 'issuanceAmountRangeproof', bytes(issuanceAmountRangeproof))
    object.__setattr__(self, 'inflationKeysRangeproof', bytes(inflationKeysRangeproof))


@no_bool_use_as_property
def inwit_is_null(self):
    return (len(self.issuanceAmountRangeproof) == 0 and len(self.inflationKeysRangeproof) == 0
            and self.scriptWitness.is_null() and self.pegin_witness.is_null())


@classmethod
def inwit_read(cls, f: 'stream', **kwargs):
    amount_proof = BytesSerializer.stream_deserialize(f)
    keys_proof = BytesSerializer.stream_deserialize(f)
    script_wit = CScriptWitness.stream_deserialize(f)
    pegin_wit = CScriptWitness.stream_deserialize(f)
    return cls(scriptWitness=script_wit, issuanceAmountRangeproof=amount_proof,
               inflationKeysRangeproof=keys_proof, pegin_witness=pegin_wit)


def inwit_write(self, f: 'stream', **kwargs):
    BytesSerializer.stream_serialize(self.issuanceAmountRangeproof, f)
    BytesSerializer.stream_serialize(self.inflationKeysRangeproof, f)
    self.scriptWitness.stream_serialize(f)
    self.pegin_witness.stream_serialize(f)


@classmethod
def inwit_from_instance(cls, txin_witness: 'elementstx.core:CElementsTxInWitness'):
    w = txin_witness
    return cls._from_instance(w, scriptWitness=w.scriptWitness,
                              issuanceAmountRangeproof=w.issuanceAmountRangeproof,
                              inflationKeysRangeproof=w.inflationKeysRangeproof,
                              pegin_witness=w.pegin_witness)


@classmethod
def inwit_from_txin_witness(cls, txin_witness: 'elementstx.core:CElementsTxInWitness'):
    return cls.from_instance(txin_witness)


# -------------------------------------------------------- output witnesses

def outwit_init(self, surjectionproof: '?' = b'', rangeproof: '?' = b''):
    ensure_isinstance(surjectionproof, (bytes, bytearray), '')
    ensure_isinstance(rangeproof, (bytes, bytearray), '')
    object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
    object.__setattr__(self, 'rangeproof', bytes(rangeproof))


@no_bool_use_as_property
def outwit_is_null(self):
    return len(self.surjectionproof) == 0 and len(self.rangeproof) == 0


@classmethod
def outwit_read(cls, f: 'stream', **kwargs):
    surj = BytesSerializer.stream_deserialize(f)
    rng = BytesSerializer.stream_deserialize(f)
    return cls(surjectionproof=surj, rangeproof=rng)


def outwit_write(self, f: 'stream', **kwargs):
    BytesSerializer.stream_serialize(self.surjectionproof, f)
    BytesSerializer.stream_serialize(self.rangeproof, f)


@classmethod
def outwit_from_instance(cls, txout_witness: 'elementstx.core:CElementsTxOutWitness'):
    w = txout_witness
    return cls._from_instance(w, surjectionproof=w.surjectionproof, rangeproof=w.rangeproof)


@classmethod
def outwit_from_txout_witness(cls, txout_witness: 'elementstx.core:CElementsTxOutWitness'):
    return cls.from_instance(txout_witness)


# --------------------------------------------------- transaction witnesses

def txwit_init(self, vtxinwit: 'list' = (), vtxoutwit: 'list' = ()):
    ins = [CTxInWitness.from_txin_witness(w) for w in vtxinwit]
    outs = [CTxOutWitness.from_txout_witness(w) for w in vtxoutwit]
    if self.is_immutable():
        object.__setattr__(self, 'vtxinwit', tuple(ins))
        object.__setattr__(self, 'vtxoutwit', tuple(outs))
    else:
        object.__setattr__(self, 'vtxinwit', ins)
        object.__setattr__(self, 'vtxoutwit', outs)


@no_bool_use_as_property
def txwit_is_null(self):
    return (all(w.is_null() for w in self.vtxinwit)
            and all(w.is_null() for w in self.vtxoutwit))


@classmethod
def txwit_read(cls, f: 'stream', num_inputs: 'int' = -1, num_outputs: 'int' = -1, **kwargs):
    if num_inputs < 0 or num_outputs < 0:
        raise ValueError
    ins = tuple(CElementsTxInWitness.stream_deserialize(f) for i in range(num_inputs))
    outs = tuple(CElementsTxOutWitness.stream_deserialize(f) for i in range(num_outputs))
    return cls(ins, outs)


def txwit_write(self, f: 'stream', **kwargs):
    for w in self.vtxinwit:
        w.stream_serialize(f)
    for w in self.vtxoutwit:
        w.stream_serialize(f)


@classmethod
def txwit_from_instance(cls, witness: 'elementstx.core:CElementsTxWitness'):
    return cls._from_instance(witness, witness.vtxinwit, witness.vtxoutwit)


@classmethod
def txwit_from_witness(cls, witness: 'elementstx.core:CElementsTxWitness'):
    return cls.from_instance(witness)


# ---------------------------------------------------------- asset issuance

def issuance_init(self, assetBlindingNonce: '?' = Uint256(), assetEntropy: '?' = Uint256(),
                  nAmount: '?' = CConfidentialValue(),
                  nInflationKeys: '?' = CConfidentialValue()):
    ensure_isinstance(assetBlindingNonce, Uint256, '')
    ensure_isinstance(assetEntropy, Uint256, '')
    ensure_isinstance(nAmount, CConfidentialValue, '')
    ensure_isinstance(nInflationKeys, CConfidentialValue, '')
    object.__setattr__(self, 'assetBlindingNonce', assetBlindingNonce)
    object.__setattr__(self, 'assetEntropy', assetEntropy)
    object.__setattr__(self, 'nAmount', nAmount)
    object.__setattr__(self, 'nInflationKeys', nInflationKeys)


@no_bool_use_as_property
def issuance_is_null(self):
    return self.nAmount.is_null() and self.nInflationKeys.is_null()


@classmethod
def issuance_read(cls, f: 'stream', **kwargs):
    nonce = Uint256.stream_deserialize(f)
    entropy = Uint256.stream_deserialize(f)
    amount = CConfidentialValue.stream_deserialize(f)
    keys = CConfidentialValue.stream_deserialize(f)
    return cls(assetBlindingNonce=nonce, assetEntropy=entropy, nAmount=amount,
               nInflationKeys=keys)


def issuance_write(self, f: 'stream', **kwargs):
    self.assetBlindingNonce.stream_serialize(f)
    self.assetEntropy.stream_serialize(f)
    self.nAmount.stream_serialize(f)
    self.nInflationKeys.stream_serialize(f)


# ------------------------------------------------------------------ inputs

ISSUANCE_BIT = 0x80000000
PEGIN_BIT = 0x40000000
INDEX_BITS = 0x3fffffff
COINBASE_INDEX = 0xffffffff


def txin_init(self, prevout: '?' = None, scriptSig: '?' = CElementsScript(),
              nSequence: '?' = 0xffffffff, assetIssuance: '?' = CAssetIssuance(),
              is_pegin: '?' = False):
    ensure_isinstance(assetIssuance, CAssetIssuance, '')
    ensure_isinstance(is_pegin, bool, '')
    super(CElementsTxIn, self).__init__(prevout, scriptSig, nSequence)
    ensure_isinstance(self.scriptSig, CElementsScript, '')
    object.__setattr__(self, 'assetIssuance', assetIssuance)
    object.__setattr__(self, 'is_pegin', is_pegin)


@classmethod
def txin_read(cls, f: 'stream', **kwargs):
    base = super(CElementsTxIn, cls).stream_deserialize(f)
    n = base.prevout.n
    prevout = base.prevout
    issuance = CAssetIssuance()
    pegin = False
    if n != COINBASE_INDEX:
        prevout = CElementsOutPoint(base.prevout.hash, n & INDEX_BITS)
        pegin = (n & PEGIN_BIT) != 0
        if (n & ISSUANCE_BIT) != 0:
            issuance = CAssetIssuance.stream_deserialize(f)
    return cls(prevout, base.scriptSig, base.nSequence, issuance, pegin)


def txin_write(self, f: 'stream', for_sighash: 'bool' = False, **kwargs):
    n = self.prevout.n
    coinbase = n == COINBASE_INDEX
    if not coinbase:
        if n & ~INDEX_BITS:
            raise TxInSerializationError
        if not for_sighash:
            if not self.assetIssuance.is_null():
                n = n | ISSUANCE_BIT
            if self.is_pegin:
                n = n | PEGIN_BIT
    f.write(self.prevout.hash)
    f.write(struct.pack('<I', n))
    BytesSerializer.stream_serialize(self.scriptSig, f)
    f.write(struct.pack('<I', self.nSequence))
    if not coinbase and not self.assetIssuance.is_null():
        self.assetIssuance.stream_serialize(f)


@classmethod
def txin_from_instance(cls, txin: 'elementstx.core:CElementsTxIn'):
    return cls._from_instance(txin, COutPoint.from_outpoint(txin.prevout), txin.scriptSig,
                              txin.nSequence, txin.assetIssuance, txin.is_pegin)


@classmethod
def txin_from_txin(cls, txin: 'elementstx.core:CElementsTxIn'):
    return cls.from_instance(txin)


# ----------------------------------------------------------------- outputs

def txout_init(self, nValue: '?' = CConfidentialValue(), scriptPubKey: '?' = CElementsScript(),
               nAsset: '?' = CConfidentialAsset(), nNonce: '?' = CConfidentialNonce()):
    ensure_isinstance(nValue, CConfidentialValue, '')
    ensure_isinstance(nAsset, CConfidentialAsset, '')
    ensure_isinstance(nNonce, CConfidentialNonce, '')
    super(CElementsTxOut, self).__init__(-1, scriptPubKey)
    ensure_isinstance(self.scriptPubKey, CElementsScript, '')
    object.__setattr__(self, 'nAsset', nAsset)
    object.__setattr__(self, 'nValue', nValue)
    object.__setattr__(self, 'nNonce', nNonce)


@classmethod
def txout_read(cls, f: 'stream', **kwargs):
    asset = CConfidentialAsset.stream_deserialize(f)
    value = CConfidentialValue.stream_deserialize(f)
    nonce = CConfidentialNonce.stream_deserialize(f)
    script = BytesSerializer.stream_deserialize(f)
    return cls(nValue=value, scriptPubKey=CElementsScript(script), nAsset=asset, nNonce=nonce)


def txout_write(self, f: 'stream', **kwargs):
    self.nAsset.stream_serialize(f)
    self.nValue.stream_serialize(f)
    self.nNonce.stream_serialize(f)
    BytesSerializer.stream_serialize(self.scriptPubKey, f)


@no_bool_use_as_property
def txout_is_null(self):
    return (self.nAsset.is_null() and self.nValue.is_null() and self.nNonce.is_null()
            and len(self.scriptPubKey) == 0)


@no_bool_use_as_property
def txout_is_fee(self):
    return (len(self.scriptPubKey) == 0 and self.nValue.is_explicit()
            and self.nAsset.is_explicit())


@classmethod
def txout_from_instance(cls, txout: 'elementstx.core:CElementsTxOut'):
    return cls._from_instance(txout, txout.nValue, txout.scriptPubKey, txout.nAsset, txout.nNonce)


@classmethod
def txout_from_txout(cls, txout: 'elementstx.core:CElementsTxOut'):
    return cls.from_instance(txout)


# ------------------------------------------------------------- transaction

@classmethod
def tx_read(cls, f: 'stream', **kwargs):
    version = struct.unpack('<i', ser_read(f, 4))[0]
    flag = struct.unpack('B', ser_read(f, 1))[0]
    if flag > 1:
        raise SerializationError
    vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
    vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
    locktime = struct.unpack('<I', ser_read(f, 4))[0]
    if flag == 0:
        return cls(vin, vout, locktime, version)
    wit = CElementsTxWitness.stream_deserialize(f, num_inputs=len(vin), num_outputs=len(vout),
                                                **kwargs)
    if wit.is_null():
        raise ValueError
    return cls(vin, vout, locktime, version, wit)


def tx_write(self, f: 'stream', include_witness: 'bool' = True, for_sighash: 'bool' = False,
             **kwargs):
    with_witness = include_witness and not self.wit.is_null()
    f.write(struct.pack('<i', self.nVersion))
    if with_witness:
        f.write(b'\x01')
        VectorSerializer.stream_serialize(self.vin, f)
        VectorSerializer.stream_serialize(self.vout, f)
        f.write(struct.pack('<I', self.nLockTime))
        missing_in = len(self.vin) - len(self.wit.vtxinwit)
        missing_out = len(self.vout) - len(self.wit.vtxoutwit)
        CElementsTxWitness(
            list(self.wit.vtxinwit) + [CElementsTxInWitness()] * missing_in,
            list(self.wit.vtxoutwit) + [CElementsTxOutWitness()] * missing_out
        ).stream_serialize(f)
    else:
        if not for_sighash:
            f.write(b'\x00')
        VectorSerializer.stream_serialize(self.vin, f, for_sighash=for_sighash)
        VectorSerializer.stream_serialize(self.vout, f)
        f.write(struct.pack('<I', self.nLockTime))


@property
def tx_num_issuances(self):
    n = 0
    for txin in self.vin:
        issuance = txin.assetIssuance
        if not issuance.is_null():
            if not issuance.nAmount.is_null():
                n = n + 1
            if not issuance.nInflationKeys.is_null():
                n = n + 1
    return n
