"""Reference models: signature hashes (Elements Core interpreter.cpp SignatureHash,
SignatureHashSchnorr, elements taproot sighash specification)."""
import struct
import hashlib
from io import BytesIO
from bitcointx.core import Hash
from bitcointx.core.script import (
    CScriptInvalidError, OP_RETURN, SIGHASH_Type, SIGHASH_ALL, SIGHASH_NONE, SIGHASH_SINGLE,
    SIGHASH_ANYONECANPAY, SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGVERSION_TAPROOT,
    SIGVERSION_TAPSCRIPT, RawBitcoinSignatureHash)
from bitcointx.core.serialize import BytesSerializer
from bitcointx.util import ensure_isinstance, no_bool_use_as_property
import elementstx.core
from elementstx.core import (CElementsTxInWitness, CElementsTxOutWitness,
                             CConfidentialValue, CoreElementsParams)
from elementstx.core.script import CElementsScript

ZERO = b'\x00' * 32


def issuance_or_zero(txin):
    if txin.assetIssuance.is_null():
        return b'\x00'
    return txin.assetIssuance.serialize()


def raw_sighash(script: '?', txTo: '?', inIdx: 'int', hashtype: 'int', amount: 'int?' = None,
                sigversion: 'int' = SIGVERSION_BASE):
    if sigversion != SIGVERSION_BASE and sigversion != SIGVERSION_WITNESS_V0:
        raise ValueError
    if sigversion == SIGVERSION_BASE:
        return RawBitcoinSignatureHash(script, txTo, inIdx, hashtype, amount=None,
                                       sigversion=sigversion)
    if inIdx < 0:
        raise ValueError
    ensure_isinstance(amount, CConfidentialValue, 'amount')

    anyone = hashtype & 0x80
    base = hashtype & 0x1f
    commits_all_outputs = base != 2 and base != 3
    vin = txTo.vin[inIdx]

    if anyone:
        prevouts = issuances = ZERO
    else:
        prevouts = Hash(b''.join(i.prevout.serialize() for i in txTo.vin))
        issuances = Hash(b''.join(issuance_or_zero(i) for i in txTo.vin))
    if not anyone and commits_all_outputs:
        sequences = Hash(b''.join(struct.pack('<I', i.nSequence) for i in txTo.vin))
    else:
        sequences = ZERO
    if commits_all_outputs:
        outputs = Hash(b''.join(o.serialize() for o in txTo.vout))
    elif base == 3 and inIdx < len(txTo.vout):
        outputs = Hash(txTo.vout[inIdx].serialize())
    else:
        outputs = ZERO

    f = BytesIO()
    f.write(struct.pack('<i', txTo.nVersion))
    f.write(prevouts + sequences + issuances)
    f.write(vin.prevout.serialize())
    f.write(BytesSerializer.serialize(script))
    amount.stream_serialize(f)
    f.write(struct.pack('<I', vin.nSequence))
    if not vin.assetIssuance.is_null():
        vin.assetIssuance.stream_serialize(f)
    f.write(outputs)
    f.write(struct.pack('<I', txTo.nLockTime))
    f.write(struct.pack('<i', hashtype))
    return (Hash(f.getvalue()), None)


# ------------------------------------------------------------------- taproot

def outpoint_flag(txin):
    flag = 0
    if not txin.assetIssuance.is_null():
        flag = flag | 0x80
    if txin.is_pegin:
        flag = flag | 0x40
    return bytes([flag])


def in_witness(txTo, i):
    if i < len(txTo.wit.vtxinwit):
        return txTo.wit.vtxinwit[i]
    return CElementsTxInWitness()


def out_witness(txTo, i):
    if i < len(txTo.wit.vtxoutwit):
        return txTo.wit.vtxoutwit[i]
    return CElementsTxOutWitness()


def issuance_proofs(txTo, i):
    w = in_witness(txTo, i)
    return BytesSerializer.serialize(w.issuanceAmountRangeproof) + \
        BytesSerializer.serialize(w.inflationKeysRangeproof)


def sha256(data):
    return hashlib.sha256(data).digest()


def check32(data, name):
    ensure_isinstance(data, bytes, name)
    if len(data) != 32:
        raise ValueError


def schnorr_sighash(txTo: '?', inIdx: 'int', spent_outputs: 'list', *, hashtype: 'int?' = None,
                    sigversion: 'int' = SIGVERSION_TAPROOT, tapleaf_hash: 'bytes?' = None,
                    codeseparator_pos: 'int?' = -1, annex_hash: 'bytes?' = None,
                    genesis_block_hash: 'bytes'):
    if inIdx < 0 or inIdx >= len(txTo.vin):
        raise ValueError
    if tapleaf_hash is not None:
        check32(tapleaf_hash, 'tapleaf_hash')
    if annex_hash is not None:
        check32(annex_hash, 'annex_hash')
    check32(genesis_block_hash, 'genesis_block_hash')
    if sigversion != SIGVERSION_TAPROOT and sigversion != SIGVERSION_TAPSCRIPT:
        raise ValueError
    if len(spent_outputs) != len(txTo.vin):
        raise ValueError
    tapscript = sigversion == SIGVERSION_TAPSCRIPT

    if hashtype is None:
        type_byte = b'\x00'
        hashtype = SIGHASH_ALL
    else:
        ensure_isinstance(hashtype, SIGHASH_Type, 'hashtype')
        type_byte = bytes([hashtype])
    anyone = hashtype.input_type == SIGHASH_ANYONECANPAY
    outputs = hashtype.output_type

    m = type_byte + struct.pack('<i', txTo.nVersion) + struct.pack('<I', txTo.nLockTime)
    if not anyone:
        m += sha256(b''.join(outpoint_flag(i) for i in txTo.vin))
        m += sha256(b''.join(i.prevout.serialize() for i in txTo.vin))
        m += sha256(b''.join(o.nAsset.serialize() + o.nValue.serialize()
                             for o in spent_outputs))
        m += sha256(b''.join(BytesSerializer.serialize(o.scriptPubKey) for o in spent_outputs))
        m += sha256(b''.join(struct.pack('<I', i.nSequence) for i in txTo.vin))
        m += sha256(b''.join(issuance_or_zero(i) for i in txTo.vin))
        m += sha256(b''.join(issuance_proofs(txTo, k) for k in range(len(txTo.vin))))
    if outputs == SIGHASH_ALL:
        m += sha256(b''.join(o.serialize() for o in txTo.vout))
        m += sha256(b''.join(out_witness(txTo, k).serialize() for k in range(len(txTo.vout))))

    spend_type = 2 if tapscript else 0
    if annex_hash is not None:
        spend_type += 1
    m += bytes([spend_type])
    if anyone:
        vin = txTo.vin[inIdx]
        spent = spent_outputs[inIdx]
        m += outpoint_flag(vin)
        m += vin.prevout.serialize()
        m += spent.nAsset.serialize()
        m += spent.nValue.serialize()
        m += BytesSerializer.serialize(spent.scriptPubKey)
        m += struct.pack('<I', vin.nSequence)
        m += issuance_or_zero(vin)
        if not vin.assetIssuance.is_null():
            m += sha256(issuance_proofs(txTo, inIdx))
    else:
        m += struct.pack('<I', inIdx)
    if annex_hash is not None:
        m += annex_hash
    if outputs == SIGHASH_SINGLE:
        if inIdx >= len(txTo.vout):
            raise ValueError
        m += sha256(txTo.vout[inIdx].serialize())
        m += sha256(out_witness(txTo, inIdx).serialize())
    if tapscript:
        if tapleaf_hash is None:
            raise ValueError
        if codeseparator_pos is None:
            raise ValueError
        m += tapleaf_hash
        m += b'\x00'
        m += struct.pack('<i', codeseparator_pos)
    return CoreElementsParams.tap_sighash_hasher(genesis_block_hash + genesis_block_hash + m)


# -------------------------------------------------------------- script class

def script_sighash(self, txTo: '?', inIdx: 'int', hashtype: 'int?', amount: 'int?' = None,
                   sigversion: 'int' = SIGVERSION_BASE):
    h, err = self.raw_sighash(txTo, inIdx, SIGHASH_Type(hashtype), amount=amount,
                              sigversion=sigversion)
    if err is not None:
        raise ValueError
    return h


def script_raw_sighash(self, txTo: '?', inIdx: 'int', hashtype: 'int?', amount: 'int?' = None,
                       sigversion: 'int' = SIGVERSION_BASE):
    return raw_sighash(self, txTo, inIdx, hashtype, amount, sigversion)


def script_sighash_schnorr(self, txTo: '?', inIdx: 'int', spent_outputs: 'list', *,
                           hashtype: 'int?' = None, codeseparator_pos: 'int?' = -1,
                           annex_hash: 'bytes?' = None, genesis_block_hash: 'bytes'):
    leaf = CoreElementsParams.tapleaf_hasher(
        bytes([CoreElementsParams.TAPROOT_LEAF_TAPSCRIPT]) + BytesSerializer.serialize(self))
    return schnorr_sighash(txTo, inIdx, spent_outputs, hashtype=hashtype,
                           sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=leaf,
                           codeseparator_pos=codeseparator_pos, annex_hash=annex_hash,
                           genesis_block_hash=genesis_block_hash)


def script_pegout(self):
    try:
        it = self.raw_iter()
        op, _, _ = next(it)
        if op != OP_RETURN:
            return None
        _, genesis, _ = next(it)
        if genesis is None or len(genesis) != 32:
            return None
        _, script, _ = next(it)
        if script is None or len(script) == 0:
            return None
        return (genesis, self.__class__(script))
    except (CScriptInvalidError, StopIteration):
        return None


@no_bool_use_as_property
def script_is_pegout(self):
    return self.get_pegout_data() is not None


@no_bool_use_as_property
def script_is_unspendable(self):
    return len(self) == 0 or super(CElementsScript, self).is_unspendable()


def script_derive_blinding_key(self, blinding_derivation_key: '?'):
    return elementstx.core.derive_blinding_key(blinding_derivation_key, self)
