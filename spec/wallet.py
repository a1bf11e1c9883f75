"""Reference models: confidential addresses."""
from io import BytesIO
from bitcointx.core.key import CPubKey
from bitcointx.util import dispatcher_mapped_list, ensure_isinstance
from bitcointx.wallet import (
    CCoinAddressError, P2PKHCoinAddress, P2WPKHCoinAddress, P2SHCoinAddress, P2WSHCoinAddress,
    P2TRCoinAddress)
from elementstx.core import (CElementsTxOut, CConfidentialAsset, CConfidentialValue,
                             CConfidentialNonce)
from elementstx.wallet import (
    CConfidentialAddressError, P2PKHCoinConfidentialAddress, P2WPKHCoinConfidentialAddress,
    P2SHCoinConfidentialAddress, P2WSHCoinConfidentialAddress, P2TRCoinConfidentialAddress)

PAIRS = [
    (P2PKHCoinAddress, P2PKHCoinConfidentialAddress),
    (P2WPKHCoinAddress, P2WPKHCoinConfidentialAddress),
    (P2SHCoinAddress, P2SHCoinConfidentialAddress),
    (P2WSHCoinAddress, P2WSHCoinConfidentialAddress),
    (P2TRCoinAddress, P2TRCoinConfidentialAddress),
]


@classmethod
def from_unconfidential(cls, unconfidential_adr: '?', blinding_pubkey: 'bytes'):
    ensure_isinstance(blinding_pubkey, (CPubKey, bytes, bytearray), 'blinding_pubkey')
    key = blinding_pubkey
    if not isinstance(key, CPubKey):
        key = CPubKey(key)
    if not key.is_fullyvalid():
        raise ValueError
    # the same dispatcher: the same chain
    if type(cls) is not type(unconfidential_adr.__class__):
        raise TypeError
    for plain, confidential in PAIRS:
        concrete = confidential
        mapped = dispatcher_mapped_list(confidential)
        if mapped:
            if len(mapped) != 1:
                raise TypeError
            concrete = mapped[0]
        below = issubclass(cls, (confidential, concrete))
        if isinstance(unconfidential_adr, plain):
            if below or issubclass(concrete, cls):
                return confidential.from_bytes(key + unconfidential_adr)
        if below:
            raise TypeError
    raise CConfidentialAddressError


def to_unconfidential(self):
    return self._unconfidential_address_class.from_bytes(self[33:])


@property
def blinding_pubkey(self):
    return CPubKey(self[:33])


def to_scriptPubKey(self):
    return self._unconfidential_address_class.from_bytes(self[33:]).to_scriptPubKey()


def from_scriptPubKey(self):
    raise CCoinAddressError


def _instance(cls_or_inst):
    if not isinstance(cls_or_inst, type):
        return cls_or_inst
    n = getattr(cls_or_inst, '_data_length', None)
    if not n:
        raise TypeError
    return cls_or_inst.from_bytes(b'\x00' * n)


def _size(txo):
    f = BytesIO()
    txo.stream_serialize(f)
    return len(f.getvalue())


@classmethod
def confidential_output_size(cls_or_inst):
    inst = _instance(cls_or_inst)
    zeros = b'\x00' * 33
    return _size(CElementsTxOut(nValue=CConfidentialValue(zeros),
                                scriptPubKey=inst.to_scriptPubKey(),
                                nAsset=CConfidentialAsset(zeros),
                                nNonce=CConfidentialNonce(zeros)))


@classmethod
def plain_output_size(cls_or_inst):
    inst = _instance(cls_or_inst)
    return _size(CElementsTxOut(nValue=CConfidentialValue(0),
                                scriptPubKey=inst.to_scriptPubKey()))


def dispatched_init(self, _s: '?'):
    if self.__class__.blech32_witness_version < 0:
        raise TypeError
    if len(self) != self.__class__._data_length:
        raise TypeError


@classmethod
def dispatched_candidates(cls):
    candidates = dispatcher_mapped_list(cls)
    if candidates:
        return candidates
    if cls.blech32_witness_version < 0:
        raise TypeError
    return [cls]
