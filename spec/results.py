"""Reference models: results of blinding and unblinding, and the thin methods around them."""
import ctypes
from elementstx.core import (
    BlindingInputDescriptor, ZKPRangeproofInfo, unblind_confidential_pair)
from elementstx.core.secp256k1 import get_secp256k1


def as_bool(self):
    raise TypeError


@property
def failure_error(self):
    return self._error_message


def failure_init(self, error_msg: 'str'):
    self._error_message = error_msg


@property
def success_error(self):
    return ''


@property
def success_ok(self):
    return True


@property
def failure_ok(self):
    return not self._error_message


def descriptor(self):
    return BlindingInputDescriptor(self.asset, self.amount, self.blinding_factor,
                                   self.asset_blinding_factor)


def rangeproof_info(self):
    zkp = get_secp256k1()
    if not zkp.cap.has_zkp:
        raise RuntimeError
    exp = ctypes.c_int()
    mantissa = ctypes.c_int()
    low = ctypes.c_uint64()
    high = ctypes.c_uint64()
    if zkp.lib.secp256k1_rangeproof_info(
            zkp.ctx.blind, ctypes.byref(exp), ctypes.byref(mantissa), ctypes.byref(low),
            ctypes.byref(high), self.rangeproof, len(self.rangeproof)) != 1:
        return None
    return ZKPRangeproofInfo(exp.value, mantissa.value, low.value, high.value)


def txout_unblind(self, blinding_key: '?', rangeproof: 'bytes'):
    return unblind_confidential_pair(
        blinding_key=blinding_key, confValue=self.nValue, confAsset=self.nAsset,
        confNonce=self.nNonce, committedScript=self.scriptPubKey, rangeproof=rangeproof)


def explicit_asset(self):
    return self.to_asset()


def explicit_value(self):
    return self.to_amount()
