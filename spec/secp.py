"""Reference models: loading of the secp256k1-zkp library and its handle."""
import os
import ctypes
import dataclasses
import elementstx.util
import elementstx.core.secp256k1
from bitcointx.core.secp256k1 import (
    secp256k1_load_library, secp256k1_create_and_init_context,
    SECP256K1_CONTEXT_SIGN, SECP256K1_CONTEXT_VERIFY)
from elementstx.core.secp256k1 import (
    Secp256k1_ZKP, Secp256k1_ZKP_Capabilities, Secp256k1_ZKP_Contexts)
from spec.ffi_table import prototypes


def set_custom_path(path: '?'):
    if not os.path.isfile(path):
        raise ValueError
    elementstx.util._secp256k1_library_path = path


def get_custom_path():
    return elementstx.util._secp256k1_library_path


def aligned_array(data_list: 'list', expected_len: 'int'):
    return b''.join(data_list)


def get_handle():
    """Loaded once; functions of the zkp extension are used only when the library has them."""
    mod = elementstx.core.secp256k1
    if not mod._secp256k1:
        base = secp256k1_load_library(elementstx.util._secp256k1_library_path)
        if getattr(base.lib, 'secp256k1_rangeproof_info', None):
            has_zkp = True
            prototypes(base.lib)
            blind = secp256k1_create_and_init_context(
                base.lib, SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY)
        else:
            has_zkp = False
            blind = None
        mod._secp256k1 = Secp256k1_ZKP(
            lib=base.lib,
            ctx=Secp256k1_ZKP_Contexts(sign=base.ctx.sign, verify=base.ctx.verify, blind=blind),
            cap=Secp256k1_ZKP_Capabilities(has_zkp=has_zkp, **dataclasses.asdict(base.cap)))
    return mod._secp256k1
