"""Reference C prototypes of the secp256k1-zkp functions the package declares
(secp256k1_rangeproof.h, secp256k1_generator.h, secp256k1_surjectionproof.h,
secp256k1.h), as ctypes types."""
import ctypes
from ctypes import POINTER, c_char_p, c_int, c_size_t, c_uint, c_uint64, c_void_p


def prototypes(lib: '?'):
    ctx, buf, psize, pu64 = c_void_p, c_char_p, POINTER(c_size_t), POINTER(c_uint64)
    f = lib.secp256k1_rangeproof_info
    f.restype = c_int
    f.argtypes = [ctx, POINTER(c_int), POINTER(c_int), pu64, pu64, buf, c_size_t]
    f = lib.secp256k1_rangeproof_sign
    f.restype = c_int
    f.argtypes = [ctx, buf, psize, c_uint64, buf, buf, buf, c_int, c_int, c_uint64, buf,
                  c_size_t, buf, c_size_t, buf]
    f = lib.secp256k1_rangeproof_rewind
    f.restype = c_int
    f.argtypes = [ctx, buf, pu64, buf, psize, buf, pu64, pu64, buf, buf, c_size_t, buf,
                  c_size_t, buf]
    f = lib.secp256k1_generator_parse
    f.restype = c_int
    f.argtypes = [ctx, buf, buf]
    f = lib.secp256k1_generator_generate
    f.restype = c_int
    f.argtypes = [ctx, buf, buf]
    f = lib.secp256k1_generator_generate_blinded
    f.restype = c_int
    f.argtypes = [ctx, buf, buf, buf]
    f = lib.secp256k1_generator_serialize
    f.restype = c_int
    f.argtypes = [ctx, buf, buf]
    f = lib.secp256k1_pedersen_commit
    f.restype = c_int
    f.argtypes = [ctx, buf, buf, c_uint64, buf]
    f = lib.secp256k1_pedersen_commitment_parse
    f.restype = c_int
    f.argtypes = [ctx, buf, buf]
    f = lib.secp256k1_pedersen_commitment_serialize
    f.restype = c_int
    f.argtypes = [ctx, buf, buf]
    f = lib.secp256k1_pedersen_blind_generator_blind_sum
    f.restype = c_int
    f.argtypes = [ctx, pu64, POINTER(c_char_p), POINTER(c_char_p), c_size_t, c_size_t]
    f = lib.secp256k1_surjectionproof_allocate_initialized
    f.restype = c_int
    f.argtypes = [ctx, POINTER(c_void_p), psize, buf, c_size_t, c_size_t, buf, c_size_t, buf]
    f = lib.secp256k1_surjectionproof_destroy
    f.restype = None
    f.argtypes = [c_void_p]
    f = lib.secp256k1_surjectionproof_generate
    f.restype = c_int
    f.argtypes = [ctx, c_void_p, buf, c_size_t, buf, c_size_t, buf, buf]
    f = lib.secp256k1_surjectionproof_verify
    f.restype = c_int
    f.argtypes = [ctx, c_void_p, buf, c_size_t, buf]
    f = lib.secp256k1_surjectionproof_serialized_size
    f.restype = c_int
    f.argtypes = [ctx, c_void_p]
    f = lib.secp256k1_surjectionproof_serialize
    f.restype = c_int
    f.argtypes = [ctx, buf, psize, c_void_p]
    f = lib.secp256k1_ec_pubkey_serialize
    f.restype = c_int
    f.argtypes = [ctx, buf, psize, buf, c_uint]

