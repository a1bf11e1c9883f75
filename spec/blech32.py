"""Reference models: blech32 codec (Blockstream's reference python implementation, Elements
blech32.cpp) and the address data class built on it."""
from elementstx.liquid_addr import Encoding
from elementstx.blech32 import Blech32Error, UnexpectedBlech32LenghOrVersion, CBlech32Data

ALPHABET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
BLECH32 = 1
BLECH32M = 0x455972a3350f7a1
CHECKSUM_CHARS = 12


def polymod(values: 'list'):
    c = 1
    for v in values:
        c0 = c >> 55
        c = ((c & 0x7fffffffffffff) << 5) ^ v
        if c0 & 1:
            c ^= 0x7d52fba40bd886
        if (c0 >> 1) & 1:
            c ^= 0x5e8dbf1a03950c
        if (c0 >> 2) & 1:
            c ^= 0x1c3a3c74072a18
        if (c0 >> 3) & 1:
            c ^= 0x385d72fa0e5139
        if (c0 >> 4) & 1:
            c ^= 0x7093e5a608865b
    return c


def hrp_expand(hrp: 'str'):
    return [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]


def verify_checksum(hrp: 'str', data: 'list'):
    check = polymod(hrp_expand(hrp) + data)
    if check == BLECH32:
        return Encoding.BECH32
    if check == BLECH32M:
        return Encoding.BECH32M
    return None


def create_checksum(encoding: '?', hrp: 'str', data: 'list'):
    const = BLECH32
    if encoding == Encoding.BECH32M:
        const = BLECH32M
    mod = polymod(hrp_expand(hrp) + data + [0] * CHECKSUM_CHARS) ^ const
    return [(mod >> 5 * (CHECKSUM_CHARS - 1 - i)) & 31 for i in range(CHECKSUM_CHARS)]


def encode_string(encoding: '?', hrp: 'str', data: 'list'):
    return hrp + '1' + ''.join(
        [ALPHABET[d] for d in data + create_checksum(encoding, hrp, data)])


def decode_string(bech: 'str'):
    nothing = (None, None, None)
    for x in bech:
        if ord(x) < 33 or ord(x) > 126:
            return nothing
    if bech.lower() != bech and bech.upper() != bech:
        return nothing
    bech = bech.lower()
    pos = bech.rfind('1')
    if pos < 1 or pos + CHECKSUM_CHARS + 1 > len(bech) or len(bech) > 1000:
        return nothing
    for x in bech[pos + 1:]:
        if x not in ALPHABET:
            return nothing
    hrp = bech[:pos]
    data = [ALPHABET.find(x) for x in bech[pos + 1:]]
    encoding = verify_checksum(hrp, data)
    if encoding is None:
        return nothing
    return (encoding, hrp, data[:-CHECKSUM_CHARS])


def regroup(data: 'list', frombits: 'int', tobits: 'int', pad: 'bool' = True):
    acc = 0
    bits = 0
    ret = []
    for value in data:
        if value < 0 or (value >> frombits):
            return None
        acc = ((acc << frombits) | value) & ((1 << (frombits + tobits - 1)) - 1)
        bits += frombits
        while bits >= tobits:
            bits -= tobits
            ret.append((acc >> bits) & ((1 << tobits) - 1))
    rest = (acc << (tobits - bits)) & ((1 << tobits) - 1)
    if pad:
        if bits:
            ret.append(rest)
    elif bits >= frombits or rest:
        return None
    return ret


def decode(hrp: 'str', addr: 'str'):
    """hrp, witness version and blinding key + program of an address string"""
    encoding, got, data = decode_string(addr)
    if got != hrp:
        return (None, None)
    prog = regroup(data[1:], 5, 8, False)
    if prog is None or len(prog) < 2 or len(prog) > 73:
        return (None, None)
    ver = data[0]
    if ver > 16:
        return (None, None)
    if ver == 0:
        if len(prog) != 53 and len(prog) != 65:
            return (None, None)
        if encoding != Encoding.BECH32:
            return (None, None)
    else:
        if encoding != Encoding.BECH32M:
            return (None, None)
    return (ver, bytes(prog))


def encode(hrp: 'str', witver: 'int', witprog: 'bytes'):
    prog = regroup(witprog, 8, 5)
    if prog is None:
        return None
    s = encode_string(Encoding.BECH32 if witver == 0 else Encoding.BECH32M,
                      hrp, [witver] + prog)
    if decode(hrp, s) == (None, None):
        return None
    return s


# ------------------------------------------------------------- address data

def data_new(cls, s: 'str'):
    if cls.blech32_hrp is None:
        raise TypeError
    ver, data = decode(cls.blech32_hrp, s)
    if ver is None or data is None:
        raise Blech32Error
    return cls.blech32_match_progam_and_version(data, ver)


def data_init(self, s: '?'):
    pass


@classmethod
def data_candidates(cls):
    return [cls] if cls.blech32_witness_version >= 0 else []


@classmethod
def data_match(cls, data: 'bytes', witver: 'int'):
    candidates = cls.blech32_get_match_candidates()
    if not candidates:
        return cls.from_bytes(data, witver=witver)
    for candidate in candidates:
        wv = candidate.blech32_witness_version
        if wv < 0:
            try:
                return candidate.blech32_match_progam_and_version(data, witver)
            except UnexpectedBlech32LenghOrVersion:
                pass
        elif len(data) == candidate._data_length and witver == wv:
            return candidate.from_bytes(data, witver=witver)
    raise UnexpectedBlech32LenghOrVersion


@classmethod
def data_from_bytes(cls, witprog: '?', witver: '?' = None):
    own = cls.blech32_witness_version
    if witver is None:
        if own < 0:
            raise ValueError
        witver = own
    elif witver < 0:
        raise ValueError
    elif own >= 0 and witver != own:
        raise ValueError
    if witver < 0 or witver > 16:
        raise ValueError
    self = bytes.__new__(cls, witprog)
    if own < 0:
        self.blech32_witness_version = witver
    self.__init__(None)
    return self


def data_to_bytes(self):
    return b'' + self


def data_str(self):
    s = encode(self.blech32_hrp, self.blech32_witness_version, self)
    if s is None:
        raise AssertionError
    return s
