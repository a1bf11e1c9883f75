"""Behaviour-preserving caches: the key says everything the value depends on"""
CO, SC = 'core/__init__.py', 'core/script.py'
R = {}


def r(name, *edits):
    R[name] = edits


TOK = """    if is_confidential:
        k = Uint256.from_int(2)
    else:
        k = Uint256.from_int(1)
    return CAsset(CSHA256().Write(entropy).Write(k.data).Midstate())
"""
HEAD = (CO, "def calculate_reissuance_token(", "_tokens: dict = {}\n\n\ndef calculate_reissuance_token(")
r('token_try', (CO, TOK, """    key = (bytes(entropy), bool(is_confidential))
    try:
        return _tokens[key]
    except KeyError:
        pass
""" + TOK.replace('return ', 'token = ') + """    _tokens[key] = token
    return token
"""), HEAD)
r('token_in', (CO, TOK, """    key = (bytes(entropy), bool(is_confidential))
    if key in _tokens:
        return _tokens[key]
""" + TOK.replace('return ', 'token = ') + """    _tokens[key] = token
    return token
"""), HEAD)
r('token_get', (CO, TOK, """    key = (bytes(entropy), bool(is_confidential))
    token = _tokens.get(key)
    if token is None:
""" + TOK.replace('return ', 'token = ').replace('    ', '        ').replace('                ', '            ') + """        _tokens[key] = token
    return token
"""), HEAD)
r('token_notin', (CO, TOK, """    key = (bytes(entropy), is_confidential)
    if key not in _tokens:
""" + TOK.replace('return ', '_tokens[key] = ').replace('    ', '        ').replace('                ', '            ') + """    return _tokens[key]
"""), HEAD)
r('token_setdefault', (CO, TOK, TOK.replace('return CAsset', 'return _tokens.setdefault((bytes(entropy), k.data), CAsset').rstrip()[:-1] + """))
"""), HEAD)
DERIVE = """    return CKey(hmac.new(blinding_derivation_key.secret_bytes, script,
                         hashlib.sha256).digest())"""
r('derive_get', (CO, DERIVE, """    key = (blinding_derivation_key.secret_bytes, script)
    k = _derived.get(key)
    if k is None:
        k = _derived[key] = CKey(hmac.new(
            blinding_derivation_key.secret_bytes, script, hashlib.sha256).digest())
    return k"""), (CO, "def derive_blinding_key(", "_derived: dict = {}\n\n\ndef derive_blinding_key("))
r('stats', (CO, DERIVE, """    _seen[script] = len(blinding_derivation_key.secret_bytes)
""" + DERIVE), (CO, "def derive_blinding_key(", "_seen: dict = {}\n\n\ndef derive_blinding_key("))
r('lru', (CO, "def calculate_reissuance_token(", "@functools.lru_cache(maxsize=None)\ndef calculate_reissuance_token("),
  (CO, "import hashlib\n", "import functools\nimport hashlib\n"))

r('token_branches', (CO, TOK, """    if is_confidential:
        key = (entropy, 'c')
        if key not in _tokens:
            _tokens[key] = CAsset(CSHA256().Write(entropy).Write(Uint256.from_int(2).data).Midstate())
    else:
        key = (entropy, 'u')
        if key not in _tokens:
            _tokens[key] = CAsset(CSHA256().Write(entropy).Write(Uint256.from_int(1).data).Midstate())
    return _tokens[key]
"""), HEAD)
r('token_bounded', (CO, TOK, """    key = (entropy, bool(is_confidential))
    if key not in _tokens:
        if len(_tokens) > 1000:
            _tokens.clear()
""" + TOK.replace('return ', '_tokens[key] = ').replace('    ', '        ').replace('                ', '            ') + """    return _tokens[key]
"""), HEAD)
r('token_helper', (CO, TOK, """    return _token(entropy, 2 if is_confidential else 1)
"""), (CO, "def calculate_reissuance_token(", """_tokens: dict = {}


def _token(entropy: bytes, n: int) -> 'CAsset':
    t = _tokens.get((entropy, n))
    if t is None:
        t = CAsset(CSHA256().Write(entropy).Write(Uint256.from_int(n).data).Midstate())
        _tokens[(entropy, n)] = t
    return t


def calculate_reissuance_token("""))
r('token_default', (CO, TOK, """    key = (entropy, bool(is_confidential))
    if key not in _known:
        n = 2 if is_confidential else 1
        _known[key] = CAsset(CSHA256().Write(entropy).Write(Uint256.from_int(n).data).Midstate())
    return _known[key]
"""), (CO, """                               is_confidential: bool) -> CAsset:
    ensure_isinstance(entropy, (bytes, bytearray""", """                               is_confidential: bool, _known: dict = {}) -> CAsset:
    ensure_isinstance(entropy, (bytes, bytearray"""))
