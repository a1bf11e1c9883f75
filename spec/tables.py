"""Reference tables: what class attributes, class relations, registrations and constants
have to be (Elements Core chainparams.cpp, script.h, confidential address formats)."""
from sa.tables import TableOb
from sa import inherit
from spec import rules

W = 'elementstx.wallet:'
LW = 'bitcointx.wallet.'
KINDS = ('P2PKH', 'P2SH', 'P2WPKH', 'P2WSH', 'P2TR')
CHAINS = {
    'Elements': dict(p2pkh=235, p2sh=75, blind=4, bech32='ert', blech32='el', wif=239,
                     xpub=b'\x04\x35\x87\xcf', xprv=b'\x04\x35\x83\x94', base='WalletElementsClass'),
    'ElementsLiquidV1': dict(p2pkh=57, p2sh=39, blind=12, bech32='ex', blech32='lq', wif=239,
                             xpub=b'\x04\x88\xb2\x1e', xprv=b'\x04\x88\xad\xe4',
                             base='WalletElementsLiquidV1Class'),
}
LEN = {'P2PKH': 20, 'P2SH': 20, 'P2WPKH': 20, 'P2WSH': 32, 'P2TR': 32}
WITVER = {'P2WPKH': 0, 'P2WSH': 0, 'P2TR': 1}
SPK = {'P2WPKH': 'witness_v0_keyhash', 'P2WSH': 'witness_v0_scripthash',
       'P2TR': 'witness_v1_taproot'}


def plain(kind, chain):
    return W + '%s%sAddress' % (kind, chain)


def conf(kind, chain):
    return W + '%s%sConfidentialAddress' % (kind, chain)


def q(x):
    return x.replace(':', '.')


RELATED = ['elementstx.wallet.WalletElementsClass', 'elementstx.wallet.WalletElementsLiquidV1Class',
           'elementstx.wallet.CCoinConfidentialAddress', 'elementstx.wallet.CElementsAddress',
           'elementstx.wallet.CElementsLiquidV1Address',
           'elementstx.wallet.CElementsConfidentialAddress',
           'elementstx.wallet.CElementsLiquidV1ConfidentialAddress',
           'elementstx.wallet.CBase58CoinConfidentialAddress',
           'elementstx.wallet.CBlech32CoinConfidentialAddress',
           'elementstx.wallet.CBase58ElementsAddress', 'elementstx.wallet.CBech32ElementsAddress',
           'elementstx.wallet.CBase58ElementsLiquidV1Address',
           'elementstx.wallet.CBech32ElementsLiquidV1Address',
           'elementstx.wallet.CElementsAddressBase', 'elementstx.blech32.CBlech32Data',
           LW + 'CBase58CoinAddress', LW + 'CBech32CoinAddress', LW + 'CCoinAddress'] + \
    [LW + k + 'CoinAddress' for k in KINDS] + \
    ['elementstx.wallet.%sCoinConfidentialAddress' % k for k in KINDS]

prefixes, lengths, pairing, relations, keys = [], [], [], [], []
for chain, p in CHAINS.items():
    short = 'C' + chain
    for kind in KINDS:
        b58 = kind in ('P2PKH', 'P2SH')
        pre = p['p2pkh'] if kind == 'P2PKH' else p['p2sh']
        if b58:
            prefixes += [('attr', plain(kind, chain), 'base58_prefix', bytes([pre])),
                         ('attr', conf(kind, chain), 'base58_prefix', bytes([p['blind'], pre]))]
        else:
            prefixes += [('attr', plain(kind, chain), 'bech32_hrp', p['bech32']),
                         ('attr', conf(kind, chain), 'blech32_hrp', p['blech32'])]
            lengths += [('attr', conf(kind, chain), 'blech32_witness_version', WITVER[kind]),
                        ('attr', conf(kind, chain), '_scriptpubkey_type', SPK[kind]),
                        ('attr', plain(kind, chain), 'bech32_witness_version',
                         'lib:' + LW + kind + 'CoinAddress')]
        lengths += [('attr', conf(kind, chain), '_data_length', LEN[kind] + 33),
                    ('attr', plain(kind, chain), '_data_length',
                     'lib:' + LW + kind + 'CoinAddress')]
        pairing.append(('attr', conf(kind, chain), '_unconfidential_address_class',
                        'ref:' + q(plain(kind, chain))))
        relations.append(('isa', plain(kind, chain), RELATED, [
            q(W + p['base']), LW + 'CCoinAddress', LW + kind + 'CoinAddress',
            'elementstx.wallet.CElementsAddressBase', q(W + short + 'Address'),
            LW + ('CBase58CoinAddress' if b58 else 'CBech32CoinAddress'),
            q(W + ('CBase58' if b58 else 'CBech32') + chain + 'Address')]))
        relations.append(('isa', conf(kind, chain), RELATED, [
            q(W + p['base']), LW + 'CCoinAddress', 'elementstx.wallet.CCoinConfidentialAddress',
            'elementstx.wallet.CElementsAddressBase', q(W + short + 'Address'),
            q(W + short + 'ConfidentialAddress'),
            'elementstx.wallet.%sCoinConfidentialAddress' % kind] + (
            [LW + 'CBase58CoinAddress', 'elementstx.wallet.CBase58CoinConfidentialAddress',
             q(W + 'CBase58' + chain + 'Address')]
            if b58 else ['elementstx.wallet.CBlech32CoinConfidentialAddress',
                         'elementstx.blech32.CBlech32Data'])))
        relations += [('keyword', W + kind + 'CoinConfidentialAddress', 'next_dispatch_final', True)]
        for mname in ('from_pubkey', 'from_redeemScript', 'from_scriptPubKey', 'to_scriptPubKey',
                      'to_redeemScript'):
            if mname == 'from_pubkey' and kind in ('P2SH', 'P2WSH') or \
                    mname == 'from_redeemScript' and kind == 'P2TR':
                continue
            relations.append(('comes_from', plain(kind, chain), mname, LW + kind + 'CoinAddress'))
    keys += [('attr', W + short + 'Key', 'base58_prefix', bytes([p['wif']])),
             ('attr', W + short + 'ExtPubKey', 'base58_prefix', p['xpub']),
             ('attr', W + short + 'ExtKey', 'base58_prefix', p['xprv'])]
    for n, lib in (('Key', 'CCoinKey'), ('ExtPubKey', 'CCoinExtPubKey'), ('ExtKey', 'CCoinExtKey')):
        keys.append(('isa', W + short + n, RELATED[:2] + [LW + 'CCoinKey', LW + 'CCoinExtPubKey',
                                                         LW + 'CCoinExtKey'],
                     [q(W + p['base']), LW + lib]))

# the classes addresses are dispatched through
AB = [LW + 'CBase58CoinAddress', LW + 'CBech32CoinAddress', LW + 'CCoinAddress'] + [
    'elementstx.wallet.' + c for c in (
        'CCoinConfidentialAddress', 'CBase58CoinConfidentialAddress', 'CBlech32CoinConfidentialAddress',
        'CBlech32DataDispatched', 'CElementsAddressBase')] + ['elementstx.blech32.CBlech32Data']
abstract = [
    ('isa', W + 'CBase58CoinConfidentialAddress', AB, [AB[0], AB[2], AB[3], AB[4]]),
    ('isa', W + 'CBlech32CoinConfidentialAddress', AB, [AB[2], AB[3], AB[5], AB[6], AB[8]]),
    ('isa', W + 'CElementsAddressBase', AB, [AB[2], AB[7]])]
for chain, p in CHAINS.items():
    AC = AB + ['elementstx.wallet.' + x for x in (
        'C%sAddress' % chain, 'C%sConfidentialAddress' % chain, 'CBase58%sAddress' % chain,
        'CBech32%sAddress' % chain)] + [q(W + x['base']) for x in CHAINS.values()]
    fam = [AB[2], AB[7], q(W + 'C%sAddress' % chain), q(W + p['base'])]
    cfam = fam + [AB[3], q(W + 'C%sConfidentialAddress' % chain)]
    abstract += [
        ('isa', W + 'C%sAddress' % chain, AC, fam),
        ('isa', W + 'C%sConfidentialAddress' % chain, AC, cfam),
        ('isa', W + 'CBase58%sAddress' % chain, AC, fam + [AB[0], q(W + 'CBase58%sAddress' % chain)]),
        ('isa', W + 'CBech32%sAddress' % chain, AC, fam + [AB[1], q(W + 'CBech32%sAddress' % chain)]),
        ('isa', W + 'CBase58%sConfidentialAddress' % chain, AC, cfam + [
            AB[0], AB[4], q(W + 'CBase58%sAddress' % chain)]),
        ('isa', W + 'CBlech32%sConfidentialAddress' % chain, AC, cfam + [AB[5], AB[6], AB[8]])]
CE = LW + 'CCoinAddressError'
errors = [('isa', W + c, [CE], [CE]) for c in (
    'CConfidentialAddressError', 'CBlech32AddressError', 'P2WSHCoinConfidentialAddressError',
    'P2WPKHCoinConfidentialAddressError')] + [
    ('isa', 'elementstx.blech32:' + c, [x, b], [x, b])
    for x, b in (('bitcointx.core.AddressDataEncodingError', 'elementstx.blech32.Blech32Error'),)
    for c in ('Blech32Error', 'Blech32ChecksumError', 'UnexpectedBlech32LenghOrVersion')]
serrors = [('isa', 'elementstx.core:' + c, [b], [b]) for b in (
    'bitcointx.core.serialize.SerializationError',) for c in (
    'WitnessSerializationError', 'TxInSerializationError')]

registered = [('registered', 'elementstx.wallet', [
    (q(plain(k, c)), q(conf(k, c))) for k in KINDS for c in CHAINS])]

dispatch = [
    ('metaclass', W + 'WalletElementsClass', 'elementstx.wallet.WalletElementsClassDispatcher'),
    ('metaclass', W + 'WalletElementsLiquidV1Class',
     'elementstx.wallet.WalletElementsLiquidV1ClassDispatcher'),
    ('metaclass', 'elementstx.core:CoreElementsClass',
     'elementstx.core.CoreElementsClassDispatcher'),
    ('metaclass', 'elementstx.core.script:ScriptElementsClass',
     'elementstx.core.script.ScriptElementsClassDispatcher'),
    ('keyword', W + 'WalletElementsClassDispatcher', 'depends',
     ('ref:elementstx.core.CoreElementsClassDispatcher',)),
    ('keyword', W + 'WalletElementsLiquidV1ClassDispatcher', 'depends',
     ('ref:elementstx.core.CoreElementsClassDispatcher',)),
    ('keyword', 'elementstx.core:CoreElementsClassDispatcher', 'depends',
     ('ref:elementstx.core.script.ScriptElementsClassDispatcher',)),
    ('isa', 'elementstx.core.script:CElementsScript',
     ['bitcointx.core.script.CScript', 'elementstx.core.script.ScriptElementsClass'],
     ['bitcointx.core.script.CScript', 'elementstx.core.script.ScriptElementsClass']),
    ('isa', 'elementstx.core.script:TaprootElementsScriptTree',
     ['bitcointx.core.script.TaprootScriptTree', 'elementstx.core.script.ScriptElementsClass'],
     ['bitcointx.core.script.TaprootScriptTree', 'elementstx.core.script.ScriptElementsClass']),
]

P = 'elementstx:'
params = [
    ('keyword', P + 'ElementsParams', 'name', ('elements', 'elements/elementsregtest')),
    ('keyword', P + 'ElementsLiquidV1Params', 'name', 'elements/liquidv1'),
    ('attr', P + 'ElementsParams', 'RPC_PORT', 7041),
    ('attr', P + 'ElementsLiquidV1Params', 'RPC_PORT', 7042),
    ('attr', P + 'ElementsParams', 'WALLET_DISPATCHER',
     'ref:elementstx.wallet.WalletElementsClassDispatcher'),
    ('attr', P + 'ElementsLiquidV1Params', 'WALLET_DISPATCHER',
     'ref:elementstx.wallet.WalletElementsLiquidV1ClassDispatcher'),
    ('isa', P + 'ElementsParams', ['bitcointx.ChainParamsBase'], ['bitcointx.ChainParamsBase']),
    ('isa', P + 'ElementsLiquidV1Params', ['elementstx.ElementsParams'],
     ['elementstx.ElementsParams']),
]

E = 'elementstx.core:'
core_params = [
    ('attr', E + 'CoreElementsParams', 'CT_EXPONENT', 0),
    ('attr', E + 'CoreElementsParams', 'CT_BITS', 52),
]
taproot = [('attr', E + 'CoreElementsParams', 'TAPROOT_LEAF_TAPSCRIPT', 0xc4)] + [
    ('attr', E + 'CoreElementsParams', a, ('tagged', t)) for a, t in (
        ('taptweak_hasher', b'TapTweak/elements'), ('tapleaf_hasher', b'TapLeaf/elements'),
        ('tapbranch_hasher', b'TapBranch/elements'),
        ('tap_sighash_hasher', b'TapSighash/elements'))] + [
    ('isa', E + 'CoreElementsParams',
     ['bitcointx.core.CoreCoinParams', 'elementstx.core.CoreElementsClass'],
     ['bitcointx.core.CoreCoinParams', 'elementstx.core.CoreElementsClass'])]
constants = [
    ('const', 'elementstx.core', 'OUTPOINT_ISSUANCE_FLAG', 1 << 31),
    ('const', 'elementstx.core', 'OUTPOINT_PEGIN_FLAG', 1 << 30),
    ('const', 'elementstx.core', 'OUTPOINT_INDEX_MASK', (1 << 30) - 1),
]
sizes = [('attr', E + 'CConfidential' + c, a, v) for c, vals in (
    ('Asset', (33, 10, 11)), ('Value', (9, 8, 9)), ('Nonce', (33, 2, 3)))
    for a, v in zip(('_explicitSize', '_prefixA', '_prefixB', '_committedSize'), vals + (33,))]

OPS = [
    'DETERMINISTICRANDOM', 'CHECKSIGFROMSTACK', 'CHECKSIGFROMSTACKVERIFY', 'SUBSTR_LAZY',
    'SHA256INITIALIZE', 'SHA256UPDATE', 'SHA256FINALIZE', 'INSPECTINPUTOUTPOINT',
    'INSPECTINPUTASSET', 'INSPECTINPUTVALUE', 'INSPECTINPUTSCRIPTPUBKEY',
    'INSPECTINPUTSEQUENCE', 'INSPECTINPUTISSUANCE', 'PUSHCURRENTINPUTINDEX',
    'INSPECTOUTPUTASSET', 'INSPECTOUTPUTVALUE', 'INSPECTOUTPUTNONCE',
    'INSPECTOUTPUTSCRIPTPUBKEY', 'INSPECTVERSION', 'INSPECTLOCKTIME', 'INSPECTNUMINPUTS',
    'INSPECTNUMOUTPUTS', 'TXWEIGHT', 'ADD64', 'SUB64', 'MUL64', 'DIV64', 'NEG64', 'LESSTHAN64',
    'LESSTHANOREQUAL64', 'GREATERTHAN64', 'GREATERTHANOREQUAL64', 'SCRIPTNUMTOLE64',
    'LE64TOSCRIPTNUM', 'LE32TOLE64', 'ECMULSCALARVERIFY', 'TWEAKVERIFY']
opcodes = [('const', 'elementstx.core.script', 'OP_' + n, ('CScriptOp', 0xc0 + i))
           for i, n in enumerate(OPS)] + [('distinct_ops', 'elementstx.core.script', 'OP_')]

MUT = {'OutPoint': 'COutPoint', 'TxInWitness': 'CTxInWitness', 'TxOutWitness': 'CTxOutWitness',
       'TxWitness': 'CTxWitness', 'TxIn': 'CTxIn', 'TxOut': 'CTxOut',
       'Transaction': 'CTransaction'}
mutable = []
for n, lib in MUT.items():
    a, b = E + 'CElements' + n, E + 'CElementsMutable' + n
    core = 'bitcointx.core.'
    rel = [core + lib, core + 'CMutable' + lib[1:], 'elementstx.core.CoreElementsClass', q(a)]
    mutable += [
        ('keyword', b, 'mutable_of', 'ref:' + q(a)),
        ('isa', a, rel, [core + lib, 'elementstx.core.CoreElementsClass', q(a)]),
        ('isa', b, rel, rel),
        ('keyword', a, 'mutable_of', None),
    ]
for n in ('ConfidentialCommitmentBase', 'ConfidentialAsset', 'ConfidentialValue',
          'ConfidentialNonce', 'AssetIssuance'):
    x = 'bitcointx.core.serialize.ImmutableSerializable'
    mutable.append(('isa', E + 'C' + n, [x], [x]))
for n in ('CAsset',):
    x = 'bitcointx.core.Uint256'
    mutable.append(('isa', E + n, [x], [x]))
for n, names in (('CElementsTxInWitness', ('scriptWitness', 'issuanceAmountRangeproof',
                                           'inflationKeysRangeproof', 'pegin_witness')),
                 ('CElementsTxOutWitness', ('surjectionproof', 'rangeproof')),
                 ('CElementsTxWitness', ('vtxinwit', 'vtxoutwit')),
                 ('CElementsTxIn', ('prevout', 'scriptSig', 'nSequence', 'assetIssuance',
                                    'is_pegin')),
                 ('CElementsTxOut', ('nValue', 'scriptPubKey', 'nAsset', 'nNonce'))):
    pass

results = [('isa', E + a, [q(E + x) for x in (
    'BlindingOrUnblindingResult', 'BlindingOrUnblindingSuccess', 'BlindingOrUnblindingFailure')],
    [q(E + 'BlindingOrUnblindingResult'), q(E + 'BlindingOrUnbl' + b)]) for a, b in (
        ('BlindingSuccess', 'indingSuccess'), ('BlindingFailure', 'indingFailure'),
        ('UnblindingSuccess', 'indingSuccess'), ('UnblindingFailure', 'indingFailure'))] + [
    ('comes_from', E + a, '__len__', None) for a in ('BlindingFailure', 'UnblindingFailure')] + [
    ('fields', E + 'BlindingSuccess', ('num_successfully_blinded', 'blinding_factors',
                                       'asset_blinding_factors')),
    ('fields', E + 'UnblindingSuccess', ('asset', 'amount', 'blinding_factor',
                                         'asset_blinding_factor')),
    ('fields', E + 'BlindingInputDescriptor', ('asset', 'amount', 'blinding_factor',
                                               'asset_blinding_factor')),
    ('fields', E + 'ZKPRangeproofInfo', ('exp', 'mantissa', 'value_min', 'value_max'))]
reprs = [('isa', E + c, [M], [M]) for M in ('bitcointx.core.ReprOrStrMixin',) for c in (
    'CElementsTxInWitness', 'CElementsTxWitness', 'CAssetIssuance', 'CElementsTxIn',
    'CElementsTxOut')]

# methods left to python-bitcointx
TEXT = ('__repr__', '__str__', '_repr_or_str')
IDENT = ('__eq__', '__ne__', '__hash__', 'GetHash', 'GetTxid')
COPY = ('_from_instance', 'clone', 'from_instance', 'is_immutable', 'is_mutable', 'to_immutable',
        'to_mutable', 'from_outpoint', 'from_tx', '__setattr__', '__delattr__')


def left(*names, mod='elementstx.core', only=None, skip=TEXT + IDENT + COPY):
    return inherit.table(lambda cn, m: m == mod and (cn in names or not names), only, skip)


def both(*names):
    return [x for n in names for x in ('CElements' + n, 'CElementsMutable' + n)]


inherited = {
    'inherit.commitments': left('CConfidentialCommitmentBase', 'CConfidentialAsset',
                                'CConfidentialValue', 'CConfidentialNonce'),
    'inherit.witness': left('CAssetIssuance', *both('TxInWitness', 'TxOutWitness')),
    'inherit.txin': left(*both('OutPoint', 'TxIn')),
    'inherit.txout': left(*both('TxOut')),
    'inherit.tx': left(*both('Transaction', 'TxWitness')),
    'inherit.asset': left('CAsset'),
    'inherit.records': left(only=COPY, skip=()),
    'inherit.identity': left(only=IDENT, skip=()),
    'inherit.script': left(mod='elementstx.core.script'),
    'inherit.addresses': left(mod='elementstx.wallet'),
    'inherit.params': left(mod='elementstx'),
}

TABLES = {
    'table.prefixes': prefixes, 'table.lengths': lengths, 'table.pairing': pairing,
    'table.relations': relations, 'table.keys': keys, 'table.registered': registered,
    'table.dispatch': dispatch, 'table.params': params, 'table.core_params': core_params,
    'table.taproot': taproot, 'table.constants': constants, 'table.sizes': sizes,
    'table.opcodes': opcodes, 'table.mutable': mutable, 'table.results': results,
    'table.reprs': reprs, 'table.abstract': abstract, 'table.errors': errors,
    'table.serrors': serrors,
    'rule.setattr': rules.FACTS,
    'rule.declared': rules.DECLARED,
    **inherited,
}
TABLES = {k: TableOb(k, v) for k, v in TABLES.items()}
