"""Obligations: which function is decided against which reference model."""
from sa.engine_check import Ob

C = 'elementstx.core:'
R = 'spec.records:'


def m(cls, name, spec, **kw):
    """method analysed on a concrete class"""
    return Ob('%s.%s' % (cls, name), spec, cls=cls, **kw)


OBS = {}


def grp(name, *obs):
    OBS[name] = list(obs)


for kind, cls in (('asset', 'CConfidentialAsset'), ('value', 'CConfidentialValue'),
                  ('nonce', 'CConfidentialNonce')):
    c = C + cls
    grp('commit.%s' % kind,
        m(c, '__init__', R + kind + '_init'),
        m(c, 'stream_deserialize', R + kind + '_read'),
        m(c, 'stream_serialize', R + 'commitment_write'),
        m(c, 'is_null', R + 'commitment_is_null'),
        m(c, 'is_explicit', R + ('value' if kind == 'value' else 'long') + '_is_explicit'),
        m(c, 'is_commitment', R + kind + '_is_commitment'),
        m(c, 'is_valid', R + 'commitment_is_valid'))
grp('commit.conv',
    m(C + 'CConfidentialAsset', 'from_asset', R + 'asset_from_asset'),
    m(C + 'CConfidentialAsset', 'to_asset', R + 'asset_to_asset'),
    m(C + 'CConfidentialValue', 'from_amount', R + 'value_from_amount'),
    m(C + 'CConfidentialValue', 'to_amount', R + 'value_to_amount'))

REC = {'inwit': 'CElementsTxInWitness', 'outwit': 'CElementsTxOutWitness',
       'txwit': 'CElementsTxWitness', 'issuance': 'CAssetIssuance', 'txin': 'CElementsTxIn',
       'txout': 'CElementsTxOut'}
for k, cls in REC.items():
    c = C + cls
    grp(k + '.init', m(c, '__init__', R + k + '_init'))
    grp(k + '.codec', m(c, 'stream_deserialize', R + k + '_read'),
        m(c, 'stream_serialize', R + k + '_write'))
    if k != 'txin':
        grp(k + '.null', m(c, 'is_null', R + k + '_is_null'))
    if k != 'issuance':
        nm = {'inwit': 'from_txin_witness', 'outwit': 'from_txout_witness',
              'txwit': 'from_witness', 'txin': 'from_txin', 'txout': 'from_txout'}[k]
        grp(k + '.copy', m(c, 'from_instance', R + k + '_from_instance'),
            m(c, nm, R + k + '_' + nm))
grp('txout.fee', m(C + 'CElementsTxOut', 'is_fee', R + 'txout_is_fee'))
grp('tx.codec', m(C + 'CElementsTransaction', 'stream_deserialize', R + 'tx_read'),
    m(C + 'CElementsTransaction', 'stream_serialize', R + 'tx_write'))
grp('tx.num_issuances', m(C + 'CElementsTransaction', 'num_issuances', R + 'tx_num_issuances'))

S = 'spec.sighash:'
CS = 'elementstx.core.script:'
grp('sighash.v0', Ob(CS + 'RawElementsSignatureHash', S + 'raw_sighash'))
grp('sighash.taproot', Ob(CS + 'ElementsSignatureHashSchnorr', S + 'schnorr_sighash'))
c = CS + 'CElementsScript'
grp('script.sighash', m(c, 'sighash', S + 'script_sighash'),
    m(c, 'raw_sighash', S + 'script_raw_sighash'))
grp('script.sighash_schnorr', m(c, 'sighash_schnorr', S + 'script_sighash_schnorr'))
grp('script.pegout', m(c, 'get_pegout_data', S + 'script_pegout'),
    m(c, 'is_pegout', S + 'script_is_pegout'))
grp('script.unspendable', m(c, 'is_unspendable', S + 'script_is_unspendable'))
grp('script.blindkey', m(c, 'derive_blinding_key', S + 'script_derive_blinding_key'))

B = 'spec.blech32:'
LA = 'elementstx.liquid_addr:'
grp('blech32.polymod', Ob(LA + 'blech32_polymod', B + 'polymod', helper=True))
grp('blech32.expand', Ob(LA + 'blech32_hrp_expand', B + 'hrp_expand', helper=True))
grp('blech32.verify', Ob(LA + 'blech32_verify_checksum', B + 'verify_checksum', helper=True))
grp('blech32.create', Ob(LA + 'blech32_create_checksum', B + 'create_checksum', helper=True))
grp('blech32.encstr', Ob(LA + 'blech32_encode', B + 'encode_string', helper=True))
grp('blech32.decstr', Ob(LA + 'blech32_decode', B + 'decode_string', helper=True))
grp('blech32.regroup', Ob(LA + 'convertbits', B + 'regroup', helper=True))
grp('blech32.decode', Ob(LA + 'decode', B + 'decode', expand=False))
grp('blech32.encode', Ob(LA + 'encode', B + 'encode', expand=False))
c = 'elementstx.blech32:CBlech32Data'
grp('blech32.data', m(c, '__new__', B + 'data_new', fixed=False), m(c, '__init__', B + 'data_init', fixed=False),
    m(c, 'blech32_get_match_candidates', B + 'data_candidates', fixed=False),
    m(c, 'blech32_match_progam_and_version', B + 'data_match', fixed=False),
    m(c, 'from_bytes', B + 'data_from_bytes', fixed=False),
    m(c, 'to_bytes', B + 'data_to_bytes', fixed=False),
    m(c, '__str__', B + 'data_str', fixed=False))

W = 'spec.wallet:'
EW = 'elementstx.wallet:'
OPQ = ('elementstx.blech32.CBlech32Data.from_bytes',)
c = EW + 'CCoinConfidentialAddress'
grp('addr.confidential', m(c, 'from_unconfidential', W + 'from_unconfidential', opaque=OPQ),)
grp('addr.plain', m(c, 'to_unconfidential', W + 'to_unconfidential'),
    m(c, 'blinding_pubkey', W + 'blinding_pubkey'),
    m(c, 'to_scriptPubKey', W + 'to_scriptPubKey'),
    m(c, 'to_redeemScript', W + 'to_scriptPubKey'),
    m(c, 'from_scriptPubKey', W + 'from_scriptPubKey'))
grp('addr.size', m(c, 'get_output_size', W + 'confidential_output_size'),
    m(EW + 'CElementsAddressBase', 'get_output_size', W + 'plain_output_size'))
c = EW + 'CBlech32DataDispatched'
grp('addr.dispatched', m(c, '__init__', W + 'dispatched_init', fixed=False),
    m(c, 'blech32_get_match_candidates', W + 'dispatched_candidates', fixed=False),
    m(c, 'blech32_match_progam_and_version', B + 'data_match', fixed=False),
    m(c, 'from_bytes', B + 'data_from_bytes', fixed=False))

BL = 'spec.blinding:'
grp('issuance.entropy', Ob(C + 'generate_asset_entropy', BL + 'asset_entropy'))
grp('issuance.ids', Ob(C + 'calculate_asset', BL + 'asset_id'),
    Ob(C + 'calculate_reissuance_token', BL + 'token_id'))
grp('blind.asset', Ob(C + 'blinded_asset', BL + 'blinded_asset', helper=True))
grp('blind.assetcommitment',
    m(C + 'CAsset', 'to_comm_secp256k1itment', BL + 'asset_commitment'))
grp('blind.value', Ob(C + 'create_value_commitment', BL + 'value_commitment', helper=True))
grp('blind.rangeproof', Ob(C + 'generate_rangeproof', BL + 'rangeproof', helper=True))
grp('blind.nonce', Ob(C + 'generate_output_rangeproof_nonce', BL + 'output_nonce', helper=True))
grp('blind.surjection', Ob(C + 'generate_surjectionproof', BL + 'surjectionproof', helper=True))
grp('blind.key', Ob(C + 'derive_blinding_key', BL + 'derive_key'))
grp('unblind.pair', Ob(C + 'unblind_confidential_pair', BL + 'unblind_pair'))

SE = 'spec.secp:'
grp('secp.path', Ob('elementstx:set_custom_secp256k1_path', SE + 'set_custom_path'),
    Ob('elementstx:get_custom_secp256k1_path', SE + 'get_custom_path'))
grp('secp.aligned', Ob('elementstx.core.secp256k1:build_aligned_data_array', SE + 'aligned_array', helper=True))

BT = 'spec.blindtx:'
grp('blind.method', m(C + 'CElementsMutableTransaction', 'blind', BT + 'blind_method'))
grp('blind.tx', Ob(C + 'blind_transaction', BT + 'blind', expand=False))
grp('secp.handle', Ob('elementstx.core.secp256k1:get_secp256k1', SE + 'get_handle'))

RS = 'spec.results:'
grp('result.bool', m(C + 'BlindingSuccess', '__bool__', RS + 'as_bool'),
    m(C + 'BlindingFailure', '__bool__', RS + 'as_bool'),
    m(C + 'UnblindingSuccess', '__bool__', RS + 'as_bool'),
    m(C + 'UnblindingFailure', '__bool__', RS + 'as_bool'))
grp('result.ok', *[
    o for k in ('Blinding', 'Unblinding') for o in (
        m(C + k + 'Success', 'error', RS + 'success_error'),
        m(C + k + 'Success', 'ok', RS + 'success_ok'),
        m(C + k + 'Failure', 'error', RS + 'failure_error'),
        m(C + k + 'Failure', '__init__', RS + 'failure_init'),
        m(C + k + 'Failure', 'ok', RS + 'failure_ok'))])
grp('result.descriptor', m(C + 'UnblindingSuccess', 'get_descriptor', RS + 'descriptor'))
grp('unblind.method', m(C + 'CElementsTxOut', 'unblind_confidential_pair', RS + 'txout_unblind'))
grp('rangeproof.info', m(C + 'CElementsTxOutWitness', 'get_rangeproof_info',
                         RS + 'rangeproof_info'))

grp('ffi.prototypes', Ob('elementstx.core.secp256k1:_set_zkp_func_types', 'spec.ffi_table:prototypes', helper=True))

RP = 'spec.reprs:'
grp('repr.commitment', *[m(C + 'CConfidential' + k, n, RP + s) for k in ('Asset', 'Value', 'Nonce')
                         for n, s in (('__str__', 'commitment_str'),
                                      ('__repr__', 'nonce_repr' if k == 'Nonce'
                                       else 'commitment_repr'))])
grp('repr.asset', m(C + 'CAsset', '__repr__', RP + 'asset_repr'))
grp('repr.records', *[m(C + c, n, RP + s) for c, n, s in (
    ('CElementsTxInWitness', '_repr_or_str', 'inwit_repr'),
    ('CElementsTxOutWitness', '__repr__', 'outwit_repr'),
    ('CElementsTxWitness', '_repr_or_str', 'txwit_repr'),
    ('CAssetIssuance', '_repr_or_str', 'issuance_repr'),
    ('CElementsTxIn', '_repr_or_str', 'txin_repr'),
    ('CElementsTxOut', '_repr_or_str', 'txout_repr'))])
grp('result.str', m(C + 'BlindingFailure', '__str__', RP + 'failure_str'),
    m(C + 'UnblindingFailure', '__str__', RP + 'failure_str'))
grp('repr.blech32', m('elementstx.blech32:CBlech32Data', '__repr__', RP + 'blech32_repr'))

PA = 'spec.params:'
grp('params.names', m('elementstx:ElementsParams', 'get_datadir_extra_name', PA + 'elements_datadir'),
    m('elementstx:ElementsLiquidV1Params', 'get_datadir_extra_name', PA + 'liquid_datadir'),
    m('elementstx:ElementsParams', 'get_network_id', PA + 'network_id'),
    m('elementstx:ElementsLiquidV1Params', 'get_network_id', PA + 'network_id'))
