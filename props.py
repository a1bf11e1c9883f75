"""The properties: what each states, where it is anchored, which obligations decide it."""

CORE = 'elementstx/core/__init__.py'
SCR = 'elementstx/core/script.py'
SEC = 'elementstx/core/secp256k1.py'
ADR = 'elementstx/liquid_addr.py'
B32 = 'elementstx/blech32.py'
WAL = 'elementstx/wallet.py'
INI = 'elementstx/__init__.py'

P = []


def prop(id, title, statement, quant, why, mech, groups=(), tables=(), over=('inputs',),
         note=''):
    files = []
    for _, w in mech:
        f = w.split(':')[0]
        if f not in files:
            files.append(f)
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, mech=mech,
                  files=files, groups=tuple(groups), tables=tuple(tables),
                  over=list(over), note=note))


prop('C01', 'Confidential commitments: encoding, reading and classification',
     'An asset, value or nonce commitment is null (empty), explicit (prefix 1 and then 32 bytes, '
     'or an 8-byte big-endian signed amount for values) or a 33-byte commitment (prefix 10/11 for '
     'assets, 8/9 for values, 2/3 for nonces), and the null/explicit/commitment/valid predicates '
     'classify by exactly this. Null is written as one zero byte and anything else as its own '
     'bytes; reading consumes exactly what the prefix calls for and refuses every other prefix. '
     'Construction refuses other types and lengths, and conversion from and to an asset id or an '
     'amount is exact and refuses non-explicit contents.',
     'All byte strings, all amounts, all assets, both directions.',
     'Tests build a few explicit and committed values; prefix/length combinations and truncated '
     'streams are an unbounded space.',
     [('commitment base class and three kinds', CORE + ':CConfidentialCommitmentBase'),
      ('asset', CORE + ':CConfidentialAsset'), ('value', CORE + ':CConfidentialValue'),
      ('nonce', CORE + ':CConfidentialNonce')],
     ['commit.asset', 'commit.value', 'commit.nonce', 'commit.conv'], ['table.sizes', 'inherit.commitments'])

prop('C02', 'Witness and issuance records: reader and writer agree on the wire format',
     'Input witnesses are written and read as issuance-amount range proof, inflation-keys range '
     'proof, script witness, peg-in witness; output witnesses as surjection proof, range proof; '
     'asset issuances as blinding nonce, entropy, amount, inflation keys; a transaction witness as '
     'one record per input and then one per output. Reading back what was written gives the same '
     'record, each field under its own name.',
     'All field contents and numbers of inputs and outputs.',
     'The data files hold a few transactions; swapped fields with equal contents or empty proofs go '
     'unnoticed.',
     [('input witness codec', CORE + ':CElementsTxInWitness.stream_serialize'),
      ('output witness codec', CORE + ':CElementsTxOutWitness.stream_serialize'),
      ('witness codec', CORE + ':CElementsTxWitness.stream_serialize'),
      ('issuance codec', CORE + ':CAssetIssuance.stream_serialize')],
     ['inwit.init', 'inwit.codec', 'outwit.init', 'outwit.codec', 'txwit.init', 'txwit.codec',
      'issuance.init', 'issuance.codec', 'commit.asset', 'commit.value', 'commit.nonce'],
     ['inherit.witness'])

prop('C03', 'Input serialisation: issuance and peg-in flags in the outpoint index',
     'An input is written as outpoint hash, 32-bit index, script, sequence, and then its issuance '
     'exactly when it has one; the index carries bit 31 when an issuance follows and bit 30 when '
     'the input is a peg-in, and reading strips these bits and restores both facts. The coinbase '
     'index 0xffffffff carries no flags in either direction, and other indexes that overlap the '
     'flag bits are refused. When written for a signature hash the index carries no flag bits.',
     'All outpoints with index below 2^30-1 (and the coinbase index), issuances and peg-in settings.',
     'Tests use a handful of recorded inputs; the flag combinations, the coinbase exemption and the '
     'signature-hash form are not enumerated.',
     [('input reader', CORE + ':CElementsTxIn.stream_deserialize'),
      ('input writer', CORE + ':CElementsTxIn.stream_serialize'),
      ('flag constants', CORE + ':OUTPOINT_ISSUANCE_FLAG')],
     ['txin.init', 'txin.codec', 'issuance.init', 'issuance.codec', 'issuance.null',
      'commit.value'], ['table.constants', 'table.serrors', 'inherit.txin'])

prop('C04', 'Output serialisation and fee outputs',
     'An output is written and read as asset, value, nonce, script, each landing in the attribute of its '
     'name, and an output built without a field gets the null one (an asset object or plain amount is '
     'taken as explicit). An output is a fee exactly when its script is empty and both its value and asset '
     'are explicit, and is null exactly when every part is null and the script empty.',
     'All outputs.',
     'Recorded transactions cover few shapes of outputs.',
     [('output codec', CORE + ':CElementsTxOut.stream_serialize'),
      ('fee predicate', CORE + ':CElementsTxOut.is_fee')],
     ['txout.init', 'txout.codec', 'txout.fee', 'txout.null', 'commit.conv', 'commit.asset',
      'commit.value', 'commit.nonce'], ['inherit.txout'])

prop('C05', 'Transaction framing: version, witness flag, inputs, outputs, lock time, witness',
     'A transaction is written as signed 32-bit version, a flag byte (1 exactly when a non-null '
     'witness is included, absent in the signature-hash form), inputs, outputs, unsigned 32-bit '
     'lock time, and then the witness padded with empty records to one per input and output. '
     'Reading accepts flags 0 and 1 only, reads a witness exactly under flag 1 and refuses an '
     'all-empty one. Reading back what was written yields an equal transaction, and the '
     'witness-less form is written whenever requested.',
     'All transactions with up to one witness record per input and output.',
     'The data files hold a few dozen valid transactions; malformed flags, short witnesses and extreme '
     'lock times are not among them.',
     [('transaction reader', CORE + ':CElementsTransaction.stream_deserialize'),
      ('transaction writer', CORE + ':CElementsTransaction.stream_serialize')],
     ['tx.codec', 'txwit.init', 'txwit.codec', 'txwit.null', 'inwit.init', 'inwit.codec',
      'inwit.null', 'outwit.init', 'outwit.codec', 'outwit.null', 'txin.codec', 'txout.codec',
      'issuance.codec', 'issuance.null', 'commit.asset', 'commit.value', 'commit.nonce'],
     ['table.serrors', 'inherit.tx'])

prop('C06', 'Segwit v0 signature hash matches the Elements digest for every hash type',
     'The version-0 signature hash is the double SHA-256 of version, prevouts hash, sequence hash, issuance '
     'hash, the input\'s outpoint, script code, amount commitment, sequence, its issuance when present, '
     'outputs hash, lock time and hash type, with each aggregate replaced by zeros as ANYONECANPAY, NONE and '
     'SINGLE require. All integers are encoded with Elements\' widths and signedness. An input index out of '
     'range or a missing amount is refused.',
     'All transactions, input indexes, scripts, amounts and hash types.',
     'Tests sign a few recorded inputs, nearly all SIGHASH_ALL.',
     [('digest', SCR + ':RawElementsSignatureHash')],
     ['sighash.v0', 'txin.codec', 'txout.codec', 'issuance.codec', 'issuance.null',
      'commit.asset/stream_serialize', 'commit.value/stream_serialize',
      'commit.nonce/stream_serialize', 'commit.value/is_null'])

prop('C07', 'Script-level and legacy signature hash entry points',
     'The script methods hash with the script itself as script code and pass transaction, input '
     'index, hash type, amount and signature version through unchanged, with their documented '
     'defaults; the raw form returns hash and error, the plain form turns an error into '
     'ValueError. Pre-segwit hashing ignores the amount and delegates to the Bitcoin algorithm '
     'over the Elements serialisation, and any other signature version is refused.',
     'All arguments of the entry points.',
     'Tests call them with one argument combination.',
     [('entry points', SCR + ':CElementsScript.sighash'),
      ('raw entry point', SCR + ':CElementsScript.raw_sighash'),
      ('legacy branch', SCR + ':RawElementsSignatureHash')],
     ['script.sighash', 'sighash.v0', 'txin.codec', 'txout.codec', 'tx.codec'],
     ['inherit.script'])

prop('C08', 'Taproot signature hash commits to every field the Elements digest requires',
     'The taproot signature hash is the TapSighash/elements tagged hash over the genesis block '
     'hash twice, hash type, version, lock time, and then, as the hash type selects, outpoint '
     'flags, prevouts, spent assets and amounts, spent scripts, sequences, issuances, issuance '
     "proofs, outputs, output witnesses, spend type, the own input's data with its issuance and "
     'proofs or its index, annex hash, the single output with its witness, and in tapscript the '
     'leaf hash, key version and code separator position. Variable-length fields carry their '
     'length prefix. A missing witness record counts as an empty one.',
     'All transactions, hash types, input indexes, annexes and leaf hashes.',
     'Tests check only a few recorded signatures (none with ANYONECANPAY, SINGLE, issuance or annex).',
     [('digest', SCR + ':ElementsSignatureHashSchnorr')],
     ['sighash.taproot#values', 'script.sighash_schnorr', 'txin.codec', 'txout.codec',
      'issuance.codec', 'issuance.null', 'inwit.codec', 'inwit.init', 'outwit.codec',
      'outwit.init', 'commit.asset/stream_serialize', 'commit.value/stream_serialize',
      'commit.nonce/stream_serialize', 'commit.value/is_null'], ['table.taproot'])

prop('C09', 'Taproot signature hash refuses arguments it cannot hash',
     'Taproot hashing refuses an input index out of range, a hash type of the wrong kind, '
     'SIGHASH_SINGLE without an output of that index, a number of spent outputs different from the '
     'number of inputs, an unsupported signature version, genesis, annex or leaf hashes that are '
     'not 32 bytes, and a tapscript hash without leaf hash or code separator position. Everything '
     'else is hashed. The script-level entry point computes the leaf hash of the script itself and '
     'passes all its other arguments through unchanged.',
     'All argument values.',
     'No test exercises the refusals beyond one or two values.',
     [('argument checks', SCR + ':ElementsSignatureHashSchnorr'),
      ('entry point', SCR + ':CElementsScript.sighash_schnorr')],
     ['sighash.taproot#refusals', 'script.sighash_schnorr'])

prop('C10', 'Blech32 strings: checksum, alphabet and regrouping are exact',
     "A blech32 string is the prefix, '1', the 5-bit groups in the bech32 alphabet and a 12-symbol "
     'checksum with the Elements blech32 or blech32m constant; decoding refuses mixed case, '
     'characters outside the alphabet or printable range, bad separator positions, overlong '
     'strings and wrong checksums. Regrouping between 8 and 5 bits is exact and refuses non-zero '
     'or excessive padding. Encoding and then decoding gives back the original version and data.',
     'All strings and all byte strings.',
     'Tests decode a few dozen vectors; a checksum with a wrong constant for rare high bits passes them.',
     [('checksum', ADR + ':blech32_polymod'), ('string decode', ADR + ':blech32_decode'),
      ('regrouping', ADR + ':convertbits')],
     ['blech32.polymod', 'blech32.expand', 'blech32.verify', 'blech32.create', 'blech32.encstr',
      'blech32.decstr', 'blech32.regroup', 'blech32.decode', 'blech32.encode'])

prop('C11', 'Blech32 addresses are accepted only with matching prefix, version and length',
     'A blech32 address is accepted only when its prefix is the expected one, its witness version '
     'is at most 16, the checksum variant fits the version (plain for 0, the m-variant otherwise), '
     'and the payload length is one allowed for that version. The decoded object keeps witness '
     'version and full payload, including the blinding key, and its string form encodes exactly '
     'these. A class with a required version or payload length refuses any other.',
     'All strings and all (prefix, version, payload) combinations.',
     'Vectors sample a few lengths and versions.',
     [('decode', ADR + ':decode'), ('encode', ADR + ':encode'),
      ('data class', B32 + ':CBlech32Data'),
      ('dispatched class', WAL + ':CBlech32DataDispatched')],
     ['blech32.decode', 'blech32.encode', 'blech32.data', 'addr.dispatched',
      'blech32.polymod', 'blech32.expand', 'blech32.verify', 'blech32.create', 'blech32.encstr',
      'blech32.decstr', 'blech32.regroup'], ['table.lengths', 'table.errors'])

prop('C12', 'Confidential and plain addresses convert into each other without loss',
     'A confidential address is the blinding public key followed by the payload of its plain '
     'address: building one from a plain address and a valid key gives the confidential class of '
     'the same kind and chain, and refuses wrong types, invalid keys and mismatched kinds. Its '
     'plain counterpart and its output scripts are those of the payload after the key, and the '
     'blinding key returned is the one given. Output size estimates are the serialised size of an '
     'output of that kind.',
     'All addresses of every kind and chain, all blinding keys.',
     'Tests round-trip a few addresses per class.',
     [('from plain', WAL + ':CCoinConfidentialAddress.from_unconfidential'),
      ('to plain', WAL + ':CCoinConfidentialAddress.to_unconfidential'),
      ('blinding key', WAL + ':CCoinConfidentialAddress.blinding_pubkey')],
     ['addr.confidential', 'addr.plain', 'addr.size', 'addr.dispatched', 'blech32.data'],
     ['table.pairing', 'table.registered', 'table.lengths', 'table.relations', 'table.abstract',
      'inherit.addresses'])

prop('C13', 'Each chain has its own prefixes, parameters and class family',
     'Every address, key and confidential address class of Elements and Liquid uses that chain\'s version '
     'bytes and human-readable prefixes, and belongs to that chain\'s class family, so that strings of one '
     'chain never parse as another\'s. Chain parameters select the matching wallet classes, ports, names '
     'and data directory names.',
     'All address and key classes of both chains; all strings.',
     'Tests parse sample addresses; classes and prefixes not sampled are unconstrained.',
     [('address classes', WAL + ':P2PKHElementsConfidentialAddress'),
      ('key classes', WAL + ':CElementsKey'), ('chain parameters', INI + ':ElementsParams')],
     ['params.names'],
     ['table.prefixes', 'table.relations', 'table.keys', 'table.dispatch', 'table.params',
      'table.registered', 'table.abstract', 'inherit.params'], over=('inputs', 'configurations'))

prop('C14', 'Issued asset, entropy and reissuance token identifiers',
     "Asset entropy is the SHA-256 midstate of the outpoint's double hash followed by the contract "
     'hash; the asset id is the midstate of the entropy followed by zeros, and the reissuance '
     'token id that of the entropy followed by 1 for an explicit or 2 for a confidential issuance. '
     'Arguments of other types or lengths are refused.',
     'All outpoints, contract hashes and entropies.',
     'Tests compare a few recorded ids.',
     [('entropy', CORE + ':generate_asset_entropy'), ('asset id', CORE + ':calculate_asset'),
      ('token id', CORE + ':calculate_reissuance_token')],
     ['issuance.entropy', 'issuance.ids'], ['inherit.asset'])

prop('C15', 'Immutable records, and faithful copies between mutable and immutable',
     'Converting a transaction, input, output, outpoint or witness between its mutable and '
     'immutable form copies every field unchanged and converts nested records to the matching '
     'mutability. Immutable objects never change after construction and do not share caller-owned '
     'mutable byte buffers or lists. Each mutable class is the registered counterpart of its '
     'immutable class.',
     'All records and nestings; all histories of mutation.',
     'Tests mutate a few fields of sample objects.',
     [('copy constructors', CORE + ':CElementsTxIn.from_instance'),
      ('mutable classes', CORE + ':CElementsMutableTransaction')],
     ['inwit.copy', 'outwit.copy', 'txwit.copy', 'txin.copy', 'txout.copy', 'inwit.init',
      'outwit.init', 'txwit.init', 'txin.init', 'txout.init', 'issuance.init',
      'commit.asset/__init__', 'commit.value/__init__', 'commit.nonce/__init__'],
     ['table.mutable', 'rule.setattr', 'inherit.records'], over=('inputs', 'histories'))

prop('C16', 'Record constructors refuse wrong types and out-of-range values',
     'Building an input, output, witness, issuance or commitment from arguments of the wrong type '
     'or length is refused with the documented error instead of producing an object. Arguments of '
     'the right types are accepted, and omitted fields take their null defaults.',
     'All constructor arguments.',
     'Tests pass mostly valid arguments.',
     [('input', CORE + ':CElementsTxIn.__init__'), ('output', CORE + ':CElementsTxOut.__init__'),
      ('witness', CORE + ':CElementsTxInWitness.__init__')],
     ['inwit.init', 'outwit.init', 'txwit.init', 'txin.init', 'txout.init', 'issuance.init',
      'commit.asset/__init__', 'commit.value/__init__', 'commit.nonce/__init__', 'commit.conv'])

prop('C17', 'Null, unspendable and issuance-count predicates',
     'A witness, issuance or output is null exactly when all the parts that make it up are null, '
     "and a script is unspendable exactly when it is empty or Bitcoin's own rule says so. The "
     'issuance count of a transaction adds one for each non-null issued amount and one for each '
     'non-null inflation-keys amount over its inputs. Predicates are methods that refuse use as '
     'bare booleans.',
     'All records.',
     'Tests sample a few records.',
     [('null predicates', CORE + ':CElementsTxInWitness.is_null'),
      ('issuance count', CORE + ':CElementsTransaction.num_issuances'),
      ('unspendable', SCR + ':CElementsScript.is_unspendable')],
     ['inwit.null', 'outwit.null', 'txwit.null', 'issuance.null', 'txout.null',
      'tx.num_issuances', 'script.unspendable', 'commit.asset/is_null',
      'commit.value/is_null', 'commit.nonce/is_null'])

prop('C18', 'Peg-out scripts are recognised exactly',
     'A script is a peg-out exactly when it is OP_RETURN, then a push of a 32-byte genesis hash, '
     'then a non-empty push of the destination script; the pair returned is that hash and that '
     'script. Everything else, including truncated or malformed scripts, is reported as not a '
     'peg-out rather than as an error.',
     'All scripts.',
     'Tests parse at most a couple of scripts.',
     [('peg-out parser', SCR + ':CElementsScript.get_pegout_data')],
     ['script.pegout'])

prop('C19', 'Blinding refuses impossible requests before changing the transaction',
     'Blinding raises or returns a failure when the transaction is immutable, the numbers or types '
     'of descriptors, keys and auxiliary generators do not fit, an issuance or output to blind is '
     'not explicit or already has proofs, an output key is invalid or belongs to a fee output, a '
     'descriptor amount is negative, an already blinded issuance is present, or a reissuance has '
     'inflation keys. These refusals come before any change to the transaction. In strict mode an '
     'incomplete blinding is a failure; otherwise no valid request is refused.',
     'All transactions and argument lists.',
     'The blinding tests need a library not available here; none checks the refusals.',
     [('argument checks', CORE + ':blind_transaction'),
      ('method', CORE + ':CElementsMutableTransaction.blind')],
     ['blind.tx#refusals', 'blind.method'])

prop('C20', 'Blinding changes exactly the requested outputs and issuances',
     'After success every output with a key is replaced by asset and value commitments and the '
     'ephemeral nonce with its range and surjection proofs, every issuance amount with a key by '
     'its commitment and range proof, and everything else is as before. Blinding factors are fresh '
     "randomness except the last output's, which balances the transaction. The result counts the "
     'blinded items and lists one value and one asset blinding factor per output, in order, zero '
     'for those not blinded.',
     'All transactions and argument lists.',
     'The blinding tests need a library not available here.',
     [('blinding', CORE + ':blind_transaction')],
     ['blind.tx#values', 'blind.method'])

prop('C21', 'Value commitments and asset tags bind the stated amount, asset and factors',
     'An asset tag is derived from the asset id and the asset blinding factor and a value commitment from '
     'amount, blinding factor and that tag, through the library, and are serialised to 33 bytes; an asset id '
     'itself maps to the unblinded tag. A failure of the library is an error, never a commitment.',
     'All assets, amounts and factors.',
     'The tests for it need a library not available here.',
     [('asset tag', CORE + ':blinded_asset'), ('value commitment', CORE + ':create_value_commitment'),
      ('asset commitment', CORE + ':CAsset.to_commitment')],
     ['blind.asset', 'blind.value', 'blind.assetcommitment',
      'blind.tx#stores to .nAsset,stores to .nValue,stores to .nAmount'])

prop('C22', 'Surjection proofs use the given inputs and outputs and release their memory',
     'A surjection proof is generated with a fresh seed over the fixed tags of all target assets, '
     'at most three of them used, for the output asset and its blinding factor, from the input and '
     'factor the library picked, and is verified against the same targets before use. When no '
     'proof can be initialised none is returned, any later failure is an error, and the proof '
     'object is released on every path.',
     'All target lists, output assets and library outcomes.',
     'The tests for it need a library not available here; failure paths are never taken.',
     [('surjection proof', CORE + ':generate_surjectionproof'),
      ('aligned arrays', SEC + ':build_aligned_data_array')],
     ['blind.surjection', 'secp.aligned',
      'blind.tx#stores to .surjectionproof,stores to .vtxoutwit'], over=('inputs', 'fault_sequences'))

prop('C23', 'Range proofs commit to value, script, asset and the right rewind nonce',
     'A range proof is made for the value commitment with its amount, last blinding factor and '
     'asset generator, carries asset id and asset blinding factor as message, binds the output '
     "script, uses the chain's exponent and bits unless overridden, and has minimum value 1 for "
     'spendable and 0 for unspendable scripts; it is cut to the length the library reports. The '
     "output nonce is the SHA-256 of the ECDH secret of a fresh ephemeral key and the recipient's "
     'key. Proof information reports what the library found, or nothing when it cannot be parsed.',
     'All amounts, scripts, keys and factors.',
     'The tests for it need a library not available here.',
     [('range proof', CORE + ':generate_rangeproof'),
      ('nonce', CORE + ':generate_output_rangeproof_nonce'),
      ('proof info', CORE + ':CElementsTxOutWitness.get_rangeproof_info')],
     ['blind.rangeproof', 'blind.nonce', 'rangeproof.info', 'script.unspendable',
      'blind.tx#Rangeproof,rangeproof,stores to .nNonce'],
     ['table.core_params'])

prop('C24', 'Every cryptographic library call is declared and its failure honoured',
     'Every function of the blinding library the package uses is declared with the C prototype it '
     'has, argument and result types in order. A library call reporting failure always leads to an '
     'error, a failure result or the documented absence of a value, never to use of its output.',
     'All library outcomes at all call sites.',
     'The library\'s failure returns are never produced in tests.',
     [('prototypes', SEC + ':_set_zkp_func_types'), ('call sites', CORE + ':generate_rangeproof')],
     ['ffi.prototypes', 'secp.handle', 'blind.asset', 'blind.assetcommitment', 'blind.value',
      'blind.rangeproof', 'blind.nonce', 'blind.surjection', 'unblind.pair',
      'rangeproof.info', 'blind.tx#refusals'],
     ['rule.declared'],
     over=('inputs', 'fault_sequences'))

prop('C25', 'Unblinding succeeds only with consistent data and returns what was committed',
     "Unblinding takes the nonce from the ECDH secret of the given key and the output's nonce "
     'commitment (or from the key itself for issuances), rewinds the range proof against the value '
     'commitment, asset generator and script, and succeeds only when the message is an asset id '
     'and factor that reproduce the asset generator and the amount is in money range. On success '
     'asset, amount and both factors are those rewound. Anything inconsistent or malformed gives a '
     'failure result, and wrong argument types are refused.',
     'All keys, commitments, proofs and scripts.',
     'The unblinding tests need a library not available here.',
     [('unblinding', CORE + ':unblind_confidential_pair'),
      ('output method', CORE + ':CElementsTxOut.unblind_confidential_pair')],
     ['unblind.pair', 'unblind.method', 'blind.asset', 'commit.asset', 'commit.value',
      'commit.nonce', 'commit.conv', 'result.descriptor'], ['table.results'])

prop('C26', 'Blinding keys are derived deterministically from master key and script',
     'The blinding key of a script is the HMAC-SHA256 of the script under the secret of the master '
     'blinding key, and the script-level method gives the same key. Keys and scripts of other '
     'types, including Bitcoin scripts, are refused.',
     'All master keys and scripts.',
     'Tests compare at most one vector.',
     [('derivation', CORE + ':derive_blinding_key'),
      ('script method', SCR + ':CElementsScript.derive_blinding_key')],
     ['blind.key', 'script.blindkey'])

prop('C27', 'The cryptographic library is loaded once, from the chosen path',
     'A custom library path is stored only when it names a file, is returned by the getter, and is the one '
     'loaded at first use; loading happens once and later uses get the same handle. The blinding functions '
     'and context are set up exactly when the library has them, and the capability flag says so.',
     'All paths, library kinds and call orders.',
     'Tests run with one library and one order.',
     [('path', INI + ':set_custom_secp256k1_path'), ('handle', SEC + ':get_secp256k1')],
     ['secp.path', 'secp.handle', 'ffi.prototypes'], over=('inputs', 'histories', 'configurations'))

prop('C28', 'Blinding and unblinding results cannot be misread',
     'A success has an empty error and ok true, a failure a non-empty error equal to its message and ok false; '
     'both are properties, and using a result as a boolean raises. An unblinding success gives a descriptor '
     'with exactly its own asset, amount and factors.',
     'All results.',
     'Tests read a few results.',
     [('result classes', CORE + ':BlindingOrUnblindingResult')],
     ['result.bool', 'result.ok', 'result.descriptor', 'result.str'], ['table.results'])

prop('C29', 'Taproot constants and tagged hashes are those of Elements',
     'Taproot trees, tweaks, leaves and signature hashes use the Elements tags (TapTweak/elements, '
     'TapLeaf/elements, TapBranch/elements, TapSighash/elements) and tapscript leaf version 0xc4, and the '
     'script and tree classes belong to the Elements class family, so that Bitcoin taproot data is never '
     'mixed in.',
     'All taproot data.',
     'No test compares with Bitcoin constants.',
     [('parameters', CORE + ':CoreElementsParams')],
     ['script.sighash_schnorr', 'sighash.taproot#values'], ['table.taproot', 'table.dispatch'],
     over=('configurations',))

prop('C30', 'Elements opcodes have their consensus values, without collisions',
     'Each Elements-specific opcode has the value Elements consensus gives it, and no two opcode names of '
     'the module share a value.',
     'All opcodes.',
     'Tests use only a few opcodes.',
     [('opcodes', SCR + ':OP_DETERMINISTICRANDOM')], [], ['table.opcodes'], over=('configurations',))

prop('C31', 'Textual representations show the contents they describe',
     'The textual form of a commitment shows the explicit value or marks it confidential, and its '
     'evaluatable form carries the full bytes; the forms of witnesses, issuances, inputs and outputs list '
     'their fields in constructor order, with null records shown as empty constructor calls. A failure '
     'result prints its class and message.',
     'All records.',
     'Tests compare the text of two objects.',
     [('commitments', CORE + ':CConfidentialCommitmentBase.__repr__'),
      ('records', CORE + ':CElementsTxIn._repr_or_str')],
     ['repr.commitment', 'repr.asset', 'repr.records', 'repr.blech32', 'result.str'], ['table.reprs'])

prop('C32', 'Equality, hashes and transaction ids follow the serialisation',
     'Two records of compatible classes compare equal exactly when they serialise to the same bytes, '
     'equal records have equal hashes, and the hash of a record is the double SHA-256 of its '
     'serialisation. The id of a transaction is that of its form without witness, so that changing '
     'witness data does not change it. These are the same for mutable and immutable forms.',
     'All records and pairs of records.',
     'Tests compare a few recorded transaction ids.',
     [('transaction writer', CORE + ':CElementsTransaction.stream_serialize'),
      ('outpoint', CORE + ':CElementsOutPoint'), ('asset id', CORE + ':CAsset')],
     ['tx.codec/stream_serialize', 'txwit.null', 'inwit.null', 'outwit.null',
      'txin.codec/stream_serialize', 'txout.codec/stream_serialize',
      'issuance.codec/stream_serialize', 'issuance.null', 'inwit.codec/stream_serialize',
      'outwit.codec/stream_serialize', 'txwit.codec/stream_serialize',
      'commit.asset/stream_serialize', 'commit.value/stream_serialize',
      'commit.nonce/stream_serialize'],
     ['inherit.identity'])


NOT_APPLICABLE = []
BY = {p['id']: p for p in P}
