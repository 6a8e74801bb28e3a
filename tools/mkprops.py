'''Writes /verif/properties.jsonl (the single source of the property texts).'''
import json
import os

P = []


def p(id, title, statement, text, why, files, mech, over=('inputs',),
      observe=None, state=None):
    d = {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe or [],
            'hook_needed': None}}
    if state:
        d['anchors']['state'] = state
    assert len(title) <= 80, title
    P.append(d)


p('N01', 'Integer and byte-string conversions are exact inverses',
  'For every non-negative integer the unpadded little- and big-endian encoders of the utils module give its shortest byte string (one zero byte for 0), the padded encoders give exactly the requested number of bytes or raise OverflowError when the number does not fit, and the two decoders (unsigned or two\'s complement) give back the number. '
  'Reversing endianness reverses every byte string. '
  'The script-number encoder gives the hex of the shortest little-endian two\'s-complement form ("00" for zero).',
  'every integer and byte string up to the stated width, every padding length',
  'tests convert a handful of constants; boundary widths (sign bit, 2^8k) are combinatorial',
  ['riemann/utils.py'],
  [('i2le/i2be/i2le_padded/i2be_padded/le2i/be2i/change_endianness/i2le_script', 'riemann/utils.py')])

p('N02', 'VarInt is the CompactSize codec: shortest, exact, and truncation-proof',
  'Building a VarInt from any integer in [0, 2^64) gives its shortest CompactSize encoding and any other integer is refused. '
  'Parsing takes a VarInt off the front of any byte string: the parsed number is the encoded one, the parsed object\'s bytes (hence its length) are exactly the bytes consumed, a cut-off encoding raises an error, and an over-long encoding is refused on Zcash Overwinter and Sapling and only there. '
  'Copying a VarInt keeps its number.',
  'every integer and every byte string of up to 12 bytes, on every network family',
  'the encoding switches at 0xfd, 2^16, 2^32 and at over-long forms; tests try about ten constants',
  ['riemann/tx/shared.py'],
  [('VarInt.__init__, VarInt.from_bytes', 'riemann/tx/shared.py')])

p('N03', 'ByteData behaves like the byte string it wraps',
  'A ByteData object built from a byte-like value has that value\'s length, items, slices, iteration order, hex, lower- and upper-case format, substring positions and to_bytes. '
  'Appending with += any byte-like value concatenates it and leaves the appended value untouched; ==/!= against bytes, bytearray or ByteData hold exactly when the contents are equal (or differ), and other types are refused with TypeError. '
  'Length validation accepts exactly byte-like values of the required length (any length when none is required) and raises ValueError otherwise.',
  'every content up to the stated length, every operand type, every sequence of a few appends',
  'tests use a few literals', ['riemann/tx/shared.py'],
  [('ByteData', 'riemann/tx/shared.py')], over=('inputs', 'histories'))

p('S01', 'Script text serializes to exactly the script it spells',
  'Serializing a human-readable script gives, token by token and in order, the byte of each opcode name under the selected network (Decred\'s own opcode numbers on Decred) and the shortest length-prefixed push of each hex token (direct up to 75 bytes, one-byte length up to 255, two-byte little-endian length up to 1000). '
  'Tokens that are neither an opcode nor hex raise ValueError; data longer than 1000 bytes, OP_CODESEPARATOR and OP_PUSHDATA4 raise NotImplementedError. '
  'The hex variant gives the hex of the same bytes.',
  'every opcode name, every push content and every push length class, sequences of tokens, every network',
  'tests check a few real scripts; length-class boundaries and per-network opcodes are a large product',
  ['riemann/script/serialization.py', 'riemann/script/opcodes.py', 'riemann/networks/networks.py'],
  [('serialize, hex_serialize', 'riemann/script/serialization.py'),
   ('CODE_TO_INT', 'riemann/script/opcodes.py'),
   ('CODE_TO_INT_OVERWRITE', 'riemann/networks/networks.py')],
  over=('inputs', 'configurations'))

p('S02', 'Script bytes deserialize to the script they contain, or are refused',
  'For every byte string, deserializing either raises or gives text whose tokens are, in order, the pushed data (hex) and the opcode names of that script, consuming it exactly. '
  'A push running past the end raises, as do OP_CODESEPARATOR, four-byte pushes and bytes that are no opcode of the selected network. '
  'Serializing the text of a script whose pushes are all shortest-form and at most 1000 bytes gives back the same bytes.',
  'every byte string up to the stated length (and long pushes at the length-class boundaries), every network',
  'tests decode a few real scripts; truncation and non-standard pushes are exponentially many',
  ['riemann/script/serialization.py', 'riemann/script/opcodes.py', 'riemann/networks/networks.py'],
  [('deserialize, hex_deserialize', 'riemann/script/serialization.py'),
   ('INT_TO_CODE', 'riemann/script/opcodes.py')],
  over=('inputs', 'configurations'))

p('T01', 'Transaction components serialize to the consensus layout and parse back',
  'An outpoint, input, output, witness item or input witness built from any well-formed fields serializes to the consensus layout (fields in order, scripts and stacks prefixed by their CompactSize length) and exposes the fields it was given. '
  'Parsing that serialization, with any bytes following it, gives an object with the same bytes and the same fields (an input\'s script_sig is preserved byte for byte, whatever it contains), except that outputs with scripts of 252 bytes or more are refused. ',
  'all field contents; script and stack lengths including the CompactSize boundaries; arbitrary trailing bytes',
  'tests use components of two real transactions',
  ['riemann/tx/tx.py', 'riemann/tx/shared.py'],
  [('Outpoint, TxIn, TxOut, WitnessStackItem, InputWitness', 'riemann/tx/tx.py')])

p('T02', 'Transactions serialize to the legacy/BIP144 layout and parse back',
  'A transaction built from any well-formed components serializes to version, segwit flag if any, counted inputs, counted outputs, one witness per input if any, and lock time; its witness-free form omits flag and witnesses; it reports being a witness transaction exactly when the flag is set. '
  'Parsing the serialization (bytes or hex) gives a transaction with the same bytes, fields, ids and witness status.',
  'all field contents; several inputs, outputs and witnesses including empty ones; legacy, flagged-unsigned and segwit',
  'tests round-trip a few main-net transactions',
  ['riemann/tx/tx.py'],
  [('Tx.__init__, Tx.from_bytes, Tx.no_witness, Tx.is_witness', 'riemann/tx/tx.py')])

p('T03', 'Parsing arbitrary bytes never reinterprets them',
  'For every byte string, parsing it as a transaction, input, output, outpoint or witness either raises or gives an object whose serialization is exactly a prefix of that byte string. '
  'In particular a transaction that is accepted keeps the id of the bytes it came from.',
  'every byte string up to the stated length',
  'the input space is all byte strings; tests try a handful of valid transactions',
  ['riemann/tx/tx.py', 'riemann/tx/shared.py', 'riemann/script/serialization.py'],
  [('from_bytes of Tx, TxIn, TxOut, Outpoint, WitnessStackItem, InputWitness', 'riemann/tx/tx.py'),
   ('VarInt.from_bytes', 'riemann/tx/shared.py')])

p('T04', 'Transaction ids commit to the right serialization',
  'On every network with plain transactions, tx_id_le is the double SHA-256 of the transaction without flag and witnesses, wtx_id_le (flagged transactions) that of the complete serialization, and tx_id / wtx_id are their byte reversals; legacy transactions have no wtx_id. '
  'Hence changing witnesses never changes the tx_id and changing any other byte does.',
  'all field contents and transaction shapes; pairs of transactions differing anywhere',
  'tests compare a few known ids', ['riemann/tx/tx.py', 'riemann/utils.py'],
  [('Tx.__init__', 'riemann/tx/tx.py'), ('hash256', 'riemann/utils.py')])

p('T05', 'Transaction objects are immutable and isolated from the caller\'s buffers',
  'Once built, no attribute of a transaction object of any chain (component or whole transaction) can be assigned and its serialization never changes. '
  'Mutating the byte buffers or lists that were passed to the constructor afterwards changes neither the object\'s bytes, fields and ids nor any digest or copy later computed from it, and computing digests or copies leaves the object unchanged.',
  'all field contents and all orders of construct, mutate, hash, copy within the bound',
  'aliasing shows only in multi-step histories; tests never mutate inputs after construction',
  ['riemann/tx/shared.py', 'riemann/tx/tx.py', 'riemann/tx/decred.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py', 'riemann/tx/zcash_shared.py'],
  [('ByteData.__setattr__, _make_immutable', 'riemann/tx/shared.py')],
  over=('inputs', 'histories'))

p('T06', 'copy() reproduces the object and overrides exactly the named fields',
  'Copying a transaction, input, output, outpoint or input witness of any chain without arguments gives an equal serialization, equal fields and equal ids. '
  'Copying with overrides gives exactly the object that building from the original fields with those fields replaced would give, and leaves the original unchanged.',
  'all field contents, every overridable field, every chain\'s classes',
  'tests override one or two fields of fixtures',
  ['riemann/tx/tx.py', 'riemann/tx/decred.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py'],
  [('copy methods', 'riemann/tx/*.py')])

p('T07', 'Malformed transaction parts are refused at construction',
  'Building a transaction part with a fixed-size byte field of another length or type, a list member of another class, a script_sig over 1650 bytes, a Decred or Zcash transaction over 100000 bytes, no inputs or no outputs where required, a wrong segwit flag, witnesses without a flag or not one per input, or the part of another chain raises ValueError. '
  'For Zcash this also covers more than 5 joinsplits, both joinsplit values non-zero, an expiry height above 499999999, a transparent-only Sapling transaction with non-zero value balance, missing joinsplit keys or binding signature, and the version rules of Sprout; well-formed parts at those limits are accepted.',
  'all lengths around each required length, all field contents, every constructor',
  'each constructor has many fields and limits; tests probe single bad literals',
  ['riemann/tx/tx.py', 'riemann/tx/shared.py', 'riemann/tx/zcash_shared.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py', 'riemann/tx/decred.py'],
  [('constructors', 'riemann/tx/*.py'), ('validate_bytes', 'riemann/tx/shared.py')])

p('H01', 'Legacy signature hashes follow the original protocol',
  'On legacy transactions of networks without fork id, the SIGHASH_ALL and SIGHASH_SINGLE digests, with and without ANYONECANPAY, of every input equal the double SHA-256 of the protocol\'s modified copy (other script_sigs blanked, signed one replaced by the script; SINGLE: outputs cut after the index with earlier ones nulled, other sequences zeroed; ANYONECANPAY: only that input) followed by the 4-byte hash type. '
  'SIGHASH_SINGLE without a matching output and SIGHASH_NONE are refused.',
  'all field contents, scripts, input indices, several inputs and outputs, parsed as well as built transactions',
  'tests check one or two vectors, all with one input',
  ['riemann/tx/tx.py'],
  [('sighash_all, sighash_single', 'riemann/tx/tx.py')])

p('H02', 'Segwit signature hashes follow BIP143',
  'On transactions carrying the segwit flag (networks without fork id) the SIGHASH_ALL and SIGHASH_SINGLE digests, with and without ANYONECANPAY, of every input equal the BIP143 digest of version, prevouts hash, sequences hash, outpoint, script code, value, sequence, outputs hash, lock time and hash type. '
  'SIGHASH_SINGLE without a matching output is refused.',
  'all field contents, script codes and values, every index, several inputs and outputs',
  'tests check the BIP vectors only', ['riemann/tx/tx.py'],
  [('segwit_sighash and helpers', 'riemann/tx/tx.py')])

p('H03', 'Fork-id signature hashes follow the replay-protected scheme',
  'On networks with a fork id (Bitcoin Cash 0, Bitcoin Gold 79, Bitcoin Private 42) every signature hash, flagged transaction or not, is the BIP143-style digest whose 4-byte hash type is (fork id << 8) | type | 0x40, with 0x80 added for ANYONECANPAY. '
  'A missing or wrongly sized prevout value and SIGHASH_SINGLE without a matching output are refused.',
  'all field contents on all fork-id networks, every type and index',
  'tests check a few vectors on Bitcoin Cash and Gold',
  ['riemann/tx/tx.py', 'riemann/networks/networks.py'],
  [('_sighash_forkid', 'riemann/tx/tx.py'), ('FORKID', 'riemann/networks/networks.py')],
  over=('inputs', 'configurations'))

p('Z01', 'Zcash shielded components follow the protocol layout and parse back',
  'Sprout and Sapling zero-knowledge proofs, joinsplits, shielded spends and shielded outputs serialize to the concatenation of their fields in protocol order, expose those fields, and parse back to equal objects from that serialization followed by any bytes. '
  'The joinsplit hSig values and primary inputs a transaction exposes are the protocol\'s (BLAKE2b-256 over random seed, nullifiers and joinsplit key, personalised "ZcashComputehSig").',
  'all field contents, one to five joinsplits',
  'tests use a few real transactions',
  ['riemann/tx/zcash_shared.py', 'riemann/tx/sapling.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py'],
  [('SproutZkproof, SproutJoinsplit', 'riemann/tx/zcash_shared.py'),
   ('SaplingZkproof, SaplingShieldedSpend, SaplingShieldedOutput, SaplingJoinsplit', 'riemann/tx/sapling.py')])

p('Z02', 'Zcash Sprout, Overwinter and Sapling transactions round-trip exactly',
  'A Sprout, Overwinter or Sapling transaction built from any well-formed parts serializes to its protocol layout (header and version group where applicable, counted vectors, keys and signatures only when joinsplits or shielded parts call for them); its id is the double SHA-256 of that. '
  'Parsing the serialization gives an equal transaction with equal fields, whatever the counts of inputs, outputs, joinsplits, spends and shielded outputs; a wrong header or group id is refused.',
  'all field contents; counts 0..3 of each vector and counts needing a 3-byte CompactSize; both Sprout versions',
  'tests parse a few main-net transactions with small counts',
  ['riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py'],
  [('constructors and from_bytes', 'riemann/tx/{sprout,overwinter,sapling}.py')])

p('Z03', 'Zcash Sprout signature hashes follow the pre-Overwinter protocol',
  'For a Sprout transaction, the SIGHASH_ALL digest is the double SHA-256 of the modified copy (other script_sigs blanked, signed one replaced, joinsplit signature removed) followed by the hash type, and without joinsplits SIGHASH_SINGLE and ANYONECANPAY follow the legacy protocol. '
  'With joinsplits, SIGHASH_SINGLE and ANYONECANPAY are refused, and SIGHASH_SINGLE without a matching output is refused.',
  'all field contents, both versions, every index and type',
  'tests check one vector', ['riemann/tx/sprout.py'],
  [('sighash_all, sighash_single', 'riemann/tx/sprout.py')])

p('Z04', 'Zcash Overwinter signature hashes follow ZIP-143',
  'For every Overwinter transaction, input index and script code, the digest for SIGHASH_ALL or SIGHASH_SINGLE, with or without ANYONECANPAY (and for joinsplits, SIGHASH_ALL), is the ZIP-143 BLAKE2b digest with its personalisations and branch id, through the general entry point and through the per-type ones alike. '
  'ANYONECANPAY with joinsplit signing and SIGHASH_SINGLE without a matching output are refused.',
  'all field contents, every index, type and modifier, transactions with and without joinsplits',
  'tests check the ZIP vectors only', ['riemann/tx/overwinter.py'],
  [('sighash and _hash_* helpers', 'riemann/tx/overwinter.py')])

p('Z05', 'Zcash Sapling signature hashes follow ZIP-243',
  'For every Sapling transaction, input index and script code, the digest for SIGHASH_ALL or SIGHASH_SINGLE, with or without ANYONECANPAY (and for joinsplits or spends, SIGHASH_ALL), is the ZIP-243 BLAKE2b digest (including joinsplits, shielded spends without their signatures, shielded outputs and value balance) with its personalisations and branch id, through the general entry point and through the per-type ones alike. '
  'ANYONECANPAY with joinsplit signing and SIGHASH_SINGLE without a matching output are refused.',
  'all field contents, every index, type and modifier, every mix of transparent and shielded parts',
  'tests check the ZIP vectors only', ['riemann/tx/sapling.py'],
  [('sighash and _hash_* helpers', 'riemann/tx/sapling.py')])

p('D01', 'Decred transactions follow the Decred layout and ids',
  'Decred outpoints, inputs, outputs, witnesses and transactions serialize to Decred\'s layout, and outpoints, inputs and outputs parse back from it with any bytes following, except that outputs with scripts of 252 bytes or more are refused. '
  'A transaction\'s prefix, witness and witness-signing forms carry the 2-byte version and serialization types 1, 2 and 3, their hashes are BLAKE-256 of them, and the transaction id is the reversed prefix hash, independent of witnesses.',
  'all field contents, several inputs, outputs and witnesses, script lengths at CompactSize boundaries',
  'tests use one real transaction', ['riemann/tx/decred.py'],
  [('Decred* classes', 'riemann/tx/decred.py')])

p('D02', 'Decred signature hashes follow the Decred protocol',
  'For every Decred transaction, input and script, the SIGHASH_ALL and SIGHASH_SINGLE digests, with and without ANYONECANPAY, are BLAKE-256 of the 4-byte hash type, the prefix hash and the witness-signing hash of the modified copy (other scripts blanked, signed one replaced; SINGLE: outputs cut after the index with earlier ones nulled, other sequences zeroed; ANYONECANPAY: only that input). '
  'SIGHASH_SINGLE without a matching output and SIGHASH_NONE are refused.',
  'all field contents, every index and type, several inputs and outputs',
  'the existing Decred signature-hash tests are disabled', ['riemann/tx/decred.py'],
  [('sighash_all, sighash_single', 'riemann/tx/decred.py')])

p('A01', 'Addresses and output scripts are exact inverses on every network',
  'On every network, the address of a P2PKH, P2SH or (where supported) P2WPKH or P2WSH output script, in the preferred or legacy form, decodes back to exactly that output script. '
  'A byte string of any other form has no address (ValueError), and every string accepted as an address yields one of those script forms.',
  'every hash, every script form and near-miss byte string, every supported network',
  'about 70 networks times script forms times all hashes; tests sample a few networks',
  ['riemann/encoding/addresses.py', 'riemann/networks/networks.py'],
  [('to_output_script, from_output_script, parse', 'riemann/encoding/addresses.py'),
   ('Network classes', 'riemann/networks/networks.py')],
  over=('inputs', 'configurations'))

p('A02', 'Made addresses commit to the hash of their script or key',
  'On every network, the script-hash address of a script (P2SH, P2WSH, legacy form) and the key-hash address of a public key (P2PKH, P2WPKH, legacy form) are the network\'s encoding of its own prefix and of HASH160 (SHA-256 for P2WSH) of exactly the serialized script or key; parsing such an address gives that payload, its hash extraction gives the hash, and its output script equals the one the output builders make for the same script or key. '
  'Networks without segwit refuse witness addresses.',
  'every key and script content, every network and address kind',
  'tests check fixed strings on a few networks',
  ['riemann/encoding/addresses.py', 'riemann/networks/networks.py', 'riemann/tx/tx_builder.py'],
  [('make_*_address, parse, parse_hash', 'riemann/encoding/addresses.py')],
  over=('inputs', 'configurations'))

p('E01', 'Base58Check encodes and decodes without loss and rejects corruption',
  'Decoding the base58 encoding of any byte string, with or without checksum, gives it back, leading zero bytes included, and the encoding is the standard base-58 numeral. '
  'Decoding accepts exactly strings over the alphabet whose last four bytes are the checksum of the rest, raises ValueError otherwise, and re-encoding an accepted string gives that string; the checksum predicate agrees with decoding.',
  'every byte string and every string over arbitrary characters up to the stated lengths',
  'tests check a few vectors; leading zeros, short strings and bad characters are rarely reached',
  ['riemann/encoding/base58.py'],
  [('encode, decode, to_long, from_long', 'riemann/encoding/base58.py')])

p('E02', 'Bech32 segwit addresses encode and decode without loss, and only valid ones',
  'On every network with a bech32 prefix, encoding any valid witness version and program gives the BIP173 address and decoding it, in lower or upper case, gives the version and program back; programs of invalid length or version have no address. '
  'Decoding accepts a string only if it is not mixed case, has that network\'s prefix, a valid charset, length, checksum and padding, and re-encoding what was accepted gives the same string up to case.',
  'every version, program, prefix and every string up to 90 characters within the bounds',
  'tests check the BIP vectors', ['riemann/encoding/bech32.py'],
  [('encode, decode, segwit_encode, segwit_decode, bech32_*, convertbits', 'riemann/encoding/bech32.py')],
  over=('inputs', 'configurations'))

p('E03', 'Mistyped bech32 and cash addresses are always detected',
  'Replacing up to three data characters of any valid bech32 address by other charset characters (and up to two of any valid cash address) gives a string that does not decode, as does using it under another network\'s prefix. '
  'The same holds for swapping two adjacent different characters.',
  'every valid address of the standard lengths, every set of error positions and error values within the bound',
  'the guarantee is over all codewords and error patterns; tests corrupt single vectors',
  ['riemann/encoding/bech32.py', 'riemann/encoding/cashaddr.py'],
  [('bech32_polymod', 'riemann/encoding/bech32.py'), ('polymod', 'riemann/encoding/cashaddr.py')])

p('E04', 'Cash addresses encode and decode without loss, and only valid ones',
  'On Bitcoin Cash networks, encoding a version byte and hash gives the cashaddr string (prefix, colon, base-32 payload, 40-bit checksum) and decoding it gives the same bytes back, for every payload length. '
  'Decoding accepts a string only if it has the network\'s prefix, charset and a valid checksum and padding, raising ValueError otherwise, and networks without cash addresses refuse both directions.',
  'every payload up to the stated length, every string within the bounds, all Bitcoin Cash networks',
  'tests check a few vectors of one length', ['riemann/encoding/cashaddr.py'],
  [('encode, decode', 'riemann/encoding/cashaddr.py')],
  over=('inputs', 'configurations'))

p('B01', 'Output builders pay exactly the requested script and value',
  'The output and output-script builders give the P2PKH, P2SH, P2WPKH or P2WSH script over exactly HASH160 or SHA-256 of the given key or serialized script, with the value as 8 little-endian bytes (on Decred with script version 0 unless another is given); values outside [0, 2^64) and non-byte keys are refused, and witness outputs are refused on networks without segwit. '
  'The OP_RETURN builder gives a zero-value output whose script is OP_RETURN and one shortest push of the data for up to 77 bytes, and refuses more.',
  'every value, key, script and data length, every network',
  'tests check fixed vectors on one or two networks',
  ['riemann/tx/tx_builder.py'],
  [('make_*_output, make_*_output_script, make_op_return_output', 'riemann/tx/tx_builder.py')],
  over=('inputs', 'configurations'))

p('B02', 'Transaction builders assemble exactly the parts and numbers they are given',
  'Outpoint, input, witness, script-sig, length-prefix and transaction builders (the low-level and the simple interface) give, on every network, that network\'s object with exactly the given parts in order, integers encoded at their fixed little-endian widths, transaction ids reversed from their displayed form where displayed form is accepted, and the segwit flag set exactly when witnesses are requested. '
  'Numbers that do not fit their field are refused.',
  'all field values, all networks, legacy, segwit, Zcash and Decred transactions',
  'tests check fixed vectors; per-network dispatch is mocked',
  ['riemann/tx/tx_builder.py', 'riemann/simple.py'],
  [('make_outpoint, make_*_input, make_witness, make_tx, length_prepend', 'riemann/tx/tx_builder.py'),
   ('output, outpoint, unsigned_input, unsigned_legacy_tx, unsigned_witness_tx', 'riemann/simple.py')],
  over=('inputs', 'configurations'))

p('F01', 'Fees are inputs minus outputs, shielded flows included',
  'For every transaction the calculated fee equals the sum of the given input values (for Decred, of its witness values) minus the sum of its output values; for Zcash plus the joinsplits\' new minus old public values and, on Sapling, plus the signed value balance. '
  'The result is exact for all 64-bit values, including negative results.',
  'all 64-bit values, several inputs, outputs and joinsplits, all transaction classes',
  'tests compute single fixtures',
  ['riemann/tx/tx.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py', 'riemann/tx/decred.py'],
  [('calculate_fee', 'riemann/tx/*.py')])

p('K01', 'BLAKE digests equal the specified function, however the data is fed',
  'For every message the BLAKE-256 digest (and its 224, 384 and 512 siblings) is the one of the BLAKE specification, for every way of splitting the message over successive updates (the last piece may be given to the finalising call), and finalising again returns the same digest; text counts as its UTF-8 bytes. '
  'Salts are used as specified (short ones filled up with zeroes in front, of long ones the last bytes count) and refused once data was given; other digest sizes are refused. '
  'The library\'s hash functions are the named ones for bytes and bytearrays of every length: SHA-256, RIPEMD-160, double SHA-256, HASH160, BLAKE-256 (in place of SHA-256 in Decred\'s double and 160-bit hashes), and BLAKE2b/BLAKE2s with all their keywords.',
  'every message content at lengths around every padding and block boundary, every split',
  'tests check a few vectors; padding cases depend on length modulo the block',
  ['riemann/blake256.py', 'riemann/utils.py'],
  [('BLAKE', 'riemann/blake256.py'), ('sha256, hash160, hash256, blake256, blake2b, blake2s, rmd160', 'riemann/utils.py')],
  over=('inputs', 'histories'))

p('C01', 'Each call obeys the network selected when it is made',
  'After any sequence of network selections, every operation (addresses, opcodes, hashing, builders, signature hashes) behaves as on a fresh process with only the last successful selection; unknown names raise ValueError and leave the selection unchanged. '
  'The reported network and its name are those selected, and every supported name selects its own chain and subnet.',
  'all sequences of selections within the bound, interleaved with operations, over all networks',
  'state carried across switches shows only in multi-step histories; tests reset to main-net',
  ['riemann/__init__.py', 'riemann/networks/__init__.py', 'riemann/networks/networks.py'],
  [('select_network, get_current_network, get_current_network_name', 'riemann/__init__.py'),
   ('SUPPORTED', 'riemann/networks/__init__.py')],
  over=('inputs', 'histories', 'configurations'))

p('Q01', 'Standardness and finality checks decide what they document',
  'The lock-time check accepts exactly when the lock time is at most the best height (below 500,000,000) or the best timestamp (from there on). '
  'The push-only check accepts exactly the scripts made of data pushes, OP_0 and OP_1 to OP_16; the OP_RETURN check exactly zero-value outputs whose script starts with OP_RETURN, decodes, and has at most 80 bytes; the size check exactly transactions of at least 82 witness-free bytes; output types are standard exactly for scripts that have an address on the network, or are pay-to-pubkey (key of 33 or 65 bytes) or up-to-three-key multisig scripts. '
  'A transaction is standard exactly with version 1 or 2, weight of at most 400,000, script sigs of at most 1,650 bytes that only push, at most one OP_RETURN output, and every other output of a standard type and worth at least 550 unless it is P2WPKH. Scripts that do not decode are never accepted.',
  'all lock times, heights and timestamps; every script up to the stated length',
  'tests check a few vectors', ['riemann/networks/standard.py'],
  [('check_final, check_is_standard, check_is_standard_tx, is_push_only, is_op_return, is_standard_output_type, check_tx_size_small', 'riemann/networks/standard.py')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
