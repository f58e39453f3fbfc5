"""Writes properties.jsonl and MANIFEST.json: python3 tools/describe.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = {'files': ['bitforge/' + f for f in files], 'mechanism': [{'name': n, 'where': 'bitforge/' + w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}, technique, note))


I, H, PR, CF = 'inputs', 'histories', 'programs', 'configurations'

prop('C01', 'Private keys survive every encoding',
     'For every secret from 1 to n-1, network and compression choice, a private key is written as exactly its 32-byte big-endian number, that number in hex, and the Base58Check wallet-import text '
     'with that network\'s prefix and the compression marker. Reading any of these back gives a key with the same secret, network and compression, and two keys share a wallet-import text exactly when all three agree. '
     'A key made without a secret has one from anywhere in that range, drawn from the system\'s entropy, and differs from other generated ones.',
     [I], 'all secrets in [1, n-1] x {livenet, testnet} x {compressed, uncompressed}; any entropy for generated keys',
     'The tests round-trip a few fixed keys; none has leading zero bytes or lies at the ends of the range.',
     ['privkey.py', 'encoding.py', 'utils/encoding.py'], [('PrivateKey.to_wif/from_wif/to_bytes/from_bytes/to_hex/from_hex', 'privkey.py'), ('random_secret', 'privkey.py')],
     'property-based testing against a reference codec, round trips', 'Edge secrets of every byte length exhaustively, the rest sampled; trusts the independent Base58Check/WIF reference in ref/enc.py.')

prop('C02', 'Only valid private keys are accepted',
     'A private key is accepted, as number, 32 bytes, hex text or wallet-import text, exactly when it is well formed (length, alphabet, checksum, network prefix, compression marker) and its secret lies in 1..n-1; '
     'anything else, including any name that is no known network, is refused with the private key\'s own error, never with another exception and never by reading a different key.',
     [I], 'all integers, byte strings and texts, including damaged valid keys and checksummed payloads of every prefix, length and marker',
     'The tests try one bad example per error; whether some other malformed key slips through ranges over all texts.',
     ['privkey.py', 'encoding.py', 'networks.py', 'utils/encoding.py'], [('range check of the secret', 'privkey.py PrivateKey.__new__'), ('length, marker and prefix checks', 'privkey.py PrivateKey.from_wif'), ('checksum', 'utils/encoding.py a2b_hashed_base58')],
     'fuzzing of decoders with structured mutations against a reference decoder', 'Every prefix byte, marker byte and length 0-69 exhaustively; mutations sampled.')

prop('C03', 'Public keys and addresses follow from the secret',
     'For every private key, its public key is the curve point secret*G of secp256k1, written in the compressed (33-byte) or uncompressed (65-byte) form the key calls for, on the key\'s network; '
     'and its address is the network\'s pay-to-key-hash address of RIPEMD160(SHA256(those bytes)).',
     [I], 'all secrets in [1, n-1] x networks x compression, including points whose coordinates begin with zero bytes',
     'The tests compare a handful of known keys; none has a coordinate or hash with leading zero bytes.',
     ['pubkey.py', 'privkey.py', 'address.py', 'utils/ecdsa.py', 'utils/ellipticcurve.py', 'utils/encoding.py'], [('public_pair_for_secret_exponent', 'utils/ecdsa.py'), ('PublicKey.from_private_key/to_bytes', 'pubkey.py'), ('Address.from_public_key', 'address.py')],
     'property-based testing against an independent curve implementation', 'Trusts ref/secp.py (self-tested on published vectors).')

prop('C04', 'Only encodings of curve points are accepted as public keys',
     'A byte string or hex text is accepted as a public key exactly when it is 33 bytes with marker 02/03 or 65 bytes with marker 04, its coordinates are below the field prime, and they are a point of secp256k1; the key read then is that point, with that compression, and is written back as the same bytes. '
     'A pair of coordinates is accepted exactly when it is a reduced point of the curve. Everything else is refused with the public key\'s own error.',
     [I], 'all byte strings, hex texts and coordinate pairs; wrong markers, lengths, parities, off-curve and unreduced coordinates',
     'The tests try a few malformed buffers; acceptance of off-curve or unreduced points ranges over all encodings.',
     ['pubkey.py', 'utils/encoding.py', 'utils/ecdsa.py', 'utils/numbertheory.py'], [('sec_to_public_pair', 'utils/encoding.py'), ('is_public_pair_valid, public_pair_for_x', 'utils/ecdsa.py'), ('PublicKey.__new__', 'pubkey.py')],
     'fuzzing of decoders with structured mutations against a reference decoder', 'All 256 markers, lengths 0-140, unreduced small x exhaustively; points sampled.')

prop('C05', 'Addresses survive every encoding and tell networks and types apart',
     'An address of any 20-byte hash, network and type is written as the network\'s version byte for that type followed by the hash, in binary, hex and Base58Check text, and each form reads back to the same hash, network and type. '
     'The address of a public key is the hash of that key\'s own bytes, the address of a script the hash of that script\'s bytes, on the network asked for. Two addresses share their text exactly when hash, network and type all agree.',
     [I], 'all 20-byte hashes (leading zeros included) x networks x types, all public keys and scripts',
     'The tests use a few fixed addresses without long zero prefixes.',
     ['address.py', 'encoding.py', 'utils/encoding.py', 'networks.py'], [('Address.to_*/from_*', 'address.py'), ('Address.classify_bytes', 'address.py')],
     'property-based testing against a reference codec, round trips', 'Zero prefixes of every length exhaustively; trusts ref/enc.py.')

prop('C06', 'Only valid addresses are accepted',
     'A text, hex string or byte string is accepted as an address exactly when it decodes to 21 bytes (with a correct Base58Check checksum, for text) whose first byte is a version of one of the two networks; '
     'a wrong character, length, version or any flipped bit is refused with the address\'s own error. Building one with a hash that is not 20 bytes, an unknown network or an unknown type is refused likewise.',
     [I], 'all texts, hex strings and byte strings; damaged addresses and checksummed payloads of every version and length',
     'Money sent to a mistyped address is lost; the tests try one or two bad strings.',
     ['address.py', 'encoding.py', 'utils/encoding.py'], [('Address.from_string/from_hex/from_bytes', 'address.py'), ('checksum', 'utils/encoding.py a2b_hashed_base58')],
     'fuzzing of decoders with structured mutations against a reference decoder', 'All 256 versions and lengths 0-70 exhaustively.')

prop('C07', 'Base58 and Base58Check are exact inverses, and checksums are checked',
     'Every byte string, including empty ones and ones with leading zero bytes, is encoded to its standard Base58Check (and plain Base58) text and decoded back unchanged. '
     'Text is decoded exactly when all characters are in the alphabet and the last four bytes are the double-SHA256 checksum of the rest; anything else is refused with the library\'s encoding error, and the validity predicate says the same.',
     [I], 'all byte strings up to 300 bytes and all texts', 'Tests sample one or two strings; zero prefixes and digit-count boundaries are what goes wrong.',
     ['encoding.py', 'utils/encoding.py'], [('b2a_hashed_base58/a2b_hashed_base58', 'utils/encoding.py'), ('encode_base58h/decode_base58h', 'encoding.py')],
     'property-based testing against a reference codec; mutation fuzzing', 'Zero runs to 79 and powers of 58 exhaustively.')

prop('C08', 'Signatures made by a private key are canonical and verify; others do not',
     'For every private key and 32-byte payload, the signature is strict DER with R and S in range and S in the lower half of the order, and verifies for that key\'s public point by the ECDSA equation. '
     'A key\'s own verification accepts such a signature (in canonical DER, with either sign of S) exactly when the ECDSA equation holds for that key and payload, so never one that is altered, has bytes added, is for another payload or for another key. '
     'Signatures of different payloads or by different keys never share a nonce, and nonces come from the whole range, drawn from the system\'s entropy or derived from key and payload.',
     [I], 'all secrets, all 32-byte payloads, all entropy; signatures valid, negated, altered, truncated, arbitrary',
     'Signing is randomised: short or high-bit R and S values that break DER occur once in hundreds of signatures.',
     ['privkey.py', 'signature.py'], [('PrivateKey.sign/verify', 'privkey.py')],
     'property-based testing with steered entropy against an independent ECDSA', 'Entropy is replaced by a seeded stream so that rare signature shapes are produced on purpose; trusts ref/secp.py.')

prop('C09', 'Deterministic signatures follow RFC 6979, and verification is exact',
     'The low-level signing function returns, for every secret and hash value, exactly the (r, s) of ECDSA with the RFC 6979 nonce. The low-level verification accepts (r, s) exactly when both are in 1..n-1 and the ECDSA equation holds, including when the two partial sums are equal or cancel out. '
     'The keys recovered from a valid signature are exactly those that verify it, the signer\'s among them. On groups other than secp256k1 the same holds, also where an x coordinate is beyond the order of the generator.',
     [I], 'all secrets and hash values up to 2^256-1 (also at and above the order), all (r, s) pairs',
     'The tests use a few vectors; hash values above the order, short secrets and degenerate sums are not among them.',
     ['utils/ecdsa.py'], [('deterministic_generate_k, sign, verify, possible_public_pairs_for_signature', 'utils/ecdsa.py')],
     'property-based testing against an independent ECDSA / RFC 6979', 'The nonce generator is also compared for other group orders and hash functions.')

prop('C10', 'Curve and modular arithmetic are exact',
     'Adding, doubling and multiplying points gives the group operation\'s result for all points and scalars (zero, negative where the order is known, at and beyond the order, infinity, equal and opposite points), and a point off the curve is refused. '
     'Modular inverses, square roots modulo odd primes, the lift of an x coordinate to a point of given parity, and integer/byte conversions in both byte orders are exact for all arguments.',
     [I], 'every pair of points and every scalar of small prime-order curves; sampled on secp256k1; primes of every class modulo 8',
     'The tests multiply a few scalars; corner cases (order, infinity, primes = 1 mod 8) are not touched.',
     ['utils/ellipticcurve.py', 'utils/numbertheory.py', 'utils/intbytes.py', 'utils/ecdsa.py'], [('Point.__add__/__mul__/double', 'utils/ellipticcurve.py'), ('inverse_mod, modular_sqrt', 'utils/numbertheory.py'), ('to_bytes/from_bytes', 'utils/intbytes.py')],
     'exhaustive small-curve enumeration plus property-based testing against brute force', 'Exhaustive on small curves; sampled on secp256k1.')

prop('C11', 'HD private derivation follows BIP 32',
     'From any seed of at least 32 bytes, and from any node along any path of plain and hardened steps (hardened by number or by flag), the derived node has exactly BIP 32\'s secret, chain code, depth, index, parent fingerprint and network, and deriving leaves the parent unchanged. '
     'Seeds under 32 bytes and child numbers outside 0..2^32-1 are refused; two masters made from random seeds differ.',
     [I, H], 'all seeds, nodes (secrets with leading zero bytes included), and paths',
     'The published vectors cover a few paths; leading-zero secrets occur once in 256 derivations.',
     ['hdprivkey.py', 'encoding.py'], [('HDPrivateKey.from_seed/derive', 'hdprivkey.py')],
     'property-based testing against an independent BIP 32 implementation', 'Paths of up to 3 steps from arbitrary nodes; trusts ref/bip32.py (BIP 32 vectors).')

prop('C12', 'Public and private HD derivation agree',
     'For every node and non-hardened path, deriving on the public side gives the same node (key, chain code, depth, index, fingerprint, network) as deriving on the private side and then dropping the secret, and it is BIP 32\'s. '
     'A public node refuses hardened children, by number or by flag, and neither its text nor its printed form contains the secret.',
     [I, H], 'all nodes and non-hardened paths', 'The tests follow a few vectors; agreement must hold for all parents.',
     ['hdpubkey.py', 'hdprivkey.py'], [('HDPublicKey.derive', 'hdpubkey.py'), ('HDPrivateKey.to_hd_public_key', 'hdprivkey.py')],
     'property-based testing: commuting diagram plus reference model', 'Paths of up to 3 steps.')

prop('C13', 'Extended keys survive their text form, and bad texts are refused',
     'Every private or public HD node is written as the BIP 32 Base58Check text of its network, and reads back as an equal node. '
     'A text is accepted as a private (public) extended key exactly when it is 78 checksummed bytes with that kind\'s version of a known network and a valid secret (point); damaged texts, other versions, lengths, paddings and out-of-range keys are refused.',
     [I], 'all nodes; all ASCII texts, damaged texts and re-checksummed payloads', 'The tests read back a few published strings and no malformed ones.',
     ['hdprivkey.py', 'hdpubkey.py', 'encoding.py'], [('to_string/from_string', 'hdprivkey.py, hdpubkey.py')],
     'property-based round trips and structured mutation fuzzing against a reference parser', 'Trusts ref/bip32.py.')

prop('C14', 'Scripts and their bytes correspond exactly',
     'Every script made of opcodes 0-255 and pushes (by any push opcode able to carry the data) serialises to its standard bytes, and those parse back to the same instructions, whatever follows or precedes. '
     'A byte string parses exactly when every push it announces is complete, and then serialises to the same bytes; otherwise it is refused with the library\'s error and is never read short. An instruction is accepted exactly when its data fits its opcode.',
     [I], 'all instruction lists (lengths at 75/76, 255/256, 65535/65536), all byte strings', 'The tests parse a few scripts; length boundaries and truncation points are not swept.',
     ['script/script.py', 'script/instruction.py', 'script/opcode.py', 'tools.py'], [('Script.from_bytes/to_bytes', 'script/script.py'), ('Instruction.__new__/to_bytes', 'script/instruction.py')],
     'property-based round trips and fuzzing against a reference parser', 'Boundary lengths exhaustively; trusts ref/script.py\'s parser.')

prop('C15', 'Scripts and their text form correspond exactly',
     'Every script of named opcodes and pushes prints to a text (opcode names; direct pushes as size and 0x-hex; the others with their opcode name first) that parses back to the same script. '
     'A text with an unknown name, a size that does not match its data, missing or non-hex data, or a missing argument is refused with the library\'s error; opcode names and numbers correspond one to one.',
     [I], 'all scripts of named opcodes and pushes; all single-token damages of their texts; all 256 opcodes', 'The tests print a handful of scripts.',
     ['script/script.py', 'script/instruction.py', 'script/opcode.py'], [('Script.from_string/to_string', 'script/script.py'), ('Opcode.from_name/name', 'script/opcode.py')],
     'property-based round trips and token-mutation fuzzing', 'Unassigned opcodes must print, but reading them back is not asserted.')

prop('C16', 'Building scripts pushes exactly the given data, in the shortest form',
     'Pushing any non-empty data chooses the shortest opcode that can carry its length (direct to 75 bytes, then 1-, 2- and 4-byte lengths), and the push carries exactly that data; lengths no opcode can carry are refused. '
     'A script compiled from opcodes, data, small numbers and nested lists is exactly their concatenation. The minimal-push and push-only predicates answer as bitcoind\'s do for every instruction.',
     [I], 'data of all lengths 1-300 and around 65535/65536, lengths to 2^34, all instructions, all schematics', 'The tests push one length per opcode.',
     ['script/instruction.py', 'script/opcode.py', 'script/script.py'], [('Instruction.push_for, is_minimal_push', 'script/instruction.py'), ('Opcode.push_for/const_push_for/var_push_for', 'script/opcode.py'), ('Script.compile, is_push_only', 'script/script.py')],
     'property-based testing against a reference encoder and predicates', 'Empty pushes are left open (listed as open in the project\'s TODO).')

prop('C17', 'Standard scripts are built to their template, recognised, and read back',
     'A pay-to-key-hash or pay-to-script output, the inputs spending them, a data output and an m-of-n redeem script are built with exactly their standard bytes from any key, hash, signatures, script or data; read back from bytes, text or instructions each is recognised as that kind and yields the parts it was built from, in order. '
     'A script of any other opcode structure is not taken for one of these kinds. An input or output made from a script keeps all it was given and is of the kind its script is.',
     [I], 'all keys, hashes, signatures, redeem scripts and data; 1-16 keys with 0-16 signatures; scripts one instruction away from a template', 'The tests build one of each kind.',
     ['script/script.py', 'transaction/input.py', 'transaction/output.py'], [('PayToPubkeyIn/Out, PayToScriptIn/Out, OpReturnOut, RedeemMultisig', 'script/script.py'), ('Script.classify', 'script/script.py'), ('Input.create, Output.create', 'transaction/input.py, transaction/output.py')],
     'property-based round trips; near-miss generation against a template oracle', 'Templates whose push is not 20 bytes long are left open.')

prop('C18', 'Script numbers are encoded minimally and decoded exactly',
     'Every integer is encoded as Bitcoin\'s minimal little-endian sign-magnitude script number, distinct integers distinctly, and decodes back to itself. '
     'Decoding any byte string gives its script-number value (redundant zero bytes and negative zero included), is refused when longer than the size allowed, and, when minimality is required, is refused exactly for strings that are not the minimal encoding.',
     [I], 'all integers to 9 bytes around every byte and sign boundary; all byte strings to 8 bytes with every size limit', 'The tests check a few numbers per boundary.',
     ['encoding.py'], [('encode_script_number, decode_script_number', 'encoding.py')],
     'property-based testing against a reference codec', '-1100..1100 and all boundaries exhaustively.')

prop('C19', 'The script interpreter gives the verdict consensus gives',
     'For every pair of scripts without signature checks and no verification flags, verification succeeds exactly when Bitcoin\'s consensus rules say so: each opcode\'s effect on both stacks, the numeric operand rules, conditionals and branches not taken, disabled and reserved opcodes, early return, stack under- and overflow, and the truth of the final top element. '
     'Only the main stack passes from the first script to the second. (Recorded exception: a multi-byte non-zero element whose first byte is zero counts as false.)',
     [PR, I], 'all pairs of scripts (arbitrary opcode sequences, model-guided programs, nested conditionals) and start stacks', 'The tests run isolated opcodes; programs compose them without bound.',
     ['script/interpreter.py', 'script/opcode.py', 'encoding.py'], [('Interpreter.verify/evaluate/step', 'script/interpreter.py')],
     'differential program fuzzing against a reference interpreter (model-guided generation)', 'Every opcode on a table of start stacks exhaustively; programs sampled. Stack contents are observed by appending comparisons. Trusts ref/script.py (self-tested on Bitcoin Core vectors).')

prop('C20', 'Script resource limits hold exactly',
     'A script of more than 10000 bytes, a pushed element of more than 520 bytes, more than 201 counted operations in one script (keys of a multisig check included), more than 1000 elements on the two stacks together, or a numeric operand of more than 4 bytes fails verification, and one exactly at the limit does not. '
     'Pushes, small numbers and reserved words are not counted as operations, and counts start afresh in each script.',
     [PR], 'scripts at, below and above each limit, reached by each operation that can reach it', 'No test is near a limit.',
     ['script/interpreter.py'], [('limit checks', 'script/interpreter.py Interpreter.evaluate/step')],
     'boundary-directed program generation against a reference interpreter', 'Each limit at -1/0/+1 exhaustively for each way of reaching it.')

prop('C21', 'Verification flags enforce exactly their rule',
     'Each verification flag refuses exactly what its rule refuses and changes no other verdict: minimal pushes and minimal numbers, push-only first scripts, the empty multisig dummy, discouraged no-ops, and lock-time checks against the transaction\'s lock time and the input\'s sequence number (with the flag off these are no-ops). '
     'Flags about signature encoding change nothing where no signature is checked.',
     [PR, CF], 'all flag sets x scripts, operands in every encoding, transactions with lock times and sequence numbers at every boundary', 'The tests exercise flags one at a time on one script.',
     ['script/interpreter.py', 'script/instruction.py', 'encoding.py'], [('flag checks', 'script/interpreter.py')],
     'differential program fuzzing over flag sets against a reference interpreter', 'Trusts ref/script.py.')

prop('C22', 'Pay-to-script-hash spends run the redeem script, and only then',
     'With the P2SH flag, an output of exactly the form HASH160 <20 bytes> EQUAL is satisfied exactly when the first script only pushes data, the last element hashes to that value, is itself a script, and succeeds on the elements below it under the ordinary limits; without the flag, or for any other form of output, the hash comparison alone decides. '
     'A redeem script that is itself of that form is not run a second time.',
     [PR, CF], 'redeem scripts (programs, arbitrary bytes, at the size limits), arguments, right and wrong hashes, near-miss templates, flags', 'The tests hardly touch P2SH evaluation.',
     ['script/interpreter.py', 'script/script.py'], [('P2SH evaluation', 'script/interpreter.py Interpreter.verify'), ('is_script_hash_out', 'script/script.py')],
     'differential program fuzzing against a reference interpreter', 'Trusts ref/script.py.')

prop('C23', 'No spend is accepted without a valid signature',
     'A script whose outcome depends on a signature check never verifies unless consensus accepts it: not with a missing, damaged, foreign, reordered or garbage signature, nor under a negated check, in the open or behind P2SH; bad key and signature counts fail. '
     'A multisig check that needs no signature, and checks in branches not taken, are judged exactly. (Recorded exception: scripts that do need a signature are always refused, valid or not.)',
     [PR, I], 'P2PKH, bare key and m-of-n spends with valid and invalid signatures, all operand stacks', 'The tests have no signature spends through the interpreter.',
     ['script/interpreter.py'], [('CHECKSIG / CHECKMULTISIG handling', 'script/interpreter.py')],
     'differential fuzzing of signed spends against a reference interpreter', 'Trusts ref/script.py, ref/secp.py, ref/tx.py.')

prop('C24', 'Verification is a pure, total function of its arguments',
     'Verifying any two scripts that parse, with any flags, returns true or false and never raises. The verdict depends only on the two scripts, the transaction, the input position and the flags: not on earlier verifications by the same or another interpreter, their order or their outcome. '
     'Verifying changes neither the scripts nor the transaction.',
     [H, PR], 'histories of verifications on shared and fresh interpreters, in any order; arbitrary scripts', 'The interpreter keeps its state in the object; tests use a fresh one per call.',
     ['script/interpreter.py'], [('Interpreter.verify (initialisation of state)', 'script/interpreter.py')],
     'stateful history testing with a reference model', 'Histories of 2-8 verifications.')

prop('C25', 'Transactions, inputs and outputs correspond exactly to their bytes',
     'Every transaction, input and output with fields in range serialises to Bitcoin\'s wire format (binary and hex) and reads back with the same fields, for any number and length of its parts. '
     'The transaction id is the byte-reversed double SHA256 of those bytes, and two transactions that differ in any field have different bytes and ids.',
     [I], 'any version, lock time, previous ids, indexes, sequences, amounts to 2^64-1, scripts of every length class; up to 300+ and 65535+ inputs or outputs', 'The tests use one or two transactions with round numbers.',
     ['transaction/transaction.py', 'transaction/input.py', 'transaction/output.py', 'tools.py', 'encoding.py'], [('to_bytes/from_bytes', 'transaction/*.py'), ('get_id', 'transaction/transaction.py')],
     'property-based round trips against a reference serialiser', 'Count-encoding boundaries exhaustively; trusts ref/tx.py.')

prop('C26', 'Malformed transactions are refused',
     'Bytes or hex that end before the transaction, input or output they announce does are refused with the library\'s error, as are texts that are not hex; bytes altered anywhere read as exactly what they then say, or are refused. '
     'A transaction without inputs or outputs, with something else in their place, or with a lock time that is not 32 bits is refused when built, and a field that does not fit its width is never written as another number.',
     [I], 'valid transactions cut at every length, altered in any byte, with lying counts; arbitrary bytes and texts; constructor arguments out of range', 'The tests decode no malformed transaction.',
     ['transaction/transaction.py', 'transaction/input.py', 'transaction/output.py', 'tools.py', 'encoding.py'], [('Buffer.read', 'tools.py'), ('Transaction.__new__ checks', 'transaction/transaction.py'), ('encode_int range check', 'encoding.py')],
     'mutation fuzzing against a reference parser', 'Every cut length of a small transaction exhaustively; trailing bytes after a complete transaction are left open.')

prop('C27', 'Signed pay-to-key-hash inputs satisfy consensus',
     'Signing an input paying to a key hash with its private key (all-inputs, all-outputs type) yields a transaction in which that input, and every other signed one, satisfies its output under Bitcoin\'s rules, with all strict flags, in whatever order the inputs are signed and from whichever end their position is counted, and nothing but the script of that input changes. '
     'The signature commits to the rest of the transaction (moved to one that differs in any version, input, output, sequence or lock time, it no longer verifies), and signing with a number of keys other than one, or an input of unknown kind, is refused. (Recorded exception: other signature-hash types.)',
     [I, H], 'transactions of any shape, any keys, networks and compression, signing orders', 'The tests sign one fixed transaction.',
     ['transaction/transaction.py', 'transaction/input.py', 'privkey.py', 'script/script.py'], [('Transaction.sign', 'transaction/transaction.py'), ('AddressInput.sign', 'transaction/input.py')],
     'property-based testing judged by a reference interpreter and signature hash', 'Trusts ref/script.py, ref/tx.py, ref/secp.py; entropy seeded.')

prop('C28', 'Signed multisig and script inputs satisfy consensus',
     'Signing an m-of-n multisig input with m of its keys, in key order, yields an input that satisfies, under Bitcoin\'s rules with all strict flags, the pay-to-script output made for the same keys and m; signing an input with any other redeem script puts the empty dummy, one signature per key in the order given and then the script itself. '
     'The rest of the transaction is unchanged. (Recorded exception: other signature-hash types.)',
     [I], '1 <= m <= n <= 4 (and up to 15 keys), keys compressed or not, any subset of signers, other inputs and outputs arbitrary', 'The tests sign one 2-of-3 example.',
     ['transaction/transaction.py', 'transaction/input.py', 'transaction/output.py', 'script/script.py'], [('ScriptInput.sign, MultisigInput.create', 'transaction/input.py'), ('Transaction.sign', 'transaction/transaction.py')],
     'property-based testing judged by a reference interpreter and signature hash', 'Trusts ref/script.py, ref/tx.py, ref/secp.py.')

prop('C29', 'The question whether keys can sign is answered correctly',
     'A key-hash input says it can be signed by a list of private keys exactly when the list is the single key whose hash it pays to; an m-of-n multisig input exactly when the list holds m distinct keys that are all among its own, in any order. The network of the keys makes no difference; a key in its other form (compressed or not) is another key. Asking changes neither the input nor the list.',
     [I], 'right, wrong, repeated, missing and extra keys; any m and n; both networks', 'The tests ask once with the right keys.',
     ['transaction/input.py'], [('can_sign', 'transaction/input.py')],
     'property-based testing against a set model', 'Keys of differing compression and the order of multisig keys are left open.')

prop('C30', 'Integers, variable-length integers, hex and buffers are exact',
     'Every non-negative integer is written in the bytes, order and width asked for and read back unchanged; one that is negative or does not fit is refused, never truncated. Variable-length integers take their shortest form up to 2^64-1 and read back; hex text is read exactly when it is pairs of hex digits. '
     'A byte buffer returns bytes in the order written and refuses to read more than it holds, leaving what is there.',
     [I, H], 'all integers to 80 bits x widths x byte orders; all byte strings; histories of reads and writes', 'The tests check a few values per function.',
     ['encoding.py', 'tools.py'], [('encode_int, decode_int, encode_varint, decode_hex', 'encoding.py'), ('Buffer', 'tools.py')],
     'property-based round trips; stateful buffer testing against a byte-queue model', 'Boundaries exhaustively.')

prop('C31', 'Amounts are converted between units without losing a satoshi',
     'Any whole number of satoshis from 0 to 21 million bitcoins, given in satoshis, bits, millibits or bitcoins (whole, or a decimal fraction as a float), is held as exactly that integer, and its value in each unit is the nearest representable one, so that reading it back in any unit gives the same amount and larger amounts have larger values. '
     'Conversion to and from money at a rate is right to half a satoshi and float precision.',
     [I], 'all amounts 0..21e14 satoshis x units; prices and rates', 'Float rounding loses a satoshi for a fraction of a percent of amounts; the tests use round ones.',
     ['unit.py'], [('Unit.__init__ and properties', 'unit.py')],
     'property-based testing against exact rational arithmetic', '0..1499 exhaustively, the rest sampled; fractions of a satoshi are left open.')

prop('C32', 'Payment URIs carry exactly the request, and invalid ones are refused',
     'A payment request with any valid address, amount, label, message and further parameters (any characters) is written as a bitcoin: URI with a plain decimal amount, is valid, and reads back as the same request; so does the same request written by others with parameters in another order or escaping. '
     'The validity check answers true or false for every text, and true exactly when the text can be read; an invalid address or an amount that is no number makes it false.',
     [I], 'all addresses x amounts 0..21e14 x parameter texts; all texts', 'The tests read a few URIs and write two.',
     ['uri.py', 'unit.py', 'address.py'], [('URI.__init__/to_uri/is_valid/parse', 'uri.py')],
     'property-based round trips and fuzzing', 'Amounts that are numbers but no exact number of satoshis are left open.')

prop('C33', 'The signature-encoding check accepts exactly strict DER',
     'The signature-encoding check accepts a byte string exactly when it is a strict-DER signature followed by one hash-type byte as defined by BIP 66 (sizes, tags, lengths, no negative or padded integers), and answers for every byte string without raising.',
     [I], 'canonical signatures, single-byte alterations, DER-like assemblies, arbitrary bytes', 'The tests use a few signatures of each kind.',
     ['signature.py'], [('validate_signature', 'signature.py')],
     'structured fuzzing against a reference predicate', 'Trusts the BIP 66 predicate in ref/script.py.')

prop('C34', 'Keys, addresses, scripts and transactions behave as immutable values',
     'Two keys, addresses, opcodes, instructions, scripts, inputs, outputs, transactions or HD nodes built from the same data by any route compare equal, hash alike and print; ones that differ in any part compare unequal, as do they and objects of other kinds, without raising. '
     'Their fields cannot be reassigned, and no operation (encoding, deriving, signing, replacing parts) changes an existing one, or the lists and buffers it is given.',
     [I, H], 'pairs of values equal or differing in one field; histories of operations', 'The tests compare few objects.',
     ['privkey.py', 'pubkey.py', 'address.py', 'networks.py', 'hdprivkey.py', 'hdpubkey.py', 'script/*.py', 'transaction/*.py'], [('namedtuple bases, __eq__/__hash__', 'script/opcode.py, script/instruction.py and the classes')],
     'metamorphic property-based testing', 'Sampled.')

prop('C35', 'Refusals are library errors with readable messages',
     'When a constructor or decoder of keys, addresses, opcodes, instructions, scripts, transactions, inputs, outputs, buffers, networks or encodings refuses its argument, it raises the error type documented for that class (always one of the library\'s own), whose text, message and representation can be printed and say something, whatever characters or values the argument holds; the counts and values the error gives (bytes wanted and left, keys needed and given, lengths, numbers out of range) are the true ones.',
     [I], 'every constructor and decoder x arbitrary, damaged and hostile arguments (braces, percent signs, any character)', 'The tests check the type of a few errors and never print one.',
     ['errors.py', 'privkey.py', 'pubkey.py', 'address.py', 'networks.py', 'encoding.py', 'tools.py', 'script/*.py', 'transaction/*.py'], [('BitforgeError', 'errors.py'), ('Error classes', 'each class')],
     'fuzzing of all entry points with an error oracle', 'Sampled over about 50 entry points; arguments of the right Python type unless the call documents an error for others.')

prop('C36', 'Outputs pay exactly whom and what they say',
     'An output made for an address, redeem script, list of keys with m, or data carries exactly the given amount (zero for data) and the standard script paying that key hash, the hash of that script, the hash of that m-of-n redeem script, or holding that data; it serialises and reads back as that kind. '
     'A script address is refused where a key hash is paid, and data over 80 bytes is refused. Making an output from any script keeps its bytes.',
     [I], 'all hashes, networks, scripts, 1-16 keys with 0-16 signatures, data of 1-300 bytes, amounts to 2^64-1', 'The tests make one output of each kind.',
     ['transaction/output.py', 'script/script.py'], [('AddressOutput, ScriptOutput, MultisigOutput, DataOutput, Output.create', 'transaction/output.py')],
     'property-based testing against reference scripts', 'Data lengths 1-299 exhaustively.')

prop('C37', 'The low-level key, address and hash helpers agree with the standards',
     'The low-level helpers give the standard hashes (SHA256, SHA1, RIPEMD160, HASH160, double SHA256), wallet-import texts, point encodings and key-hash addresses for every argument, and read them back. '
     'Their decoders and validity predicates accept exactly well-formed texts of the allowed prefixes and encodings of points on the curve, and answer for every text.',
     [I], 'all secrets, points, prefixes, byte strings; good, damaged and arbitrary texts', 'The helpers are hardly tested directly.',
     ['utils/encoding.py', 'encoding.py'], [('wif_*, public_pair_to_*, *_bitcoin_address*, hash160, double_sha256', 'utils/encoding.py')],
     'property-based testing against a reference codec', 'Trusts ref/enc.py and hashlib.')

prop('C38', 'Networks are told apart everywhere',
     'The two networks have Bitcoin\'s published version bytes, extended-key versions, magic numbers and ports; looking one up by any attribute finds exactly the network with that value there, and otherwise is refused (or yields nothing on request). '
     'A key, address or HD node keeps its network through every conversion, and none can be made for an unknown network.',
     [I, CF], 'every attribute of both networks, right and wrong values; all conversions of keys and nodes', 'The tests use few conversions on testnet.',
     ['networks.py', 'privkey.py', 'pubkey.py', 'address.py', 'hdprivkey.py', 'hdpubkey.py'], [('networks.find', 'networks.py'), ('network fields', 'each class')],
     'exhaustive attribute table plus property-based testing', 'Attributes exhaustively.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': './setup',
         'checks': [{'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': t, 'level': 'exploration', 'level_note': n} for p, t, n in P],
         'not_applicable': [],
         'notes': 'Pure Python: the checks import the library straight from /repo, with bytecode caches off. No hooks. Hypothesis comes from /opt/veriftools. DESIGN.md describes the machinery; known_findings.json the defects recorded and repaired.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
