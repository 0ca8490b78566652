import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
B='bip39/bip39.go'; K='bip32/bip32.go'; KU='bip32/utils.go'; KP='bip32/path.go'; KR='bip32/reg_ver_bytes.go'; U='util/util.go'; UK='util/key_path.go'
p('B01','Mnemonic encode/decode round trip',
 'For every entropy of 16, 20, 24, 28 or 32 bytes, and for every active list of 2048 distinct non-empty whitespace-free words, encoding the entropy as a mnemonic succeeds and decoding that mnemonic returns exactly the same bytes, leading zero bytes included.',
 ['inputs','configurations'],'all 2^128 + ... + 2^256 entropies, all admissible word lists',
 'Tests round-trip a few thousand random entropies with the English list; a loss that depends on particular bits (leading zeros, a checksum bit, one length) is almost never sampled.',
 [B],[('NewMnemonic',B),('EntropyFromMnemonic',B),('addChecksum / padByteSlice',B)],observe=['NewMnemonic','EntropyFromMnemonic'])
p('B02','Mnemonic encoding follows BIP-39',
 'The mnemonic of an n-byte entropy (n = 16, 20, 24, 28, 32) consists of 3n/4 words joined by single spaces, and word i is the entry of the active list numbered by bits 11i to 11i+10 of the entropy followed by the first n/4 bits of its SHA-256. Every other entropy length is refused with the entropy-length error and yields no mnemonic.',
 ['inputs','configurations'],'all byte strings as entropy, all admissible word lists',
 'Tests compare 24 published vectors and try one bad length.',
 [B],[('NewMnemonic',B),('addChecksum',B),('validateEntropyBitSize',B)],observe=['NewMnemonic'])
p('B03','Mnemonic decoding accepts exactly the valid sentences',
 'A sentence is accepted if and only if it has 12, 15, 18, 21 or 24 whitespace-separated words, all of them in the active list, and its trailing checksum bits equal the leading bits of the SHA-256 of the entropy bits before them; the decoded entropy is then exactly those entropy bits. Hence two accepted sentences with different words never decode to the same entropy, and the validity predicate agrees with the decoder.',
 ['inputs','configurations'],'all strings as mnemonic, all admissible word lists',
 'Tests try 16 hand-written bad sentences; the accept set has about 2^256 members and the reject set is unbounded, and each word count has its own checksum mask and shift.',
 [B],[('EntropyFromMnemonic',B),('splitMnemonicWords',B),('checksum mask and shift tables',B)],
 [('checksum tables','mask and divisor per word count',B)],['EntropyFromMnemonic','IsMnemonicValid'])
p('B04','Checksummed byte form of a mnemonic',
 'Converting a valid mnemonic to bytes yields, in raw mode, its entropy, and otherwise the big-endian number entropy followed by checksum bits, left-padded to exactly the entropy length plus one byte, however the words are separated by whitespace. An invalid mnemonic yields an error and no bytes.',
 ['inputs','configurations'],'all strings as mnemonic, both modes, all admissible word lists',
 'Tests only check that no error is returned for single-space mnemonics; length and content of the padded form are never compared.',
 [B],[('MnemonicToByteArray',B),('addChecksum',B),('padByteSlice',B)],observe=['MnemonicToByteArray'])
p('B05','Seed stretching and its validity gate',
 'The seed of a mnemonic and passphrase is PBKDF2-HMAC-SHA512 of exactly the given mnemonic bytes with salt "mnemonic" followed by the passphrase bytes, 2048 iterations, 64 bytes. The checked variants (bytes, and hex text) return that same seed if and only if the mnemonic is valid, and an error with no seed otherwise.',
 ['inputs','configurations'],'all strings as mnemonic and passphrase, all admissible word lists',
 'Tests compare 24 vectors with one passphrase; the hex variant in the util package has no test at all.',
 [B,U],[('NewSeed',B),('NewSeedWithErrorChecking',B),('DeriveSeedFromMnemonic',U)],observe=['NewSeed','NewSeedWithErrorChecking','DeriveSeedFromMnemonic'])
p('B06','Shipped word lists are the BIP-39 lists',
 'Each of the ten shipped word lists has exactly 2048 pairwise distinct, non-empty, whitespace-free words, in the order of the official BIP-39 file for its language, and the list active by default is the English one.',
 ['configurations'],'ten lists of 2048 entries, every index',
 'The tests read only the English list; the start-up checksums are literals beside the data and guard the raw text, not the list that is exported.',
 ['bip39/wordlists/english.go','bip39/wordlists/japanese.go',B],[('list construction and start-up checksum','bip39/wordlists/*.go'),('init',B)],observe=['wordlists.*','GetWordList'])
p('B07','Active word list and reverse index agree',
 'After any list of distinct words has been made active, the active list is that list, looking up its i-th word returns i, and every string not in it is reported absent, whatever list was active before.',
 ['inputs','histories'],'all lists of distinct words of any length, all sequences of list switches, all query strings',
 'Tests never switch the list; they query the English list and five absent words.',
 [B],[('SetWordList',B),('GetWordIndex',B),('GetWordList',B)],[('active list / reverse map','words and their index',B)],['SetWordList','GetWordIndex','GetWordList'])
p('B08','Fresh secrets come entirely from the system random source',
 'Fresh entropy has exactly the requested size (128, 160, 192, 224 or 256 bits, every other size refused), fresh seeds have 256 bytes, a fresh mnemonic has the requested 12, 15, 18, 21 or 24 words (every other count refused), and every byte of them comes from the operating system random source. If that source fails, an error is returned.',
 ['inputs','fault_sequences'],'all sizes and word counts, all outputs and failures of the random source',
 'Tests check sizes only, with a source that never fails; nothing checks that every byte is filled or that a failure is reported.',
 [B,K,U],[('NewEntropy',B),('NewSeed',K),('GenerateMnemonic',U)],observe=['NewEntropy','bip32.NewSeed','GenerateMnemonic'])
p('K01','Master key generation follows BIP-32',
 'The master key of any seed has private scalar and chain code equal to the left and right halves of HMAC-SHA512 keyed with "Bitcoin seed" over the seed, depth zero, zero parent fingerprint, zero child number and the Bitcoin main-net private version. A left half that is zero or not below the curve order is refused with an error and no key.',
 ['inputs'],'all seeds of any length',
 'Tests compare six seeds; the refusal branch is unreachable by sampling (probability about 2^-127).',
 [K,KU],[('NewMasterKey',K),('ValidatePrivateKey',KU)],observe=['NewMasterKey'])
p('K02','Private child derivation follows BIP-32',
 'For every private extended key and every index, with I = HMAC-SHA512 keyed with the chain code over (0x00, private key, index) for hardened and (compressed public key, index) for other indexes, the child private key is (left half of I + parent private key) mod n as 32 bytes and the child chain code is the right half of I. A left half not in 1..n-1 or a zero child key is refused with an error, never returned as a key.',
 ['inputs'],'all 2^512 (private key, chain code) pairs, all 2^32 indexes',
 'Tests derive eleven keys; carries, short sums (leading zero bytes), reduction modulo n and the refusal branches are data-dependent and rare.',
 [K,KU],[('NewChildKey',K),('getIntermediary',K),('addPrivateKeys',KU),('ValidatePrivateKey',KU)],observe=['Key.NewChildKey'])
p('K03','Public child derivation follows BIP-32',
 'For every valid public extended key and every non-hardened index, with I = HMAC-SHA512 keyed with the chain code over (public key, index), the child public key is the compressed point (left half of I)*G + parent point and the child chain code is the right half of I. A left half not in 1..n-1 or a point at infinity is refused with an error, never returned as a key.',
 ['inputs'],'all public keys, chain codes and 2^31 indexes',
 'Tests derive twenty children of one key; padding of short coordinates and the choice of square root are data-dependent.',
 [K,KU],[('NewChildKey',K),('addPublicKeys',KU),('ExpandPublicKey / compressPublicKey',KU)],observe=['Key.NewChildKey'])
p('K04','Public and private derivation commute',
 'For every private extended key with a registered version and every non-hardened index, converting the child to its public form gives, byte for byte, the extended key obtained by deriving that child from the public form of the parent; one succeeds exactly when the other does.',
 ['inputs'],'all private keys with registered versions, all 2^31 non-hardened indexes',
 'The tests never compare the two routes for the same key; a watch-only wallet depends on it for every key.',
 [K,KU,KR],[('NewChildKey both branches',K),('PublicKeyExtended',K),('point arithmetic helpers',KU)],observe=['Key.NewChildKey','Key.PublicKeyExtended'])
p('K05','Public keys cannot make hardened children or reveal private keys',
 'Deriving a hardened child from a public extended key always fails with the dedicated error and yields no key. A public extended key reports no private key text, and everything obtained from it is public and computed from public data only.',
 ['inputs'],'all public extended keys, all indexes',
 'Tests try three indexes on one key.',
 [K],[('NewChildKey guard',K),('PrivateKeyHex',K),('PublicKeyExtended',K)],observe=['Key.NewChildKey','Key.PrivateKeyHex'])
p('K06','Public form of an extended key',
 'The public form of a private extended key carries the 33-byte compressed point of its private scalar (prefix 2 or 3 by parity, x left-padded to 32 bytes), the public version paired with its version (Bitcoin main net if unregistered), and the parent\'s depth, fingerprint, child number and chain code unchanged. A public extended key with a registered version is its own public form, and the public-key text is the hex of that same point for both forms.',
 ['inputs'],'all 78-byte extended keys',
 'Tests cover thirteen keys of one version; a short x coordinate appears once in 256 keys.',
 [K,KU,KR],[('PublicKeyExtended',K),('PublicKeyHex',K),('compressPublicKey',KU)],observe=['Key.PublicKeyExtended','Key.PublicKeyHex'])
p('K07','Child metadata and depth limit',
 'Every derived child records depth parent+1, the index as big-endian child number, and as fingerprint the first four bytes of RIPEMD160(SHA256(parent compressed public key)), and it is private exactly when its parent is. A key at depth 255 has no children: derivation fails instead of wrapping to depth zero.',
 ['inputs','histories'],'all extended keys, all depths, all indexes',
 'Test chains are at most five deep, so no test goes near the one-byte depth limit.',
 [K],[('NewChildKey',K)],observe=['Key.NewChildKey'])
p('K08','Serialization format and round trip',
 'Every valid extended key serializes to 82 bytes: its 78 bytes (version, depth, fingerprint, child number, chain code, key data) followed by the first four bytes of their double SHA-256, and its text form is the base58 of those. Reading either form back returns exactly the same key, and an all-zero key has no serialized form.',
 ['inputs'],'all 78-byte keys',
 'Tests round-trip about twenty keys.',
 [K,KU],[('Serialize / B58Serialize',K),('Deserialize / B58Deserialize',K),('AddChecksumDblSha256ToBytes',KU)],observe=['Key.Serialize','Deserialize','B58Deserialize'])
p('K09','Damaged or invalid extended keys are never imported',
 'Importing fails with an error for every input that is not exactly 82 bytes, for every input whose last four bytes differ from the double-SHA-256 checksum of the rest, for private key data outside 1..n-1, and for public key data that is not the compressed encoding of a curve point. Every other input is accepted with exactly its first 78 bytes, and the key validity predicate agrees with import.',
 ['inputs'],'all byte strings and all texts',
 'Tests try three bad strings; none has bad key material with a correct checksum.',
 [K],[('Deserialize',K),('B58Deserialize',K),('IsValid',K)],observe=['Deserialize','B58Deserialize','Key.IsValid'])
p('K10','Network version bytes are kept in matched pairs',
 'Every registered private version has exactly one public version and vice versa, equal to the SLIP-0132 pair, whatever order the registry was built in. A child keeps its parent\'s version, and a key whose version is not registered for its kind has no children but an error; every registry entry is found under its own versions, purpose, coin type and path.',
 ['inputs','configurations'],'all registry entries, all 2^32 version values, all registry build orders',
 'Tests check that entries exist, not that lookups under each key return matching entries, and sample one random map order per run.',
 [KR,K],[('registry tables and init',KR),('NewChildKey version handling',K),('PurposeVal / CoinVal',KR)],[('lookup maps','entries by version, purpose, coin',KR)],['Key.NewChildKey','PvtFlagToHDBytesSlice','PubFlagToHDBytesSlice'])
p('K11','Registered prefixes are what serialized keys start with',
 'For every registered version entry, the text form of every extended key carrying its private (public) version starts with the entry\'s documented four-character private (public) prefix.',
 ['inputs','configurations'],'all registry entries, all 2^592 keys with that version',
 'Tests look only at xprv and xpub texts of a few keys.',
 [KR,K],[('registry entries',KR),('B58Serialize',K)],observe=['Key.B58Serialize','HDVersionBytesSlice'])
p('K12','Version entries spell their purpose and coin type',
 'For every version entry whose path is m/a\'/b\' with one to eight digits each, the purpose value is a and the coin value is b, and the full variants are those plus 2^31. A path of another shape, or one of whose components has no digits, is an error, never a number. The flag bytes of an entry are its flags, big endian, and an entry counts as registered exactly when its path is that of a registry entry.',
 ['inputs'],'all version entries: every flag and every path text',
 'Tests look only at the shipped entries.',
 [KR],[('VersionBytes methods',KR)],observe=['VersionBytes.PurposeVal','VersionBytes.CoinVal','VersionBytes.PvtKeyFlagBytes','VersionBytes.IsRegistered'])
p('P01','Derivation paths parse to exactly the indexes they denote',
 'A path is accepted if and only if, whitespace removed, it is m or M followed by components /digits\' and then components /digits, where every marked component is below 2^31 and every unmarked one below 2^32. Its values are then 0 followed by one value per component, in order: the number plus 2^31 for marked components and the number itself for the others; no accepted path denotes a different index than it spells.',
 ['inputs'],'all strings',
 'The path type has no tests at all.',
 [KP],[('Path.ValuesAtDepth',KP),('Path.IsValid',KP),('PathRegex',KP)],observe=['Path.ValuesAtDepth','Path.IsValid'])
p('P02','Path component lookup and replacement',
 'Looking up depth d of a valid path returns its d-th value for every d up to the last component and an error beyond. Replacing depth d of a valid path by a value succeeds exactly when d is at least 1, not beyond the last component, and the path so rewritten (component d spelled as the value, marked when it is 2^31 or more) still has its marked components before the others; the result is then a valid path whose values are those of the original except that depth d has the new value. Otherwise it returns an error.',
 ['inputs'],'all strings, all depths 0..255, all 2^32 values',
 'The path type has no tests at all.',
 [KP],[('Path.ValueAtDepth',KP),('Path.ReplaceValueAtDepth',KP)],observe=['Path.ValueAtDepth','Path.ReplaceValueAtDepth'])
p('U01','Derivation along a path yields exactly the path\'s keys',
 'Deriving along a valid path from a valid private depth-zero root returns one entry per depth: entry 0 is the root itself labelled m, and entry i is the child of entry i-1 at the path\'s i-th value, labelled by extending the previous label with that component (with an apostrophe when hardened). Any invalid root, invalid path or failed derivation step makes the whole call fail with an error; no entry ever holds a key other than the one its label names.',
 ['inputs'],'all roots, all path strings of any length',
 'The util package has no tests.',
 [U],[('Generator.DeriveBIP32Result',U)],observe=['Generator.DeriveBIP32Result'])
p('U02','Range generation yields exactly the requested keys',
 'Generating a range succeeds only for a valid key, a valid path and start below end, and then yields end-start entries; entry i ends in component start+i and its key is the child at start+i of the key named by the rest of its label. An empty or reversed range or a failed derivation step is an error, and no entry ever holds a key other than the one its label names.',
 ['inputs'],'all keys, paths, and pairs of 32-bit bounds',
 'The util package has no tests.',
 [UK],[('KeyPathRange.GenerateRange',UK)],observe=['KeyPathRange.GenerateRange'])
p('U03','Root key from seed text',
 'Hex text of a seed of at least 16 bytes yields the BIP-32 master key of those bytes; text that is not hex, a shorter seed, or a seed with no valid master key yields an error. The result pointer is never nil.',
 ['inputs'],'all strings',
 'The util package has no tests.',
 [U],[('RootKeyFromSeed',U)],observe=['RootKeyFromSeed'])
p('U04','Ethereum address of a key',
 'For every valid key, private or public, the address text is the 40-digit lower-case hex of the last 20 bytes of Keccak-256 over the 64-byte uncompressed public point, both coordinates left-padded to 32 bytes.',
 ['inputs'],'all valid keys',
 'The util package has no tests; one key in 128 has a coordinate with a leading zero byte.',
 [UK,KU],[('KeyPath.AddrHex',UK),('ExpandPublicKey',KU)],observe=['KeyPath.AddrHex'])
p('U05','Base58Check address of a key',
 'For every key and version prefix, the address text is base58 of the prefix byte, RIPEMD160(SHA256(compressed public key)) and the first four bytes of the double SHA-256 of those 21 bytes, and it is the same for a private key and for its public form.',
 ['inputs'],'all valid keys, all 256 prefixes',
 'The util package has no tests.',
 [UK,KU],[('KeyPath.AddrP2SH',UK),('HashRipeMD160onSha256 / ChecksumDblSha256',KU)],observe=['KeyPath.AddrP2SH'])
p('C01','Coin registry agrees with SLIP-44 and its indexes',
 'A coin is valid exactly when it has a non-blank name or symbol, a type below 2^31 and a path component equal to type + 2^31; every registered coin is valid, has the path component, symbol and name of the SLIP-44 table entry it stands for, and is found under its own type and path component. Every lookup by type, path component or name returns a registered coin with that type, path component or name.',
 ['inputs','configurations'],'all coin values; all 1136 registered coins and all lookup keys',
 'The test checks validity of the registered coins only, never the three lookup indexes nor the table contents.',
 ['bip44/coins.go','bip44/coin.go','bip44/slip-0044.md'],[('registry and init','bip44/coins.go'),('Coin.IsValid','bip44/coin.go')],[('lookup maps','coins by type, path component, name','bip44/coins.go')],['Coin.IsValid','RegBip44Coins*Map'])
p('X01','Calls have no side effects on inputs or shared state',
 'Apart from the setters of a key or generator and switching the word list, no call changes any byte of its arguments (including memory beyond the length of a slice argument), its receiver, any result returned by an earlier call, or any package-level state (generating a range stores the new result in its own range value and nothing else); every slice or pointer returned is memory the caller alone holds, except that the accessors of the active word list and of the root key of a generator return what is stored; so results depend only on arguments and the active word list, in any order of calls, and read-only calls may run concurrently. Setting the version of a key changes its four version bytes and nothing else.',
 ['inputs','histories','schedules'],'all arguments, all sequences and interleavings of calls',
 'Tests compare return values of single calls and never look at the arguments or at shared tables afterwards.',
 [B,K,KU,KP,KR,U,UK],[('every exported function','bip32, bip39, bip44, util')],[('word list, checksum tables, curve constants, registries','package-level state','bip32, bip39, bip44')],['arguments after the call'])
p('X02','No input can crash the library',
 'No byte string, text, number or key value passed to an exported operation that reads mnemonics, entropy, seeds, extended keys, paths, versions, coins or addresses makes it panic (out-of-range access, nil dereference, bad conversion) or loop forever: each call returns a result or an error, while a list of 2048 words is active. (Pointers are not nil, and the point helper ExpandPublicKey is given 33 bytes.)',
 ['inputs'],'all arguments of the exported operations',
 'Tests pass a few dozen well-formed or slightly malformed inputs.',
 [B,K,KU,KP,KR,U,UK,'bip44/coin.go'],[('every exported function','bip32, bip39, bip44, util')],observe=['panics'])
p('G01','The example UI never shows keys of another input',
 'After any sequence of edits of mnemonic, passphrase, seed, root key and path in the example application, every key, label and address displayed derives from the root key and path currently shown.',
 ['histories'],'all sequences of user edits',
 'The example application has no tests.',
 ['examples/ui/one/main.go'],[('change handlers','examples/ui/one/main.go')],observe=['displayed texts'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,sch)
print(len(P))
