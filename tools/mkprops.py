"""Writes properties.jsonl from the table below (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
CORE='ccnpy/core/'; FL='ccnpy/flic/'; TL='ccnpy/flic/tlvs/'; TR='ccnpy/flic/tree/'; CR='ccnpy/crypto/'; NC='ccnpy/flic/name_constructor/'; AP='ccnpy/apps/'

p('C01','TLV type numbers are unambiguous inside every container',
  'Inside any protocol container (packet, content object, name, link, validation block, manifest, node, node data, hash group, group data, name-constructor definition and schema, security context, AEAD/KDF/RSA-OAEP data) every kind of field has its own TLV type number that fits in 16 bits. A number read from the wire always selects the same kind of field that the encoder writes under that number.',
  ['inputs'],'every container kind, every pair of field kinds that can occur in it',
  'Tests encode a few containers with a few fields each; a clash between two rarely used fields, or a decoder branch that selects the wrong kind, needs the particular pair to meet in one test.',
  [TL+'TlvNumbers.py',CORE+'TlvType.py',CORE+'ContentObject.py',CORE+'Link.py',CORE+'ValidationAlg.py',TL+'Manifest.py',TL+'NodeData.py',TL+'GroupData.py',FL+'aeadctx/AeadData.py',FL+'RsaOaepCtx/RsaOaepWrapper.py'],
  [('class_type() of every TLV class','ccnpy/core, ccnpy/flic/tlvs, ccnpy/flic/RsaOaepCtx'),('dispatch on tlv.type()','parse()/deserialize() of the containers'),('name/class tables','TlvType.auto_value_parse callers')])
p('C02','Decoding restores every field that encoding wrote',
  'For every protocol object, decoding its encoding gives back an object with the same fields: each field the encoder writes is read back by the decoder into the same field through the inverse value conversion, including optional and repeated fields. No field is dropped, exchanged with another, or filled from another field, and an absent optional field comes back absent.',
  ['inputs'],'every protocol object kind, every combination of present/absent/repeated fields and every field value',
  'The unit tests round-trip a handful of hand-built objects per class, mostly with every field present once; they cannot cover all presence combinations and values.',
  [CORE+'TlvType.py',CORE+'ContentObject.py',CORE+'Link.py',CORE+'Name.py',CORE+'ValidationAlg.py',TL+'NodeData.py',TL+'GroupData.py',TL+'HashGroup.py',TL+'NcSchema.py',TL+'Manifest.py',FL+'aeadctx/AeadData.py',FL+'RsaOaepCtx/RsaOaepWrapper.py'],
  [('constructor builds self._tlv / self._wire_format from the fields','__init__ of every TLV class'),('parse()/deserialize() fills the constructor arguments','every TLV class'),('auto_parse tables','ccnpy/core/TlvType.py')])
p('C03','A decoder rejects a TLV of the wrong type',
  'Every decoder that is handed a TLV whose type number is not the one its object is encoded with raises an error; it never returns an object built from a foreign TLV. A container with a closed set of fields raises on a field type outside that set.',
  ['inputs'],'every decoder, every TLV type number',
  'Tests feed a wrong type to a few decoders only.',
  [CORE+'TlvType.py',CORE+'ContentObject.py',CORE+'Packet.py',TL+'Node.py',TL+'NodeData.py',TL+'Manifest.py',TL+'SecurityCtx.py'],
  [('type check before any other use of the TLV','parse() of every TLV class')])
p('C04','Decoding any byte string terminates',
  'Decoding any byte string, valid or hostile, ends: every pass of a decoding loop consumes at least one TLV header of input, and loop bounds never grow during the loop. No recursion in the decoders can go on without consuming input.',
  ['inputs'],'every decoder loop, every byte string',
  'Tests only run well-formed buffers plus a few short ones; a zero-progress path needs a specific hostile length or type.',
  [CORE+'Tlv.py',CORE+'TlvType.py',CORE+'Name.py',CORE+'Link.py',CORE+'Packet.py',CORE+'ValidationAlg.py',TL+'Pointers.py',TL+'Locators.py',TL+'Node.py',TL+'NodeData.py',TL+'Manifest.py',TL+'NcDef.py',TL+'NcSchema.py'],
  [('offset += len(inner_tlv), len >= 4','all decode loops'),('Tlv.__len__','ccnpy/core/Tlv.py')])
p('C05','Truncated or over-declared input is rejected',
  'A buffer shorter than the header it must start with, or shorter than the length that header declares, is rejected with an error at every nesting level; a decoder never returns an object built from fewer bytes than were declared. Fixed-position fields (packet header, vendor number, wrapped-key salt) are only read after the length that covers them has been checked.',
  ['inputs'],'every decoder, every truncation point of every encoding',
  'Tests truncate one or two buffers; the property is about every nesting level and every cut.',
  [CORE+'Tlv.py',CORE+'FixedHeader.py',CORE+'Packet.py',TL+'Vendor.py',FL+'RsaOaepCtx/WrappedKey.py'],
  [('length == len(value) check','Tlv.deserialize'),('len(buffer) < 8','FixedHeader.deserialize'),('decoders reach bytes only through Tlv.deserialize','all parse()')])
p('C06','Integers are encoded exactly or refused',
  'Every integer put on the wire (TLV type and length, variable-length integers, fixed-width integers, chunk and manifest numbers, salts) is encoded big-endian so that decoding gives the same integer, and an integer the field cannot hold (negative or too large) is refused with an error. It is never silently truncated, wrapped or sign-changed, and an integer the field can hold is not refused.',
  ['inputs'],'every integer handed to an encoder, in particular around every power of 256',
  'Tests use a few small values per width; the property is about all integers, in particular the boundaries between encoding widths.',
  [CORE+'Tlv.py',CORE+'Name.py',CORE+'FinalChunkId.py',CORE+'PayloadType.py',TL+'SuffixComponentType.py',TL+'Vendor.py',FL+'aeadctx/AeadParameters.py',CORE+'FixedHeader.py'],
  [('number_to_array / uint64_to_array / uint32_to_array / uint24_to_array / uint16_to_array / array_to_number','ccnpy/core/Tlv.py'),('_tlv_encode','ccnpy/core/Tlv.py'),("struct.pack('!BBHBBBB')",'ccnpy/core/FixedHeader.py')])
p('C07','A field allowed once is rejected when it appears twice',
  'When a container that holds a field at most once is decoded from bytes in which that field appears twice, decoding raises an error; the second copy never silently replaces or is silently ignored in favour of the first.',
  ['inputs'],'every container, every singleton field in it, every position of the second copy',
  'No test feeds duplicated fields to most containers.',
  [CORE+'TlvType.py',CORE+'ContentObject.py',CORE+'Link.py',CORE+'Packet.py',CORE+'ValidationAlg.py',TL+'Manifest.py',TL+'Node.py',TL+'NodeData.py',TL+'NcDef.py',TL+'NcSchema.py'],
  [('assert field is None / already set ParseError','decode loops'),('auto_value_parse duplicate check','ccnpy/core/TlvType.py')])
p('C08','The fixed header describes the packet it precedes',
  'For every packet the library creates with its creation functions, the packet length in the fixed header equals the number of bytes of the serialised packet, the packet type agrees with the kind of body, and the bytes are header, body, validation algorithm, validation payload in that order. Each header field is decoded from the position at which it is encoded, and a decoded packet is made of exactly the bytes that the packet length covers.',
  ['inputs'],'every body, every validation algorithm and payload, every creation function',
  'Tests compare a few fixed byte strings; the length must be right for all sizes and for all four creation functions.',
  [CORE+'Packet.py',CORE+'FixedHeader.py'],
  [('create_* compute packet_length','ccnpy/core/Packet.py'),('__serialize','ccnpy/core/Packet.py'),('serialize/deserialize','ccnpy/core/FixedHeader.py')])
p('C09','Hash and signature cover body, algorithm and payload, on both sides',
  'The content-object hash of a packet is SHA-256 over the encodings of body, validation algorithm and validation payload, each exactly once, in wire order and never the fixed header. Every place that signs a packet and every place that verifies one feeds the signature function the same two byte strings in the same order: the encoding of the body, then of the validation algorithm placed in that packet.',
  ['inputs','programs'],'every packet, every signer/verifier call site',
  'Tests sign and verify with the same code path on a few packets; a site that signs different bytes is only seen by a peer verifying that particular kind of packet.',
  [CORE+'Packet.py',CORE+'PacketValidator.py',FL+'ManifestFactory.py',TR+'TreeIO.py',AP+'packet_utils.py',CR+'RsaSha256.py',CR+'Crc32c.py',CR+'RsaKey.py'],
  [('_compute_hash','ccnpy/core/Packet.py'),('signer.sign(body, alg)','ManifestFactory.build_packet, TreeIO link writer'),('verifier.verify(body, alg)','PacketValidator.validate_packet, apps/packet_utils.validate_packet')])
p('C10','Equality and hashing of wire objects agree with their encodings',
  'Two protocol objects compare equal only if they encode to the same bytes, type number included, and objects of the same kind that encode to the same bytes compare equal however they were built. Objects that compare equal have equal hashes, and every object used as a lookup key is hashable.',
  ['inputs'],'every pair of protocol objects',
  'Tests compare objects built the same way; they do not compare across types, or built-locally against decoded.',
  [CORE+'Tlv.py',CORE+'TlvType.py',CORE+'HashTlvType.py',CORE+'HashValue.py',CORE+'Name.py',TL+'NcSchema.py'],
  [('__eq__/__hash__ of all TLV classes','ccnpy/core, ccnpy/flic')])
p('C11','Protocol objects do not change after construction',
  'Once constructed, a TLV, packet, name, link or manifest object keeps its value: no accessor, serialisation, iteration, comparison or use as part of another object changes what it serialises to, compares equal to or iterates over. Changing a list that was passed to or used to build an object does not change the object.',
  ['inputs','histories'],'every sequence of calls on every protocol object and on objects built from it',
  'A test would have to use an object in two ways in the right order; tests use fresh objects.',
  [CORE+'Tlv.py',CORE+'Link.py',CORE+'Name.py',CORE+'HashValue.py',CORE+'Packet.py',CORE+'FixedHeader.py',TL+'Pointers.py',FL+'HashGroupBuilder.py'],
  [('attributes written only in __init__','TLV classes'),('fresh arrays before extend/append','Packet.__serialize, Tlv.extend, Vendor, WrappedKey.create')])
p('C12','Millisecond timestamps survive decoding and encoding',
  'An expiry time or signature time decoded from the wire encodes back to exactly the same number of milliseconds, for every millisecond count of a representable date. A timestamp made from a date has the nearest millisecond.',
  ['inputs'],'every 64-bit millisecond count within the date range',
  'The tests use a few times whose float conversion happens to be exact; about one in a hundred millisecond counts is lost by truncation.',
  [CORE+'Timestamp.py',CORE+'ExpiryTime.py',CORE+'SignatureTime.py'],
  [('milliseconds()','ccnpy/core/Timestamp.py'),('parse()','ExpiryTime, SignatureTime')])

p('K01','Every encryption uses a fresh nonce that is the one announced',
  'Every encryption of a manifest node draws a new nonce from the system random source, of 96 bits less the bits of the configured salt, and the initialisation vector is the salt followed by exactly the nonce that is put in the security context sent with that ciphertext. No nonce or initialisation vector is constant, derived from counters or content, cached, or used for two encryptions.',
  ['inputs','histories'],'every sequence of encryptions under one key, every key mode and salt',
  'A repeated nonce does not make any test fail: decryption still works.',
  [FL+'aeadctx/AeadImpl.py',FL+'RsaOaepCtx/RsaOaepImpl.py',CR+'AeadKey.py'],
  [('_generate_nonce/_iv_from_nonce','ccnpy/flic/aeadctx/AeadImpl.py'),('AeadKey.nonce','ccnpy/crypto/AeadKey.py')])
p('K02','Encryption and decryption bind the same context, key and vector',
  'Node decryption uses the same key, the same initialisation vector construction (salt then announced nonce), the complete encoded security context as authenticated data, and the same ciphertext/tag split that encryption used, for every security context kind. The security context announces the key number and the mode of the key actually used, and the plaintext is the value of the node.',
  ['inputs','configurations'],'every key mode, key size, salt, context kind',
  'Tests pair encrypt and decrypt of one implementation on a few settings; leaving part of the context out of the authenticated data on both sides passes every round-trip test.',
  [FL+'aeadctx/AeadImpl.py',FL+'RsaOaepCtx/RsaOaepImpl.py',CR+'AeadKey.py',TL+'AeadMode.py'],
  [('encrypt_with_security_ctx/decrypt_node','AeadImpl, RsaOaepImpl'),('encrypt/decrypt','AeadKey')])
p('K03','Decryption fails closed',
  'Decrypting a node either returns the plaintext that the authenticated decryption primitive returned or raises: a wrong key number, a mode that is not of the same cipher family (GCM or CCM) as the key, a missing security context or authentication tag, or a failed authentication check never yields a node. An encrypted manifest that cannot be decrypted is never passed on as if it were readable.',
  ['inputs','fault_sequences'],'every manifest, key store content and tampering',
  'Tests try one or two wrong keys; siblings (AEAD, RSA-OAEP, cache, tools) each need their own failing input.',
  [FL+'aeadctx/AeadImpl.py',FL+'RsaOaepCtx/RsaOaepImpl.py',CR+'AeadKey.py',TR+'Traversal.py',TR+'DecryptorCache.py',AP+'packet_utils.py'],
  [('prechecks in decrypt_node/decrypt_manifest','AeadImpl, RsaOaepImpl'),('InvalidTag -> DecryptionError','AeadKey.decrypt')])
p('K04','Signature verification fails closed',
  'A packet that carries a validation algorithm is accepted only if the verifier for that algorithm, with the key named in the packet, reports that the signature or checksum over that packet matches; a mismatch, an unknown algorithm or a verifier error never ends in acceptance. (Documented exceptions: a validator configured without any key store performs no RSA verification, and the packet display tool only reports that it has no key.) A verifier reports success only if the cryptographic check of the supplied payload against the supplied buffers succeeded.',
  ['inputs','fault_sequences'],'every packet, signature, key store; the two documented exceptions are a missing key store and a tool without the key',
  'Tests verify good packets and a few bad ones with one key.',
  [CORE+'PacketValidator.py',CR+'RsaKey.py',CR+'RsaSha256.py',CR+'Crc32c.py',AP+'packet_utils.py',CR+'InsecureKeystore.py'],
  [('validate_packet','PacketValidator, apps/packet_utils'),('verify','RsaKey, RsaSha256Verifier, Crc32cVerifier')])
p('K05','A wrapped content key unwraps to the same salt and key',
  'Wrapping a content key and unwrapping it with the private key gives back the same 4-byte salt and the same key: both sides use the same layout, the same padding and hash, and a label made of the same fields (key number, mode, KDF data if any, key id, hash algorithm) in the same order. Every parameter set the encryptor accepts (with or without KDF info or label data) can be wrapped and unwrapped; one that the layout cannot represent (no salt) is refused with an explicit error.',
  ['inputs','configurations'],'every key, salt, KDF setting and RSA key',
  'Tests wrap with a salt and without KDF; a label built from different fields on the two sides fails only for the settings where they differ.',
  [FL+'RsaOaepCtx/WrappedKey.py',FL+'RsaOaepCtx/RsaOaepImpl.py',FL+'RsaOaepCtx/RsaOaepEncryptor.py',CR+'RsaKey.py'],
  [('create/decrypt/_create_label','WrappedKey'),('encrypt_oaep_sha256/decrypt_oaep_sha256','RsaKey')])
p('K06','A configured key-derivation function is applied on both sides',
  'When key-derivation data is configured and announced in the security context, the key used for encryption and for decryption is derived with the announced algorithm from the configured key, the configured KDF salt (if any), the key number, the mode and the announced info (if any); it is never the raw key. Each announced algorithm number selects its own hash function, and an unknown one is refused.',
  ['configurations'],'every KDF algorithm, info and salt setting',
  'With the derivation left out on both sides every round-trip test still passes.',
  [FL+'aeadctx/AeadImpl.py',CR+'KDF.py',CR+'HpkeKdfIdentifiers.py',TL+'KdfAlg.py'],
  [('_derive_key','AeadImpl'),('derive','KDF')])
p('K07','Secret key material is neither stored unprotected nor printed',
  'A private key is written to a file only encrypted under the given password, and passwords, content keys and private keys never flow to standard output, log messages or exception texts.',
  ['inputs','configurations'],'every path that handles keys or passwords',
  'No test looks at what is printed or at how a key file is protected.',
  [CR+'RsaKey.py',CR+'AeadKey.py',AP+'manifest_writer.py',AP+'cli_utils.py',FL+'aeadctx/AeadParameters.py'],
  [('save_private_key','RsaKey'),('no print/log of secrets','whole package')])
p('K08','A key lookup returns the key filed under that identifier',
  'Key stores and decryptor caches return for a key number, key id or name only an entry that was filed under that identifier, and report an error when there is none; they never return a stale, default or neighbouring entry. A failed attempt to build a decryptor leaves no entry behind that a later lookup would return.',
  ['histories','fault_sequences'],'every sequence of insertions, lookups and failed lookups',
  'Tests use one key at a time; a stale entry needs two different identifiers or a failure in between.',
  [CR+'InsecureKeystore.py',TR+'DecryptorCache.py',FL+'RsaOaepCtx/RsaOaepDecryptor.py'],
  [('by-keyid/by-name/by-number maps','InsecureKeystore'),('last-used cache','DecryptorCache'),('ImplCache','RsaOaepDecryptor')])

p('F01','Traversal validates every packet before it uses it',
  'When a manifest tree is read, every packet obtained from the packet source (the root and every child, data or manifest) passes signature validation before its contents are interpreted, decrypted or written to the output. Output bytes come only from the payload of validated data packets.',
  ['inputs','histories'],'every tree, every packet in it',
  'Tests read trees whose packets are all valid, so a skipped validation is invisible.',
  [TR+'Traversal.py',CORE+'PacketValidator.py'],
  [('traverse/_visit_children: get, validate, preorder','Traversal')])
p('F02','A packet fetched by hash has that hash',
  'A packet source asked for a packet by hash returns only a packet whose content-object hash equals the requested hash (and whose name, if it has one, is the requested name); otherwise it raises. This also holds when the packet is reached through a stored link.',
  ['inputs','fault_sequences'],'every request, every content of the store (including tampered or exchanged files)',
  'Tests read back what they wrote; a tampered store is not tested.',
  [TR+'TreeIO.py'],
  [('PacketMemoryReader.get, PacketDirectoryReader.get/_get_by_link','TreeIO')])
p('F03','Traversal visits every pointer once, in order, with its own names',
  'Reading a tree visits all pointers of every hash group in order, each exactly once, depth first, so output bytes appear in file order; no pointer is skipped or repeated. Each pointer is requested with the name constructor of its own hash group and its own segment number, and name constructors defined in one manifest apply to that branch only.',
  ['inputs'],'every tree shape, number of hash groups and pointers',
  'Tests read small trees with one or two hash groups; errors in group boundaries or branch scoping need particular shapes.',
  [TR+'Traversal.py',TL+'Node.py',TL+'Manifest.py',TL+'Pointers.py'],
  [('_visit_children/_update_nc_cache/_fetch_packet','Traversal'),('NodeIterator','Node')])
p('F04','Every pointer in a built tree refers to a packet that was output',
  'When a tree is built, every hash placed in a manifest is the content-object hash of a packet that has been handed to the packet output, children before parents, and the returned root packet has been output too. Every data chunk read from the input is output and pointed to.',
  ['inputs','configurations'],'every file size, tree shape, schema',
  'Tests build a few sizes; a manifest kind that is built but not output (or output under a different encoding) needs the right shape.',
  [TR+'TreeBuilder.py',FL+'ManifestTree.py',NC+'SchemaImpl.py',TR+'TreeIO.py'],
  [('_write_packet','TreeBuilder'),('put(root_packet)','ManifestTree.build_root'),('chunk_data put','SchemaImpl')])
p('F05','No data or interior manifest packet exceeds the configured size',
  'Building a tree never outputs a data packet or non-root manifest larger than the configured maximum packet size; when it cannot fit, building raises, and a packet of exactly the maximum is not refused. The space reserved for a manifest or data packet is measured on a packet with every field the real one can carry.',
  ['inputs','configurations'],'every maximum size, schema, option set, file size',
  'Tests use a few sizes; an unreserved field only overflows at particular sizes.',
  [NC+'SchemaImpl.py',FL+'ManifestFactory.py',TR+'ManifestSizeCalculator.py',TR+'TreeBuilder.py'],
  [('len(packet) > max_packet_size -> ValueError','SchemaImpl._create_data_packet, ManifestFactory._build'),('calculate_max_pointers','ManifestSizeCalculator')])
p('F06','Tree building consumes every chunk exactly once, in order',
  'Building a manifest tree hands out every data chunk to exactly one pointer, from last to first, without gaps or repeats: each range taken for a leaf or interior node is exactly the range removed from the remaining range, every reservation at the head is given back before the node takes its own direct pointers, and building ends with nothing left. Pointers inside a node end up in increasing chunk order. Cutting the input into chunks never asks for less than one octet, so that input is not taken to have ended before it has.',
  ['inputs','configurations'],'every number of chunks and pointers per node',
  'Tests build a few sizes; off-by-one errors at particular remainders are missed.',
  [TR+'TreeBuilder.py',FL+'HashGroupBuilder.py',TR+'HashGroupBuilderPair.py'],
  [('Segment','TreeBuilder'),('_leaf_manifest/_interior_add_indirect/_interior_add_direct','TreeBuilder')],
  state=[('Segment._head/_tail','half-open range of chunks not yet pointed to','ccnpy/flic/tree/TreeBuilder.py')])
p('F07','With an encryptor configured no manifest leaves in the clear',
  'If a manifest encryptor is configured, every manifest packet built (leaf, interior and root, from whatever source) carries only the encrypted node with the security context and authentication tag of that same encryption; a plaintext node is emitted only when no encryptor is configured.',
  ['configurations','inputs'],'every source kind and manifest position, every encryptor',
  'Tests check encryption on a few positions.',
  [FL+'ManifestFactory.py',TL+'Manifest.py'],
  [('_build_from_node/_encrypt','ManifestFactory')])
p('F08','Every announced variant is handled by every dispatcher',
  'Every schema kind, name-constructor kind, encryption mode, security-context kind, validation algorithm and manifest source kind that can be configured or decoded is handled by every function that branches on it, and an unknown one raises instead of falling through to a default or to nothing.',
  ['configurations','inputs'],'every member of every variant set, every dispatcher over it',
  'Tests exercise the common variant of each dispatcher.',
  [NC+'SchemaImplFactory.py',NC+'NameConstructorContext.py',TL+'SecurityCtx.py',TL+'NcSchema.py',TL+'AeadMode.py',TR+'Traversal.py',TR+'DecryptorCache.py',CORE+'ValidationAlg.py',CR+'KDF.py'],
  [('if/elif chains over isinstance/enum/type numbers','whole package')])
p('F09','The name a reader asks for is the name the packet was published under',
  'For named schemas, the name a reader constructs for a pointer (name constructor of the hash group plus start segment number plus position) equals the name the writer put in that packet: data pointers use the data constructor and chunk numbers, manifest pointers the manifest constructor and manifest numbers, and the start number in each hash group belongs to its first pointer. Both sides build names with the same component types.',
  ['inputs','configurations'],'every schema, tree shape, file size',
  'Tests check names on one or two tree shapes; swapped roles or a wrong start number show only for segmented trees of particular shapes.',
  [TR+'TreeBuilder.py',TR+'HashGroupBuilderPair.py',FL+'ManifestTree.py',NC+'NameConstructorContext.py',NC+'SchemaImplFactory.py',NC+'SegmentedSchemaImpl.py',NC+'PrefixSchemaImpl.py',TL+'Node.py'],
  [('hash_groups nc_id/start_segment_id','HashGroupBuilderPair'),('_last_manifest_id','TreeBuilder'),('get_name','SchemaImpl subclasses')])
p('F10','The root manifest carries the configured name, key and metadata',
  'The root manifest packet has the configured name, the configured root expiry time, a signature by the configured signer, all name-constructor definitions used below it, the full security context when encrypted, and one pointer to the top manifest; other manifests carry the configured manifest expiry time and data packets the data expiry time. Each configuration option reaches the field it is named after.',
  ['configurations'],'every combination of tree options',
  'Tests set few options at a time, often with equal values for root, manifest and data.',
  [FL+'ManifestTree.py',FL+'ManifestFactory.py',FL+'ManifestTreeOptions.py',TR+'TreeBuilder.py',NC+'SchemaImpl.py',AP+'manifest_writer.py'],
  [('_create_root_manifest','ManifestTree'),('build_packet','ManifestFactory')])
p('F11','Size annotations are the sums of what they describe',
  'The leaf size of a hash group is the sum of the data bytes behind its direct pointers, its subtree size the sum over direct and indirect pointers, and the node subtree size covers both; each annotation appears exactly when its option asks for it. Adding a pointer adds its size to the right total exactly once.',
  ['inputs','configurations'],'every sequence of pointer additions, every option combination',
  'Tests add a few pointers and compare one total.',
  [FL+'HashGroupBuilder.py',TR+'HashGroupBuilderPair.py',TR+'TreeBuilder.py',FL+'ManifestFactory.py'],
  [('append/prepend direct/indirect','HashGroupBuilder'),('hash_group','HashGroupBuilder')])
p('F12','Packet files stay inside the configured directory',
  'Reading and writing packets by hash or by name only touches files directly inside the configured directory (or its two-level hash subdirectories): no packet name, link or hash can make the library open a path elsewhere, and writing a packet creates no file whose name is not derived from that packet.',
  ['inputs'],'every packet name and hash, including hostile components',
  'Tests use simple names.',
  [TR+'TreeIO.py',TR+'SizedPointer.py',CORE+'Packet.py'],
  [('get_link_name','TreeIO'),('to_path','TreeIO.DirectoryBase')])
p('F13','Command-line tools read only options they define and honour them',
  'Each command-line tool reads only options that it defines, and every option value reaches the component it controls under the same meaning. Key, password, salt and KDF options are passed to the matching parameters, and what a tool makes from them (signer, encryptor, key store, hash restriction) is what the work is then done with.',
  ['configurations'],'every tool, every option',
  'The tools\' run() entry points are not covered by tests.',
  [AP+'cli_utils.py',AP+'manifest_writer.py',AP+'manifest_reader.py',AP+'packet_reader.py',AP+'packet_utils.py'],
  [('add_argument(dest) vs args.<dest>','ccnpy/apps')])
p('F14','No operation dies of a programming error',
  'No function of the library or tools, on any path including error paths and messages, refers to a name, attribute, method or keyword that does not exist, calls a function with arguments it does not accept, uses a local before it is set, calls something that is not callable, or falls off the end where its callers use the result, or uses an optional part of an object on a path that has not made sure it is present. An argument with a default may be left out. An override accepts every call that its base method accepts.',
  ['programs','inputs'],'every function, every path, every override',
  'Line coverage of error paths and of rarely used variants is low; Python finds such errors only when the line runs.',
  ['ccnpy/'],
  [('name, attribute, arity and override resolution','whole package')])
p('C13','Objects are what their creation function says',
  'A creation function (create_...) makes an object that carries every argument it was given, each as the field of that name, and its optional arguments may be left out. Creation functions of one class that stand for different kinds make objects of different kinds, and a predicate (is_...) answers true for the objects of its own kind and for no other.',
  ['inputs'],'every creation function and predicate of the protocol objects, every combination of arguments given or left out',
  'Tests call the common creation functions with the usual arguments and ask the expected predicate; they rarely read back an optional argument, and never ask all other predicates.',
  [CORE+'ContentObject.py',CORE+'PayloadType.py',CORE+'Name.py',CORE+'Packet.py',CORE+'FixedHeader.py',TL+'AeadMode.py',TL+'KdfAlg.py',TL+'NcSchema.py',FL+'RsaOaepCtx/RsaOaepWrapper.py'],
  [('create_* functions','ccnpy/core, ccnpy/flic'),('is_* predicates','PayloadType, NameComponent, FixedHeader, HashGroup schema')])
p('F15','What is put into a packet store can be fetched again',
  'Every packet handed to a packet store is kept whole: written to the file, or filed in memory, under its own content-object hash. When links are asked for, a packet with a name also gets a link packet that carries that name and the hash of the packet and is itself kept under its name. Saving writes all bytes of the packet and nothing else, and loading reads all bytes of the file. Packets with different names have different links, a directory reader looks at every place at which a directory writer keeps packets, and a reader refuses a packet only when it is not the one asked for.',
  ['inputs','histories'],'every packet put in a store (data, manifest, named, nameless), every store, links on or off',
  'Tests store a data packet or two and look at one file; a rule that skips some kind of packet or drops the hash of a link is seen only when that packet is looked up in that way.',
  [TR+'TreeIO.py',CORE+'Packet.py'],
  [('PacketDirectoryWriter.put, _write_link','ccnpy/flic/tree/TreeIO.py'),('PacketMemoryReader / PacketMemoryWriter.put','ccnpy/flic/tree/TreeIO.py'),('Packet.save, Packet.load','ccnpy/core/Packet.py')])
p('N01','A file written as a manifest tree is read back byte-identical',
  'For every file content and every legal option set, writing a manifest tree and traversing it yields exactly the bytes of the file.',
  ['inputs','configurations'],'every file, every option set',
  'Tests run a few sizes.',
  [FL+'ManifestTree.py',TR+'Traversal.py'],[('build/traverse','ManifestTree, Traversal')])
p('N02','The optimiser picks a tree that minimises waste',
  'For every file size and packet size the tree parameters chosen by the optimiser are feasible and minimise the wasted pointers within the allowed degree.',
  ['inputs','configurations'],'every (chunks, pointers per node, max degree)',
  'Tests check a table of sizes.',
  [TR+'TreeOptimizer.py',TR+'TreeParameters.py',TR+'OptimizerResult.py'],[('optimize','TreeOptimizer')])
p('N03','Manifest identifiers are unique and consecutive within a hash group',
  'For every tree the identifiers given to manifests are pairwise different, non-negative, and consecutive from left to right within each hash group.',
  ['inputs','configurations'],'every tree shape',
  'Tests build a few shapes.',
  [TR+'ManifestIdFactory.py',TR+'TreeBuilder.py'],[('get_next_id','ManifestIdFactory')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
