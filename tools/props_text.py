I, C, F, HI = "inputs", "configurations", "fault_sequences", "histories"
T6 = "the unit tests build a handful of fixed packages"

P("C01", "Identifiers are the CRC-32 of their names",
  "The identifier of a name is the standard CRC-32 (reflected polynomial 0xEDB88320, initial and final value all ones) of its characters, and computing a CRC over a buffer gives the same value however the buffer is split into successive calls. All identifiers published for parts and metadata equal the CRC-32 of their published names.",
  [I], "every byte string up to the bound, every starting value, every split point",
  "Two or three known strings are compared; a wrong table entry or a wrong continuation shows for other bytes only.",
  ["lib/bpakcrc.c", "lib/id.c", "include/bpak/id.h"], [("table driven CRC", "lib/bpakcrc.c bpak_crc32"), ("id of a string", "lib/id.c bpak_id")],
  ["bpak_crc32", "bpak_id", "published id constants"],
  "One-byte step decided for every state and byte; splitting and strings bounded by length (8 quick, 40-64 thorough).")
P("C02", "Hash-tree part ids map to their data parts and back",
  "Every part id has a hash-tree id equal to the CRC-32 of the data part's name with '-hash-tree' appended, which is computed from the data part's id alone. Given a header, the reverse mapping of an id returns the first part present in the header whose hash-tree id it is, and zero when there is none.",
  [I], "every 32-bit part id, part tables of the stated shapes",
  "Tests map two well-known ids; the mapping is a function of all 2^32 ids.",
  ["lib/utils.c"], [("hash-tree id", "bpak_part_id_to_hash_tree_id"), ("reverse", "bpak_hash_tree_id_to_part_id")],
  ["return values of the id mapping functions"], "All ids; reverse mapping over tables of up to 32 parts of which 3 are symbolic.")
P("C03", "Adding metadata never disturbs other entries, and lookups find the right one",
  "On a table built by earlier additions and deletions, adding a metadata entry either fails and leaves the whole header unchanged, or takes a free entry with the given id, part reference and size whose 8-byte aligned storage follows all others and stays inside the metadata area, while every other entry and its contents stay as they were. It succeeds exactly when no entry with that id and part reference exists, a free entry is left and the space suffices. A lookup by id and part reference, or by id alone, returns the first matching entry in use and otherwise the not-found error.",
  [I, HI], "every metadata table of up to 32 entries as adding in any order leaves it, every id, reference and size; lookups: every 4096-byte header",
  "The tests add three or four entries of friendly sizes; overlap and boundary errors need particular size sequences near the end of the area.",
  ["lib/bpak.c"], [("allocation", "bpak_add_meta"), ("lookup", "bpak_get_meta"), ("contents pointer", "bpak_get_meta_ptr")],
  ["header bytes", "return codes"], "Case split over the number of entries; leading entries fixed in the large quick cases, all symbolic in the thorough tier.")
P("C04", "Deleting metadata keeps every other entry's contents",
  "After deleting a metadata entry, every other entry keeps its id, reference, size, order and contents, the deleted one is gone, the remaining ones stay packed so that the freed entry and space can be used again, and freed bytes are zero. Nothing outside the metadata table and the metadata area changes.",
  [I, HI], "tables with up to 32 entries of varied sizes, deleted entry first, middle or last",
  "Tests delete one entry from one layout; compaction errors depend on the sizes and positions of the entries behind it.",
  ["lib/bpak.c"], [("compaction", "bpak_del_meta")], ["header bytes", "lookup after deletion"],
  "Sizes from small sets covering the 8-byte rounding classes; positions as listed per harness.")
P("C05", "A header is accepted exactly when its structure is sound",
  "Header validation accepts a header exactly when its magic is right, a hash kind is set, every metadata entry in use in any of the 32 slots lies completely inside the metadata area, and for every part in use in any of the 32 slots size plus padding does not overflow and is a multiple of 512. Every other header is refused with a negative error.",
  [I], "every 4096-byte header",
  "Fuzz seeds and two corrupted headers do not cover 2^32768 headers.",
  ["lib/bpak.c"], [("validation", "bpak_valid_header")], ["return code"], "No bound: the header has fixed size; every byte symbolic.")
P("C06", "The part table stays compact and consistent under add, lookup and delete",
  "Adding a part fails without change if a part of that id exists or all 32 slots are used, and otherwise the new part takes the first free slot with that id and everything else unchanged. Lookup returns the slot holding the id or an error. Deleting a part removes exactly that part; all others keep their contents and order.",
  [I, HI], "every table of 0..32 parts with arbitrary contents, every id",
  T6 + " with at most three parts, never a full table.",
  ["lib/bpak.c"], [("add", "bpak_add_part"), ("lookup", "bpak_get_part"), ("delete", "bpak_del_part")], ["header bytes", "return codes"],
  "Case split on the number of parts; quick: small and nearly full tables, thorough: all.")
P("C07", "Part offsets and package sizes add up",
  "A part is stored right after the header and all parts before it; a part with transport encoding occupies its transport size, any other its size plus padding. The package size is the end of the last stored part; the installed size is the sum of the sizes plus padding of all parts, however they are encoded.",
  [I], "every part table of up to 32 parts with sizes below 2^56 and arbitrary flags and paddings",
  T6 + ", so mixtures of transport-encoded and plain parts with large 64-bit sizes never occur.",
  ["lib/bpak.c", "lib/pkg.c"], [("offset", "bpak_part_offset"), ("stored size", "bpak_part_size"), ("sums", "bpak_pkg_size, bpak_pkg_installed_size")],
  ["returned sizes and offsets"], "Sizes below 2^56 so sums stay in 64 bits.")
P("C08", "The header digest covers every header byte except the signature",
  "The header hash is the header's selected hash over exactly the 4096 header bytes with the signature and the signature size read as zero. Any failure of the hash backend is reported as an error, and an output buffer too small for the digest is refused.",
  [I, F], "every header, every hash kind, every output buffer size, every failing backend call",
  "One header is hashed and compared with a recorded digest; a skipped byte elsewhere goes unnoticed.",
  ["lib/verify.c", "lib/crypto.c"], [("header hash", "bpak_verify_compute_header_hash")], ["bytes fed to the hash", "digest returned"],
  "Digest function is an arbitrary (symbolic) function; what is hashed is watched at every position.")
P("C09", "The payload digest covers exactly the stored bytes of every hashed part",
  "The payload hash is the header's selected hash over the stored bytes of all parts that are not excluded from hashing, in table order, each from its own offset and for its full stored length including padding. Payload verification compares it in full with the digest in the header and accepts only an equal one. Every short or failing read and every hash failure is an error.",
  [I, F], "part tables of up to 3 parts of any flags and 0..19 stored bytes with an 8-byte chunk buffer, every read and hash failure",
  "Payloads in tests are hashed once as a whole; lengths around the chunk size, excluded parts in the middle and failing reads are not tried.",
  ["lib/verify.c"], [("payload hash", "bpak_verify_compute_payload_hash"), ("decision", "bpak_verify_payload")], ["bytes fed to the hash", "read offsets", "return codes"],
  "Chunk buffer length set to 8 through its own configuration macro so that chunk boundaries fall inside the bound.")
P("C11", "Hash tree geometry",
  "For every input length that is a positive multiple of 4096 up to 1 TiB the hash tree size is the sum of its levels (one 32-byte hash per 4096-byte block below, each level padded to a block), with the top level first and the hashes of the data last; every other length is refused. When asked to, initialisation zero-fills exactly the tree area, and salts longer than 32 bytes are refused.",
  [I], "every 64-bit input length, tree offset, salt length",
  "Two image sizes are tested; level boundaries at 128 and 16384 blocks are not.",
  ["lib/merkle.c"], [("size", "bpak_merkle_compute_size"), ("levels", "bpak_merkle_init")], ["returned sizes", "write callback offsets"],
  "All lengths; clearing decided for 1, 2, 128 and 129 blocks.")
P("C12", "Building a hash tree stores the right hash in every place",
  "Building a tree stores, for each data block in order, the SHA-256 of salt and block in the lowest level, the hashes of salt and tree block in the levels above, zeros elsewhere, and returns the hash of salt and top block (or of the single data block) as root, independent of how the data is cut into chunks. Reads and writes stay inside the tree, and every failing or short read or write and every hash failure is reported.",
  [I, F], "data of 1, 2 and 129 blocks with arbitrary contents, salts, digests and cut points as listed, one fault anywhere",
  "One image is built with fixed chunking; order, salt or level mistakes can cancel out when the same code verifies the result.",
  ["lib/merkle.c"], [("lowest level", "bpak_merkle_write_chunk"), ("levels above and root", "bpak_merkle_finish")], ["write callback", "bytes fed to the hash", "root"],
  "Digest function arbitrary; bounds in blocks and cut points; larger trees repeat the level step decided at 129 blocks.")
P("C13", "Hash tree verification accepts exactly matching data, tree and root",
  "Verifying data against a stored tree accepts exactly when the stored hash of every data block and every tree block is the hash of salt and that block and the root hash is the hash of the top block. A wrong root is told apart, and any failing or short read or hash failure is an error, never an acceptance.",
  [I, F], "1 and 2 data blocks, stored tree, root, salt and digests arbitrary, one fault anywhere",
  "The tests corrupt one fixed byte of one image.",
  ["lib/verify.c", "lib/merkle.c"], [("tree verification", "bpak_verify_merkle_tree")], ["return code", "bytes fed to the hash"],
  "Digest function arbitrary; bounded to 2 data blocks; fault positions sampled only in the middle of the 128 identical read steps.")
P("C10", "A package is accepted exactly when signature, payload digest and hash trees are right",
  "Package verification succeeds exactly when the signature backend, given the stored signature and its stored length, the digest of the header and the caller's key, says the signature is good, the stored payload digest equals the digest of the payload in the file, and every part with a root hash in its metadata has a salt, a hash tree part and matches them. A stored signature length beyond the signature area, a failing backend and any failing or short read of the file make it fail. Verification changes neither header nor file.",
  [I, F], "every signature, length, digest, backend answer, root, salt and stored tree, files ending early, every single failing file call, for packages with one plain part or three parts one of which has a hash tree",
  "Tests verify one good package and a few damaged ones with a real key; a check skipped for a particular combination of metadata or error goes unnoticed.",
  ["lib/pkg_verify.c", "lib/verify.c", "lib/crypto.c"], [("decision", "bpak_pkg_verify"), ("payload and trees", "bpak_verify_payload")],
  ["return code", "what the signature backend is asked"],
  "Part sizes 0..16 bytes, chunk buffer 8; signature backend and digests arbitrary; Merkle engine replaced by a recording stand-in (the real one is decided by C11-C13).")
P("C23", "Adding a file appends exactly its bytes as a new part",
  "Adding a file to a package puts a new part behind the existing ones with the identifier of the given name, the file's size, zero padding up to the next multiple of 512, and the given flags; the file's bytes followed by the padding are stored at its place, the other parts' headers, metadata and stored bytes stay as they are, and header and file carry the payload digest of the new contents. If the part exists already, the file is missing, ends early, or a read, write or seek of the package fails, an error is reported and the header in the package file is left alone.",
  [I, F], "files of sizes around the padding and buffer boundaries, every flag combination, every byte position, every single failing file call",
  "Tests add a few files of convenient sizes; padding, offset and partial failure handling depend on the size modulo 512 and on which call fails.",
  ["lib/pkg_create.c", "lib/pkg.c"], [("adding", "bpak_pkg_add_file"), ("payload digest", "bpak_pkg_update_hash"), ("header", "bpak_pkg_write_header")],
  ["package file", "header in memory", "return code"],
  "File sizes 0, 511, 514, 515, 1024, 1300 in the quick tier, every size of 0..600 and 1000..1300 in the thorough one; chunk buffer 512; one or two parts before it.")
P("C24", "Deleting parts removes exactly them, with the rest intact",
  "After deleting a part the package holds exactly the other parts with the same headers in the same order, each with the same stored bytes, offsets adjusted, the file ending behind the last part, and the payload digest of header and file that of the remaining payload. With the option to remove metadata exactly the metadata referring to the part is removed and all other keeps its contents; without it all metadata stays. Deleting all parts leaves an empty payload, with the option only metadata not referring to any part. A missing part is reported and nothing changes; any failing file call is reported.",
  [I, F, HI], "packages of 4 parts with transport encoded and excluded parts, every content, each deleted position, every single failing file call",
  "Tests delete from one layout; data moves in chunks whose boundaries, encodings and metadata references matter.",
  ["lib/pkg.c", "lib/bpak.c"], [("one part", "bpak_pkg_delete_part"), ("all parts", "bpak_pkg_delete_all_parts")], ["package file", "header in memory", "return code"],
  "Layouts as listed with up to 41 payload bytes and chunk buffer 8; contents symbolic.")
P("C25", "Extracting a part yields exactly its data",
  "Extracting a part writes a file that holds exactly the part's stored data without its padding, for a transport encoded part its encoded data, replacing an existing file. A missing part, a package that ends early and any failing file call are reported as errors. The package is not changed.",
  [I, F], "packages of 3 parts, every content, each position, every single failing file call",
  T6 + "; part boundaries that do not fall on buffer boundaries and short files are not tried.",
  ["lib/pkg.c"], [("extraction", "bpak_pkg_extract_file")], ["output file", "return code"], "Part sizes 0..20 bytes with chunk buffer 8.")
P("C26", "Adding a file with hash tree stores data, tree, salt and root hash that belong together",
  "Adding a file with hash tree adds the file's part as adding a file does, and behind it a part with the hash tree identifier of the name holding the complete tree computed over the whole file with a salt that is stored, together with the tree's root hash, in metadata referring to the data part. Header and file carry the payload digest of the result. If computing the tree or any file call fails, an error is reported and the package file's header mentions no tree, salt or root hash.",
  [I, F], "files of 1, 515 and 600 bytes, every byte position, root hash, tree contents, failing computation and every single failing file call",
  "One image is added and verified by the same code.",
  ["lib/pkg_create.c", "lib/utils.c"], [("adding", "bpak_pkg_add_file_with_merkle_tree")], ["package file", "header in memory", "what is given to the tree computation"],
  "Merkle engine replaced by a recording stand-in of 64-byte trees that accepts any size (C11-C12 decide the real one); chunk buffer 512.")
P("C27", "Adding a public key appends exactly its encoded bytes as a new part",
  "Adding a key puts a part behind the existing ones that holds exactly the loaded public key's data, zero padded to a multiple of 512, with the identifier of the given name and the given flags, and header and file carry the new payload digest; nothing else changes. A key that does not load, an existing part and any failing file call are reported and leave the header in the package file alone.",
  [I, F], "keys of 91, 512 and 513 bytes, every content, every single failing file call",
  "Tests add one key size.",
  ["lib/pkg_create.c"], [("adding", "bpak_pkg_add_key")], ["package file", "header in memory", "return code"], "Key sizes as listed in the quick tier, 1..600 in the thorough one.")
P("C29", "Signing stores exactly the backend's signature of the current package",
  "Signing recomputes the payload digest, loads the named private key, signs the digest of the resulting header with it, and stores that signature, zero filled behind its end, and its length in the header in memory and in the file. Writing a given signature stores up to 512 bytes in the same way and refuses longer ones. Nothing else in header or payload changes. If the key does not load, signing or any file access fails, an error is reported, and a refused request writes nothing.",
  [I, F], "every header field, old and new signature of 0..512 bytes, backend failure, every single failing file call",
  "Real keys only produce a few signature lengths; remains of a longer old signature or a failure after the header changed go unnoticed.",
  ["lib/pkg_sign.c", "lib/pkg.c"], [("signing", "bpak_pkg_sign"), ("raw signature", "bpak_pkg_write_raw_signature")], ["package file", "header in memory", "what the backend is asked"],
  "One part of 5 bytes; backend and digests arbitrary.")
P("C44", "The digest of a part covers exactly its data",
  "The part digest is the SHA-256 of exactly the part's stored data without padding, for a transport encoded part its encoded data. It is refused for a part that is not there, a package that ends early, an output buffer shorter than 32 bytes, and any failing read or hash call; nothing is written behind the given buffer and the package is not changed.",
  [I, F], "two parts of 0..19 bytes, every identifier, content, file length and buffer size, one failing hash and file call",
  "Two fixed parts are compared; sizes around the chunk boundary and failures are not tried.",
  ["lib/pkg_verify.c"], [("part digest", "bpak_pkg_part_sha256")], ["digest returned", "bytes fed to the hash"], "Chunk buffer 8; plain and transport encoded parts.")
P("C28", "A keystore gives out a key only when everything about it is right",
  "Looking up a key in a compiled-in keystore gives the first key of that id, only if the keystore is marked as verified, and otherwise an error and no key. Loading a key from a keystore package succeeds exactly when the file is a valid package, the caller's check of the header agrees, its keystore provider id is the one asked for, the key part exists, is at most 1024 bytes long, can be read completely and parses; the parser gets exactly the part's data without padding, and the key returned carries the part's id. Otherwise an error is returned; the package is closed in any case and never written to.",
  [I, F], "keystores of up to 3 keys; packages of 3 parts with every size below 2^20, encoding, provider id, check and parser answer, file length and key byte; each failing file call",
  "Tests load one good key; a key part of unusual size, a short file, a refused check or a wrong provider in combination is not tried.",
  ["lib/keystore.c", "lib/keystore_load_from_file.c", "lib/pkg.c"], [("lookup", "bpak_keystore_get"), ("loading", "bpak_keystore_load_key_from_file")],
  ["return code", "key returned", "what is parsed"], "Key parser and check callback arbitrary; contents watched at one arbitrary position.")
P("C15", "Applying a patch yields the bytes the patch describes, however the input arrives",
  "Applying a well-formed binary patch writes, in order, for every control block the sum of the difference bytes and the origin's bytes at the current origin position, followed by the extra bytes, and then moves the origin position by the block's adjustment; the output is the same however the patch is cut into input chunks and whether it is uncompressed or packed. The length reported is the number of bytes written. A patch that refers to bytes outside of the origin, a failing or short read or write and a failing decompressor are reported.",
  [I, F], "every difference, extra and origin byte of patches with two control blocks; every cut into up to three chunks; every failing callback",
  "Tests apply two recorded patches in one chunk size; state kept across a cut inside a control block or between difference and extra data is hardly exercised.",
  ["lib/bspatch.c"], [("patch engine", "bpak_bspatch_write"), ("end", "bpak_bspatch_final")], ["bytes given to the write callback", "return codes"],
  "Control words concrete (5 shapes, up to 18 output bytes), work buffer 8; heatshrink and lzma replaced by stand-in streams; unions read as structs.")
P("C20", "Decoding a package yields the package it was encoded from, part by part",
  "Decoding a transport package writes a package in which every part that is not encoded is copied unchanged, every patched part is what the patch engine makes of exactly the part's stored bytes and the origin's part of the same id, and every generated hash tree is computed over the decoded data part with the stored salt, each at its own place; the header is the input's with no part marked as encoded. It succeeds exactly when every step does: a missing or lacking origin, an unknown decoder, a decoded length other than announced, an input that ends early and any failing file call are errors. Input and origin are only read.",
  [I, F], "packages of two and three parts, every content, engine answer and metadata combination listed, each failing file call",
  "Tests decode a few recorded packages; offsets differ between input, output and origin, so mixtures of encoded and plain parts of different sizes matter.",
  ["lib/transport_decode.c", "lib/pkg.c"], [("package", "bpak_pkg_transport_decode"), ("part", "bpak_transport_decode_start/write_chunk/finish")], ["output file", "what the engines are given", "return code"],
  "Part sizes up to 64 bytes with chunk buffer 8; patch and Merkle engine replaced by recording stand-ins (C11, C12 and C15 decide the real ones).")
P("C21", "Encoding a package stores each part in its encoded form at its place",
  "Encoding a package for transport writes a package in which every part with an encoder in its metadata is replaced by what the encoder makes of the part's and the origin's data, marked as encoded with the length of that result, every part to be generated has no stored data, and every other part, including those already encoded, is copied unchanged, each at its place; all other header fields are the input's. A missing origin, an unknown encoder, an origin without the part, an input that ends early and any failing file call are errors. Input and origin are only read.",
  [I, F], "packages of two and three parts, every content and engine answer, each failing file call",
  "Tests encode a few packages and decode them again with the same code.",
  ["lib/transport_encode.c", "lib/pkg.c"], [("package", "bpak_pkg_transport_encode")], ["output file", "what the engine is given", "return code"],
  "Part sizes up to 64 bytes; difference engine replaced by a recording stand-in.")
P("C22", "Only an origin with the same package id is used",
  "Encoding or decoding with an origin package proceeds only if both packages carry a package id and the 16 bytes of both ids are equal; otherwise it fails before any part is written.",
  [I], "every pair of 16-byte package ids, missing ids on either side",
  "Tests use one matching and one entirely different id.",
  ["lib/transport_decode.c", "lib/transport_encode.c"], [("decoding", "bpak_transport_decode_set_origin"), ("encoding", "bpak_pkg_transport_encode")], ["return code", "output file"],
  "Two-part packages.")
P("C30", "Metadata is rendered from its own bytes and within the caller's buffer",
  "Rendering bytes, package ids or a metadata entry as text gives the hexadecimal, textual or uuid form of exactly that entry's bytes, ended by a zero, never writes behind the given buffer, and refuses a buffer that is too small for hexadecimal, uuid or version text (numbers are cut short); entries shorter than their kind requires are not read beyond their size.",
  [I], "every content, every buffer size up to 90, entries of the right size and shorter",
  "Tests render entries of well-formed packages into a large buffer.",
  ["lib/utils.c"], [("bytes", "bpak_bin2hex"), ("entry", "bpak_meta_to_string"), ("uuid", "bpak_uuid_to_string")], ["text", "bytes behind the buffer"],
  "Formatted printing replaced by a stand-in for the conversions used; entry sizes as listed.")
P("C31", "Opening a package accepts sound files, creates new ones, and leaves everything else alone",
  "Opening an existing file succeeds exactly when it starts with a sound header, which then is the package's header; the file is not changed. Opening a new or empty file for writing stores a fresh sound header without parts, metadata or signature and with the digest of an empty payload. A missing, short, unsound or unreadable file, or any failing access, is an error that leaves a file with contents unchanged, closes it and leaves no open file in the package; closing twice is harmless.",
  [I, F], "every header, every file length, reading, changing and creating; each failing file or hash call",
  "Tests open good packages and two damaged ones.",
  ["lib/pkg.c", "lib/bpak.c"], [("opening", "bpak_pkg_open"), ("closing", "bpak_pkg_close"), ("new header", "bpak_init_header")], ["file", "header", "return code"],
  "No bound on header or length; one fault at a time.")
P("C32", "Header setters change only their field, and a signature is taken out whole",
  "Setting the key or keystore id changes only that field; a new header is empty and valid. Taking the signature out of a header gives exactly its bytes and length, blanks it and its length in the header and nothing else, and is refused without any change if there is no signature, its length exceeds the signature area or the caller's buffer.",
  [I], "every header, every id, every buffer size, signature lengths 0, 1, 71, 512, 513, 65535",
  "One signature length is tried.",
  ["lib/bpak.c"], [("taking out", "bpak_copyz_signature"), ("ids", "bpak_set_key_id, bpak_set_keystore_id"), ("new header", "bpak_init_header")], ["header", "buffer"],
  "Signature lengths as listed.")
P("C14", "Patch streams of any content are handled safely",
  "Whatever bytes a patch consists of and whatever its callbacks answer, applying it never accesses memory outside of its buffers, never overflows, writes contiguously, and reports every failing callback.",
  [I, F], "every patch stream and callback answer", "Fuzzing samples streams.",
  ["lib/bspatch.c"], [("patch engine", "bpak_bspatch_write")], ["callbacks", "return codes"], "")
P("C16", "A computed difference patches back to the new data",
  "For every origin and target the difference computed by the encoder, applied to the origin, yields the target.",
  [I], "every pair of byte strings", "Tests use two files.", ["lib/bsdiff.c", "lib/sais.c"], [("difference", "bpak_bsdiff"), ("suffix array", "sais")], ["patch", "patched output"], "")
P("C17", "The heatshrink codec restores every stream",
  "Whatever is packed with heatshrink is restored exactly, whatever the chunking of input and output.",
  [I], "every byte string and chunking", "Tests use recorded files.", ["lib/heatshrink"], [("encoder", "heatshrink_encoder_*"), ("decoder", "heatshrink_decoder_*")], ["decoded bytes"], "")
P("C33", "Key files load and sign only as intended",
  "Loading a key file yields exactly the key stored in it or an error without leaks; signatures made with it verify.",
  [I, F], "every key file", "Tests use a few keys.", ["lib/mbedtls_wrapper.c"], [("keys", "bpak_crypto_load_public_key"), ("signing", "bpak_crypto_sign")], ["key", "signature"], "")
P("C38", "The command line tool changes packages only as asked and reports every failure",
  "Every subcommand either performs exactly the requested operation and exits 0, or reports the failure, exits non-zero and leaves the package usable.",
  [I, F], "every argument list and package", "Tests run typical command lines.", ["src"], [("subcommands", "src/*.c")], ["exit code", "package file"], "")
P("C45", "The Python module behaves like the library",
  "Each operation of the Python package object has the effect of the library function it stands for and raises an exception when that fails, without leaking references.",
  [I, F], "every call sequence", "Tests run typical scripts.", ["python"], [("wrapper", "python/*.c")], ["exceptions", "package file"], "")
NA["C14"] = "Arbitrary control words make every buffer length, offset and the number of state changes symbolic: the symbolic execution of 30-byte streams did not finish within 300 s in our trials. Well-formed and origin-leaving patches are decided by C15."


NA["C33"] = "Key parsing and signing are mbedTLS (no source here, a shared library): the deciding code can not be encoded, only bpak's glue around it."
NA["C38"] = "The tool works through getopt, stdio and terminal output over arbitrary argument vectors; argv strings and the process state can not be encoded within reach together with the library below. The library operations it calls are decided by C03-C32."
NA["C45"] = "The module is written against the CPython API, whose object model and reference counting has no source here to encode."
