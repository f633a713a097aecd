#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

A = "mopaq/src/archive.rs"; B = "mopaq/src/builder.rs"; H = "mopaq/src/header.rs"
T = "mopaq/src/tables/"; C = "mopaq/src/compression/"; K = "mopaq/src/crypto/"
F = "storm-ffi/src/lib.rs"; L = "storm-cli/src/"

p("M01", "Every file put into an archive is read back byte for byte",
  "Every file added to a new archive, from memory or from disk, is returned unchanged by a read of that name from the finished archive, whatever its size and content and whatever the format version, sector size, lossless compression method, encryption mode (none, name key, position-adjusted key), checksum, listfile and table-compression settings. Files of one archive never influence each other's content.",
  ["inputs", "configurations"], "all sets of files x all builder configurations",
  "The tests build a few dozen fixed archives; the encoding of a file depends jointly on its length relative to the sector size, on whether each single sector happens to compress, on encryption and on checksums, a product no fixed list covers.",
  [B, A, C + "compress.rs", C + "decompress.rs", K + "encryption.rs"],
  [("file writer: single-unit / sectored layout, offset and checksum tables", B + " write_file"),
   ("file reader: decryption, sector decoding", A + " read_file, read_sectored_file")],
  ["Archive::read_file"])
p("M02", "A name finds exactly the file stored under it, and nothing else",
  "In an archive of any size, looking up a name that was stored finds the entry stored under that name (letter case and the choice of slash or backslash do not matter), and looking up, reading or opening any other name reports that it does not exist. This holds for every order of insertion and any pattern of hash collisions or deleted slots, for archives with and without extended tables, and when the same name is stored once per language, in which case the entry found is one of that name's (asked for a language, the hash table yields an entry of that language or the neutral one).",
  ["inputs", "histories"], "all sets of stored names (with locales, collisions, deletion markers) x all probe names",
  "Tests look up a handful of names in sparsely filled tables; probing errors show only on particular collision chains, wrap-arounds, full tables, or with probe names whose short hashes collide with stored ones.",
  [A, T + "hash.rs", T + "het.rs", T + "bet.rs", B, K + "hash.rs"],
  [("hash table probing", T + "hash.rs HashTable::find_file"), ("insertion with probing", B + " add_to_hash_table"),
   ("extended-table candidate confirmed by the full hash", A + " find_file")],
  ["Archive::find_file", "Archive::read_file", "HashTable::find_file"])
p("M03", "Listings name every file exactly once and invent none",
  "With a generated listfile, listing an archive yields each stored file exactly once, under the name it was added with and with its true size, plus the listfile itself and nothing else; a listfile line that names no stored file is skipped. Enumerating without a listfile, or enumerating all entries, yields exactly one entry per stored file with its true sizes and flags; the variants with hashes list the same entries, and hashes they report are those of the names.",
  ["inputs", "configurations"], "all archives (versions, listfile modes, numbers of files) x all listing calls",
  "Tests compare listings of small fixed archives; omissions and duplicates appear with particular counts, versions, deleted entries or several files sharing a hash chain.",
  [A, B, "mopaq/src/special_files/listfile.rs", T + "bet.rs"],
  [("listing through the listfile", A + " list"), ("enumeration of block/BET tables", A + " list_all, list_all_with_hashes"),
   ("listfile generation", B + " prepare_listfile")],
  ["Archive::list", "Archive::list_all", "Archive::list_with_hashes", "Archive::list_all_with_hashes"])
p("M04", "Reported metadata describes what is stored",
  "For every archive, the information reported for a file (uncompressed size, stored size, compressed / encrypted / adjusted-key / single-unit / checksum flags, locale) and for the archive (format version, sector size, number of files, presence of listfile, attributes and signature, whether anything is encrypted, table positions and entry counts, offset and file size) equals what was put in and what the bytes on disk say. Both sets of tables of a version 3 or 4 archive describe the same files.",
  ["inputs", "configurations"], "all archives x all metadata queries",
  "Tests assert single fields of single archives; a wrong field shows only for some size, bit width, flag combination or table layout.",
  [A, H, T + "bet.rs", T + "het.rs", T + "block.rs", B],
  [("archive summary", A + " get_info"), ("file entry decoding", A + " find_file, " + T + "bet.rs get_file_info"),
   ("bit-packed table writer", B + " create_bet_table")],
  ["Archive::find_file", "Archive::get_info", "BetTable::get_file_info"])
p("M05", "Lossless compression round-trips and never grows the data",
  "For every byte string and every supported lossless method, compressing and then decompressing with the method recorded in the result and the original length gives back the original; the result is either the unchanged input or strictly shorter than it and starts with the method. Unsupported methods are refused with an error instead of producing data that cannot be restored.",
  ["inputs"], "all byte strings x all 256 method bytes",
  "Codec tests use a few texts and patterns; run-length limits, length-equality boundaries and marker bytes fail at isolated lengths.",
  [C + "compress.rs", C + "decompress.rs", C + "algorithms/sparse.rs", C + "algorithms/zlib.rs", C + "algorithms/bzip2.rs", C + "algorithms/lzma.rs", C + "algorithms/pkware.rs"],
  [("compress() keeps only results that save space", C + "compress.rs"), ("dispatch by method byte", C + "decompress.rs"), ("zero-run coding", C + "algorithms/sparse.rs")],
  ["mopaq::compress", "mopaq::decompress"])
p("M06", "Audio compression keeps length and stays within its quantiser step",
  "For every 16-bit mono or stereo signal, audio compression alone or followed by one further method decompresses to the same number of samples, keeps the first sample of each channel exactly, keeps channels apart, and reconstructs every sample to within one quantiser step of the input. Decoding any well-formed stream yields the samples prescribed by the format's decoding rule; signals it cannot represent (odd length, half a stereo frame) are refused.",
  ["inputs"], "all 16-bit signals, channel counts, follow-up methods; all encoded streams",
  "The tests use one sine and one ramp with very wide tolerances; step-index saturation, sign handling and clamping need extreme or adversarial signals.",
  [C + "algorithms/adpcm.rs", C + "compress.rs", C + "decompress.rs"],
  [("adaptive step encoder/decoder sharing one predictor", C + "algorithms/adpcm.rs")],
  ["mopaq::compress", "mopaq::decompress"])
p("M07", "Cipher and name hashes are the format's, bit for bit",
  "For every key and data, decrypting what was encrypted gives the original, single-word and block decryption agree, key zero leaves data unchanged, and the ciphertext equals that of the published algorithm. For every name and hash kind the name hashes equal the published algorithms, treat lower and upper case ASCII and the two slashes alike, and treat nothing else alike by construction.",
  ["inputs"], "all keys, word sequences, names and hash kinds",
  "Tests pin a few vectors; a wrong constant or index affects only particular bytes, lengths or non-ASCII names.",
  [K + "encryption.rs", K + "decryption.rs", K + "keys.rs", K + "hash.rs"],
  [("encryption table", K + "keys.rs"), ("block cipher", K + "encryption.rs, decryption.rs"), ("name hashes", K + "hash.rs")],
  ["mopaq::encrypt_block", "mopaq::decrypt_block", "mopaq::decrypt_dword", "mopaq::hash_string", "mopaq::jenkins_hash"])
p("M08", "With checksums, damaged file data is reported, never returned",
  "For every archive built with checksums, any change to the stored bytes of a file (data, its sector offset table or its checksum values; single bits, bursts, swapped or zeroed ranges) makes reading that file fail or still return the original content; it never returns different content (unless the altered bytes still agree with the stored 32-bit checksum). Files whose stored bytes were not touched still read correctly.",
  ["inputs", "fault_sequences"], "all archives with checksums x all corruptions of file data",
  "Tests flip one byte of one file; which corruption escapes depends on file layout, compression and encryption.",
  [A, B], [("per-sector and single-unit checksum verification", A + " read_file, read_sectored_file"), ("checksum generation", B + " write_file")],
  ["Archive::read_file"])
p("M09", "A signature is valid exactly when the signed bytes are untouched",
  "An archive signed with the format's weak or strong signature scheme is reported as validly signed, wherever in its file it starts; after any change to a signed byte or to the signature it is not, and an unsigned archive is reported as unsigned. The weak and the strong scheme are reported as such, and the public verification functions decide the same for any reader and any signed range.",
  ["inputs", "fault_sequences"], "all archives x signing scheme x all modifications of archive or signature",
  "The repository has no signed archive with a matching key, so tests only cover parsing and rejection.",
  [A, K + "signature.rs", K + "public_keys.rs"],
  [("digest over the archive without the signature", K + "signature.rs calculate_mpq_hash_md5"), ("RSA padding checks", K + "signature.rs verify_*")],
  ["Archive::verify_signature", "Archive::get_info"], hook="strong key override (cfg vp_hooks): the strong scheme's private key is not public")
p("M10", "No archive bytes crash the reader or make it allocate out of proportion",
  "For every byte sequence presented as an archive, opening it and then listing, looking up, reading, querying information, attributes and signatures each return a result or an error: no panic, no abort, no endless loop. Memory use stays proportional to the size of the file on disk plus the declared size of a file being read.",
  ["inputs"], "all byte strings as archive files, including valid archives with any field of header, tables (also inside the encryption) or file data altered",
  "Tests try a few truncated and garbage files; every field of the format is a separate way to fail.",
  [A, H, T + "hash.rs", T + "block.rs", T + "het.rs", T + "bet.rs", "mopaq/src/special_files/attributes.rs"],
  [("bounded reads", T + "common.rs read_bytes"), ("header validation", H + " MpqHeader::read, find_header")],
  ["every public method of Archive"])
p("M11", "No compressed stream crashes a decoder or exceeds the declared size",
  "For every byte string, method byte and declared size, decompression returns an error or at most the declared number of bytes, without panic or endless loop, using memory proportional to input and declared size. Truncating or altering a valid stream never leads to more output than declared.",
  ["inputs"], "all byte strings x 256 method bytes x all declared sizes",
  "Decoder tests feed valid data and one or two invalid strings; decoders have many error paths each.",
  [C + "decompress.rs", C + "algorithms/"], [("size-bounded decoding", C + "decompress.rs, algorithms/*")], ["mopaq::decompress"])
p("M12", "Building an archive is atomic",
  "Building to a path either succeeds and leaves a complete, readable archive there, or fails and leaves whatever was at that path before exactly as it was, with no other files left behind. At every intermediate moment (including a crash there) the path holds the complete old content or the complete new archive.",
  ["crash_points", "fault_sequences", "inputs"], "every file-system operation of a build as crash point or point of failure (no space, I/O error) x file sets, with and without an existing target",
  "Tests only build successfully or fail before writing; no test injects an I/O failure or looks at intermediate states.",
  [B], [("temporary file in the target directory, then rename", B + " build")], ["the target path and its directory"])
p("M13", "Archives are found and read at any aligned offset, with user data",
  "An archive embedded in a larger file at any multiple of 512 bytes, preceded by any other data (without an archive signature of its own at a multiple of 512) and followed by anything, or preceded by a user-data block that points to it, opens and behaves as on its own: same listing, contents and metadata, with the offset and user data reported. A file without such an archive is refused.",
  ["inputs", "configurations"], "all archives x offsets x surrounding bytes x user-data headers",
  "Tests embed one header at one or two offsets; every position computation of the reader must add the offset.",
  [H, A], [("aligned header search", H + " find_header"), ("offset-relative positions", A)], ["Archive::open", "Archive::archive_offset", "Archive::user_data"])
p("M14", "Stored attributes are reported per file, faithfully",
  "The attributes (checksum, time, digest, patch bit) recorded for each file in an archive's attributes file are reported unchanged for that file's index, kinds not recorded are reported as absent, and indices beyond the table have none. Serialising and parsing attributes are inverse to each other for every subset of kinds and every number of files, and attribute data of the wrong version or too short is refused.",
  ["inputs", "configurations"], "all attribute sets x file counts x subsets of kinds",
  "Tests use one or two files; bit-packing and array offsets depend on count and subset.",
  ["mopaq/src/special_files/attributes.rs", A], [("column-wise arrays", "mopaq/src/special_files/attributes.rs parse, to_bytes"), ("loading on open", A + " load_attributes")],
  ["Archive::get_file_attributes", "Attributes::parse", "Attributes::to_bytes"])
p("M15", "Version 4 digests tell exactly which table was altered",
  "A freshly built version 4 archive reports every table and header digest as valid, wherever it is embedded. After any change to the stored bytes of a table or of the digest-covered header, the digest of each changed part is reported invalid and that of every unchanged part valid (as long as the archive still opens).",
  ["inputs", "fault_sequences"], "all version 4 archives x all modifications of table or header bytes",
  "Tests check that a fresh archive is valid and one table tampering; which bytes each digest covers is only visible by trying all.",
  [A, B, H], [("digest computation", B + " calculate_md5*"), ("digest validation", A + " validate_v4_md5_checksums")], ["ArchiveInfo::md5_status"])
p("M16", "Archives written by other tools are read correctly",
  "Every archive that follows the documented format, however its writer arranged it (order and position of tables and data, gaps, table sizes, deleted and unused entries, single-unit or sectored files, raw or compressed sectors, with or without encryption, adjusted keys and checksums, positions above 4 GiB, versions 1 to 4), yields each file's content and metadata.",
  ["inputs", "configurations"], "all archives producible by an independent writer that varies every layout freedom",
  "Tests read archives the library or a small fixed helper wrote, so agreeing errors in writer and reader cancel out.",
  [A, H, T + "hash.rs", T + "block.rs"], [("table decryption and position arithmetic", A + ", " + T), ("file decoding", A + " read_file")],
  ["Archive::read_file", "Archive::find_file"])
p("M17", "Queries neither change the archive nor each other's answers",
  "In any sequence of reads, lookups, listings, information and signature queries on an opened archive, every answer equals the answer of the same query on a freshly opened archive; failing queries change nothing either. Opening without tables and loading them later gives the same archive as opening it at once, several open archives do not influence each other, and no query modifies the file.",
  ["histories"], "all sequences of queries over one or several open archives",
  "Tests query in one order; stale positions or caches show only after particular sequences.",
  [A], [("seek before every read", A), ("lazily loaded tables", A + " load_tables, get_info")], ["all public methods of Archive"])
p("M18", "The built archive depends only on its inputs",
  "Building twice from the same inputs gives identical bytes; taking a file from disk or from memory, and writing to a new or over an existing path, makes no difference. The order in which the files are added does not change what any file reads as.",
  ["inputs", "configurations"], "all file sets and configurations",
  "No test compares two builds; nondeterminism (iteration order, leftovers of a previous file) is invisible to a single build.",
  [B], [("ordered pending files, fresh temporary file", B)], ["bytes of the built file"])
p("M19", "Impossible builds are refused, not half done",
  "A build fails with an error when two files have the same name (up to letter case and slashes) and locale, when an input file or listfile cannot be read, when the compression method is unsupported, or when the target cannot be written; a set of distinct names (or one name with distinct locales) of any size always builds.",
  ["inputs", "configurations"], "all file sets including duplicates, missing inputs and bad targets",
  "Tests try one duplicate; collisions of equal names in different spelling, at chain ends or across locales differ.",
  [B], [("duplicate detection while hashing", B + " add_to_hash_table")], ["ArchiveBuilder::build"])
p("M20", "C API: reading and seeking behave like a file",
  "For every sequence of reads and seeks on a file opened through the C API, the bytes delivered, the counts reported, the resulting position, the size and the success or end-of-file status are those of an in-memory file with the archive's content; a refused operation moves nothing, and no call writes beyond the buffer size given.",
  ["histories", "inputs"], "all files x all sequences of read and seek calls with any arguments (including 64-bit and negative offsets)",
  "The C API has no tests in the repository.",
  [F], [("position kept per handle", F + " SFileReadFile, SFileSetFilePointer")], ["SFileReadFile, SFileSetFilePointer, SFileGetFileSize"])
p("M21", "C API: handles are unique and die when closed",
  "In every sequence of open and close calls, each successful open yields a handle different from all live ones and from all that were closed before, so that a stale handle never refers to something else; operations on a live handle act on the object it was opened for, closing an archive also closes its files, and operations on closed, unknown, null or wrong-kind handles fail with the error code for an invalid handle and no effect. Files that are not there and invalid arguments (null pointers, names that are no text, buffers too small) are reported with the error codes for those, never as crashes. Creating an archive honours the creation disposition (a new one only, always, an existing one only, open if there) and a refused creation leaves the file as it was.",
  ["histories"], "all sequences of C API calls with valid and invalid handles and arguments",
  "The C API has no tests in the repository.",
  [F], [("handle registries", F + " ARCHIVES, FILES")], ["all SFile* functions"], state=[("ARCHIVES, FILES", "live handles", F)])
p("M22", "C API: verification accepts intact and rejects damaged files",
  "Verifying a file or a whole archive through the C API succeeds for intact content and, when the archive carries matching attributes, fails for a file whose stored checksum or digest does not match its content or which cannot be read; it always terminates and leaves the handles usable.",
  ["inputs", "fault_sequences"], "all archives with attributes and/or checksums x corruptions x verification flags",
  "The C API has no tests in the repository.",
  [F, A], [("checksum and digest comparison", F + " SFileVerifyFile, SFileVerifyArchive")], ["SFileVerifyFile, SFileVerifyArchive"])
p("M23", "C API agrees with the library",
  "For every archive, opening, existence tests, sizes, information queries, enumeration, extraction to disk, names and reading through the C API give the same answers as the Rust library on the same file, and buffers too small for an answer are reported together with the size needed.",
  ["inputs", "histories"], "all archives x all C API query calls",
  "The C API has no tests in the repository.",
  [F], [("thin wrappers over the library", F)], ["SFileHasFile, SFileGetFileInfo, SFileEnumFiles, SFileExtractFile, SFileGetArchiveName, SFileGetFileName"])
p("M24", "Command line: a directory packed and extracted is unchanged",
  "For every directory tree of files whose names a listfile can express (UTF-8, no semicolon, backslash, line break, leading number sign or surrounding blanks, distinct up to letter case), creating an archive from it with the command-line tool, under any supported version, lossless compression, sector size and listfile setting, given as options or in a configuration file, yields an archive of that version and sector size, and extracting it with paths reproduces the same relative files with the same content and nothing else; listing the archive names exactly these files and the listfile. Ignored are the files whose path inside the source contains an ignore pattern or matches it as a glob such as *.tmp, and only those.",
  ["inputs", "configurations"], "all directory trees (names, nesting, sizes) x creation options",
  "The command-line tool has no end-to-end tests in the repository.",
  [L + "commands/archive.rs", L + "commands/file.rs", L + "main.rs"], [("relative names with normalised separators", L + "commands/archive.rs create"), ("extraction", L + "commands/file.rs extract")],
  ["files on disk, exit status"])
p("M25", "Command line: extraction never writes outside the target directory",
  "Whatever names an archive contains (parent references, absolute paths, drive prefixes, either separator, empty parts, special characters), extracting it creates or modifies files only inside the chosen target directory.",
  ["inputs"], "all archives with hostile names x extraction options",
  "No test extracts a hostile archive.",
  [L + "commands/file.rs"], [("path sanitising", L + "commands/file.rs output_path_for")], ["the file system around the target directory"])
p("M26", "Command line: exit status tells whether all went well",
  "Verifying an intact archive or extracting all its files exits with status zero and reports success; when any file's content is damaged, unreadable or missing, when a table or header digest or signature is wrong, or the archive cannot be opened, the command exits with a non-zero status, while intact files are still extracted. Commands that read leave the archive file as it was, and a command meant to change it (add, remove) that does not exits with a non-zero status.",
  ["inputs", "fault_sequences"], "all archives x corruptions x verify / extract / list / info invocations",
  "The command-line tool has no end-to-end tests in the repository.",
  [L + "commands/archive.rs", L + "commands/file.rs"], [("error accounting", L + "commands/archive.rs verify, " + L + "commands/file.rs extract")], ["exit status"])
p("M27", "Listfile text is interpreted line by line as documented",
  "For every listfile content, the names read from it are exactly those of its lines, in order, after removing surrounding blanks, comment lines, empty lines and metadata behind a semicolon, whatever the line endings and even if the text is not valid UTF-8. An external listfile given at build time is stored and used unchanged.",
  ["inputs"], "all byte strings as listfiles",
  "Tests use a few short texts.",
  ["mopaq/src/special_files/listfile.rs", B], [("line parser", "mopaq/src/special_files/listfile.rs")], ["parse_listfile", "Archive::list"])
p("M28", "C API: concurrent use gives the answers of some sequential order",
  "When several threads use the C API at once, on shared or separate archives and files, every read returns content of the right file at a position consistent with some order of the calls, no byte of a shared file is delivered twice or skipped, per-thread error codes and locale settings do not mix, closing never leaves usable file handles behind, and no combination of calls deadlocks or crashes.",
  ["schedules", "histories"], "all interleavings of C API call sequences of several threads",
  "The C API has no tests; no test is concurrent.",
  [F], [("global registries behind locks, thread-local error and locale", F)], ["all SFile* functions"])
p("M29", "Written archives follow the documented format",
  "Every archive the library builds can be decoded by an independent implementation of the documented format: header fields, table positions and sizes, encrypted hash and block tables, hash-chain placement, sector offset tables, encryption keys, checksums, and in versions 3 and 4 the extended tables and digests, give back every file, stored with the methods, keys and checksums asked for, and nothing overlaps or lies outside the archive.",
  ["inputs", "configurations"], "all file sets x all builder configurations",
  "Tests read archives back with the same library, so agreeing errors in writer and reader cancel out.",
  [B, K + "encryption.rs", T], [("table and file writers", B)], ["bytes of the built file"])
p("M30", "Command line: reports and hash tools agree with the library",
  "For every archive and name, what the command-line tool reports in text, JSON or CSV (file lists, sizes, search results, file information, archive information, verification and analysis counts, name hashes and comparisons) agrees with the library's answers for the same input, settings written to a configuration file are shown again, every JSON report parses, and no name or archive makes it crash.",
  ["inputs", "configurations"], "all archives, names and patterns x report commands x output formats",
  "The command-line tool has no end-to-end tests in the repository.",
  [L + "commands/file.rs", L + "commands/archive.rs", L + "commands/hash.rs", L + "output.rs"], [("report formatting", L)], ["standard output, exit status"])
p("M31", "Archives and files beyond 4 GiB are complete or refused",
  "When the data put into a new archive exceed what 32-bit positions and sizes can express, the build either yields an archive in which every file, below and above the 4 GiB line, is listed with its true size, described alike by all tables and read back byte for byte (versions 2 to 4), or fails with an error and leaves the target path as it was (version 1 archives above 4 GiB, single files of 4 GiB and more). Version 1 archives just below the limit build and read correctly.",
  ["inputs", "configurations"], "all sets of files whose sizes add up to about 4 GiB or more x builder configurations",
  "No test builds an archive of more than a few megabytes.",
  [B, T, "mopaq/src/archive.rs"], [("positions and sizes narrowed to 32 bits, high-position table", B)], ["build result", "list_all", "find_file", "read_file", "bytes of the built file"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
