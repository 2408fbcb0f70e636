import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
B="src/builder.rs"; N="src/new_reader.rs"; F="src/fst.rs"; R="src/reader_writer.rs"; S="src/structs.rs"; W="src/window.rs"; D="src/dir_reader.rs"; PY="disc-riider-py/src/lib.rs"; CLI="iso-tool/src/main.rs"; L="src/lib.rs"

p("C01","Directory build preserves every file",
 "For every well-formed source directory the directory build succeeds, the resulting image opens and its DATA partition lists exactly the files found under DATA/files (same paths, nothing missing or extra; empty directories may be dropped), each reading back byte-identical to its source, and every directory of the image is in case-insensitive ASCII name order. This holds for any nesting the operating system allows (symbolic links count as what they point to), any number of files, any Shift-JIS-representable names and any file size, including empty files, files of many 2 MiB groups, and data or tables that end on or straddle block and group boundaries.",
 ["inputs","configurations"],"every directory tree: shapes, names, sizes, boundary alignments of system files, file table and file data",
 "No test builds an image at all; builder.rs and new_reader.rs have no tests. The quantifier is over all trees and alignments.",
 [B,D,F,R,N],[("two-pass write: data streamed, then the file table rewritten with final offsets",B+" WiiDiscBuilder::add_partition"),("recursive directory scan into a sorted tree",D+" build_fst_from_directory_tree_rec"),("group cache write-back when the position changes group",R+" Write::write / flush")],
 [dict(name="current group cache / dirty flag",meaning="the one decrypted group buffered for writing",where=R)],["image bytes returned by builder::build_from_directory","WiiPartitionReadInfo::get_fst / open_file / get_crypto_reader"])
p("C02","Builder stores exactly what a partition definition supplies",
 "For every caller-supplied partition definition, each file of its tree is requested exactly once and with its full path, and is stored with exactly the bytes and length supplied, whatever placeholder offset and length its tree carried. Stored files start at 64-byte-aligned offsets, never overlap one another or the system area (header, bi2, apploader, DOL, file table), and are each followed by at least the requested number of zero padding bytes before the next file; the order of names in the supplied tree is kept. A file whose length the format cannot hold (4 GiB or more), or a bi2 longer than its 0x2000 bytes, is refused with an error.",
 ["inputs","programs"],"every implementation of the partition definition trait: trees, data, paddings, placeholder values",
 "No test calls add_partition; the placement arithmetic depends on all sizes together.",
 [B,F,R],[("file loop assigning offset and size, then zero padding to the next 64-byte boundary",B+" add_partition"),("placeholder file table then final rewrite of the same size",B+" add_partition, "+F+" FstToBytes::write_to")],None,["calls received by the definition","file table and decrypted data of the image"])
p("C03","Builds carry system files and metadata over unchanged",
 "An image built from a directory or a partition definition carries the supplied bi2, apploader and DOL byte-identically where the header says they are, every header field except the layout fields (DOL and file-table offset/size), the ticket (every field and the title key), the certificates, the region block, and all TMD fields except the signature, the fake-sign counter and the first content's size and hash. A directory build's disc header equals boot.bin with the encryption and hash-verification disable flags cleared; reading these items back through the library, for any DOL or apploader section layout their headers describe, returns the same bytes.",
 ["inputs"],"every ticket/TMD/certificate/header value, every bi2 up to 0x2000 bytes, apploader and DOL layout and size",
 "builder.rs, structs.rs and new_reader.rs have no tests; nothing reads back a built partition.",
 [B,N,S],[("fixed addresses for bi2/apploader and aligned placement of DOL and file table",B+" add_partition"),("size from header fields when reading apploader and DOL",N+" read_apploader / read_dol"),("binrw layouts",S)],None,["image bytes","read_bi2/read_apploader/read_dol/read_tmd/read_certificates/get_header/get_region"])
p("C04","Built partitions satisfy the Wii hash tree and encryption",
 "In every image the builder produces, every 32 KiB block of every 2 MiB group of each partition decrypts with the ticket's title key and the block's own IV, its H0, H1 and H2 hash tables and their zero padding are correct for the decrypted data, and the partition's H3 table holds that group's hash, with zero entries for groups that do not exist. No group of the partition's data area is missing or left unencrypted, in whatever order groups were written or revisited during the build.",
 ["inputs","histories"],"every build; every order in which the builder visits groups",
 "The only stream test reads back with the same code and never checks hashes; the verifier in the crate is unused.",
 [R,B],[("hash and encrypt a whole group on write-back",R+" hash_encrypt_block"),("H3 table collected while writing and stored at 0x8000",B+" add_partition")],
 [dict(name="H3 table",meaning="per-group hash of the H2 table",where=R)],["image bytes, through an independent decrypt-and-verify"])
p("C05","Partition headers and TMD describe the partition truthfully",
 "In every image the builder produces, each partition header's TMD, certificate-chain, H3 and data offsets and sizes delimit exactly the TMD, certificates, hash table and encrypted data actually stored there, without overlap and inside the partition; the TMD's first content hash is the SHA-1 of the stored H3 table and its size, like the header's data size, is the decrypted size of all groups, covering every file and the file table. The stored TMD is fake-signed: its signature is all zero and the SHA-1 of its signed part starts with a zero byte; a TMD, certificate chain or number of groups that cannot be stored this way is refused with an error.",
 ["inputs"],"every ticket, TMD (any number of contents), certificate types and payload",
 "No test looks at a partition header or TMD written by the builder.",
 [B,S],[("header filled in after data is written",B+" add_partition"),("content hash/size patch and brute-forced fake signature",B+" add_partition")],None,["unencrypted part of each partition in the image"])
p("C06","Multi-partition images list exactly the finished partitions",
 "For every sequence of partition additions on one builder (up to the 16 GiB an image can address), the finished image lists exactly the partitions whose addition succeeded, in order, with their types, at offsets whose extents (header through last encrypted group) are disjoint and start at or after 0x50000; every one of them opens and carries its own files, keys and headers unaffected by the others. A failed addition leaves no entry behind, finishing the image before adding more changes nothing in the end, and bytes that were already in the destination before the build do not add, remove or change partitions.",
 ["histories","inputs","fault_sequences"],"every sequence of successful and failing additions, any types and sizes, any previous destination contents",
 "No test adds even one partition.",
 [B,S],[("running data offset advanced by the encrypted size",B+" add_partition"),("partition table written at the end",B+" finish")],
 [dict(name="partition list and next data offset",meaning="what the table will list and where the next partition goes",where=B+" WiiDiscBuilder")],["image bytes","WiiIsoReader::partitions / open_partition"])
p("C07","Random access into an encrypted partition returns the plaintext",
 "For every well-formed image (built by this library or not) and every sequence of seeks, reads, positioned reads and file or region windows, interleaved over any of its partitions, the bytes returned equal the decrypted partition data at the requested position; a sequential read advances the position by exactly the bytes returned, a positioned read does not move it and returns exactly the requested length, and reads stop at the end of the data. Opening a file by path yields exactly that file's bytes, and opening a path that is missing or a directory yields nothing.",
 ["inputs","histories"],"all images, all offsets/lengths and all interleavings of read operations",
 "new_reader.rs has no tests; correctness depends on cache state left by earlier operations.",
 [N,W],[("single-group decrypted cache keyed by group number",N+" EncryptedPartState"),("position arithmetic in blocks and groups",N+" read_into / read_into_vec")],
 [dict(name="current_group/current_position",meaning="cached group and read position",where=N)],["CryptPartReader, open_window, open_file"])
p("C08","Read faults never yield wrong bytes",
 "Whatever sequence of I/O errors, interrupted calls, short reads (also reads that deliver nothing, as at an early end of the file) or failing seeks the underlying file produces while an image is opened and read, every operation either fails or returns the same bytes as without faults, and a read that fails does not move the reading position. Once the faults stop, operations on the same open reader return correct data again without reopening, and interrupted reads or short reads that deliver something never cause a failure by themselves.",
 ["fault_sequences","histories"],"every fault schedule on the source at every operation",
 "No test injects an I/O fault; the window depends on a cache invalidated at the right moment.",
 [N,W],[("cache marked invalid before a group is loaded, valid only after it was read completely",N+" do_load_group"),("read_exact for every group",N+" do_load_group")],None,["results of every read operation under a fault-injecting source"])
p("C09","A window is a faithful bounded view of its stream",
 "A window over a stream behaves like an independent stream of its own: for every sequence of reads, exact reads, writes, seeks (from start, current and, when a length is set, end) and position queries, position 0 is the window start, reads and writes return or change exactly the bytes at the window's own position, and, when a length is set, nothing at or past the window end is ever returned or modified. This holds from the first operation on, wherever the underlying stream was positioned before, also when operations fail, transfer short counts, or windows are nested.",
 ["histories","inputs","fault_sequences"],"all operation sequences, starts, lengths, initial source positions and short/failed source calls",
 "Two tests run one fixed sequence each, and none covers exact reads on a bounded window or relative seeks on a fresh one.",
 [W],[("own position, source re-seeked before each transfer",W+" ensure_seeked"),("clipping to the remaining length",W+" bytes_left")],
 [dict(name="pos/start/length",meaning="window-relative position and bounds",where=W)],["IOWindow Read/Write/Seek results and the backing bytes"])
p("C10","File-tree edits behave like a case-insensitively keyed tree",
 "For every sequence of add, find, remove, rename-through-callback, reorder and visit operations on a file tree: adding places the node in the named directory (creating missing directories), replaces and returns an existing entry of the same case-insensitive name, fails without changing anything if a path component is a file, and keeps each directory in case-insensitive ASCII order; finding and removing act on exactly the entry with that exact path and nothing else. Visits report every node once, parents before children in stored order, with its current full path, and reordering sorts every directory without losing, adding or altering nodes.",
 ["histories","inputs"],"all operation sequences over all trees and names",
 "Tests check three fixed adds, three finds and three removes on one tiny tree.",
 [F],[("binary search with case-insensitive order",F+" add_node_iter"),("linear exact-name descent",F+" find_node_iter / remove_node_iter"),("recursive visits",F+" callback_all_files(_mut)")],None,["public Fst/FstNode API results and tree contents after each operation"])
p("C11","The file table survives serialisation",
 "For every file tree nested at most 2048 deep whose offsets the format can hold (below 16 GiB), converting it to bytes either fails because it cannot be represented (a name that Shift-JIS cannot store reversibly, or more name bytes than the format can address), or yields a well-formed Wii file table: parent and end indices of every directory, file offsets and lengths, and names all correct for an independent parser. Reading a well-formed table, whoever wrote it and at whatever stream offset, yields exactly the tree it encodes, so that writing and reading back is the identity on names, nesting, order, lengths and 4-byte-aligned offsets.",
 ["inputs"],"all trees (any depth up to 2048, any node count), all names, all well-formed tables",
 "One test round-trips one four-node tree with the crate's own reader.",
 [F],[("name table plus index-based nodes",F+" FstToBytes / build_node_bytes_rec"),("recursive reader",F+" transform_fst_rec")],None,["bytes from FstToBytes::write_to; tree from Fst::read"])
p("C12","Malformed input is reported as an error, never a crash",
 "Opening, listing, reading or extracting system files from any byte sequence presented as a disc image, reading any bytes as a file table, ticket, TMD, certificate or header, and building from a directory whose system files hold arbitrary bytes, always ends by returning a value or an error. It never panics, aborts, overflows the stack, loops without end or reserves memory for claimed counts and sizes that the input does not actually contain, however the counts, offsets, sizes, indices or keys in it are corrupted.",
 ["inputs"],"all byte sequences, in particular images with hostile fields behind valid encryption",
 "No test gives the reader any malformed input.",
 [N,F,S,B],[("binrw errors and explicit validation of table indices, key index and sizes",S+", "+F+" Fst::read, "+N)],None,["process outcome of each parse"])
p("C13","A build reports success only for a complete image",
 "When the destination of a build fails at any point (error on write, read, seek or flush, or a write that accepts no bytes), the build returns an error, and it returns success only after all data has been written and flushed so that the image is complete. Short writes, short reads and interrupted reads and writes at any point change nothing: the finished image is byte-identical to one built without them; an interrupted seek or flush does the same or is reported as an error.",
 ["fault_sequences"],"every fault at every destination operation, every short-transfer schedule",
 "No test runs the builder or injects faults.",
 [B,R,W],[("write_all/read_exact and ? on every destination call",B+", "+R),("final flush",B+" finish, "+R+" flush")],None,["build result versus image bytes in a fault-injecting destination"])
p("C14","An interrupted build never presents a wrong partition",
 "If a build into an empty destination stops at any point (the process dies, or the destination or a partition definition fails), the destination as written so far either fails to open as an image or lists only partitions that each cannot be opened or are complete and correct in files, system files and hashes. The partition table becomes visible only after everything it refers to has been written.",
 ["crash_points"],"every prefix of the sequence of destination writes, including torn writes",
 "No test interrupts a build.",
 [B],[("headers and partition table written last",B+" add_partition / finish")],None,["every prefix of the recorded write log replayed into an empty file"])
p("C15","Builds are reproducible and rebuilding is a fixed point",
 "Building twice from directories with the same contents gives byte-identical images, independent of the order in which the file system enumerates entries, of timestamps and of the kind of destination. Extracting an image built from a directory and building again reproduces every partition byte for byte.",
 ["inputs","configurations"],"all trees, enumeration orders and destinations",
 "No test builds twice or extracts.",
 [B,D,PY,F],[("tree kept sorted while scanning",D+" / "+F+" add_node_iter"),("deterministic fake signature search",B)],None,["image bytes of repeated builds"])
p("C16","Build progress is sane",
 "During every build the progress callback is first called with 0, never decreases and never exceeds 100, whatever lengths the partition definition's tree claims. A successful directory build with at least one file ends at exactly 100; when the claimed lengths are the true ones, or all unknown (zero), 100 is reported only once all file data has been supplied and is the last value reported.",
 ["inputs"],"all trees, sizes (including only empty files and files above the 16 MiB batch size) and claimed lengths",
 "No test passes a progress callback.",
 [B],[("percentage from processed and total bytes or files",B+" add_partition")],None,["values received by the callback, interleaved with file requests"])
p("C17","Python extraction writes exactly the selected files",
 "For every image and every set of prepared sections, extraction creates for each section exactly the files of its (possibly filtered) file tree with byte-identical contents, plus the system, disc, ticket, TMD and certificate files that a later rebuild needs, replacing whatever older files of the same names held; if one of them cannot be read or written completely, extraction raises an error. Section names are accepted in any letter case, preparing an unknown, absent or already prepared section raises an error, the DOL hash is the SHA-1 of the section's DOL, and progress starts at 0, stays within 0..100, falls back only when another section begins and, if there is anything to transfer, ends at 100; an exception raised by the progress callback changes nothing. After a failed extraction the same extractor can be used again. Rebuilding from the extracted directory gives an image with the same files, whatever the target file held before; a rebuild that cannot complete raises an error.",
 ["inputs","histories"],"all images, section selections, pre-existing destination contents",
 "The Python module has no tests and is never imported.",
 [PY,N],[("per-file chunked copy loop",PY+" extract_to"),("system file extraction",N+" extract_system_files")],None,["files on disk after extract_to; Python exceptions; callback values"])
p("C18","Extraction stays inside the destination directory",
 "Extracting any image, whatever names its file table holds (absolute paths, parent references, separators, empty names), never creates or changes a file or directory outside the chosen destination directory (a directory without symbolic links in it). Names that would leave it make extraction fail with an error.",
 ["inputs"],"all file tables, in particular hostile names",
 "No test extracts anything.",
 [PY,N,F],[("file names validated before a path is built from them",PY+" extract_to")],None,["file system outside the destination, before and after"])
p("C19","The Python removal filter removes exactly what the callback selects",
 "Filtering a section calls the callback exactly once for every file with its slash-joined full path and never for directories, and afterwards the section's tree lacks exactly the files for which the callback returned a true value; files for which it returned a false value or raised stay. Filters compose, affect only the named section and its later extraction, and never change the contents of the files that remain.",
 ["inputs","histories"],"all trees, callbacks and sequences of filters",
 "The Python module has no tests.",
 [PY],[("recursive retain over the section's tree",PY+" remove_files_by_callback")],None,["callback arguments; files written by extract_to afterwards"])
p("C20","The command line tool reports and builds truthfully",
 "For every image, listing sections prints every partition with its type and offset in table order, printing files prints every node of the chosen section's tree once, indented by depth and in stored order, and system extraction writes that section's header, bi2, apploader, DOL and file table byte-identically; rebuilding writes the same image as the library. Section names are case-insensitive, and whenever the requested section is unknown or absent or the operation fails, the exit status is non-zero.",
 ["inputs","configurations"],"all images, sections, commands and failing inputs",
 "The tool has no tests.",
 [CLI,N,F],[("command dispatch",CLI+" main")],None,["stdout, files and exit status of the iso-tool binary"])
p("C21","On-disc structures keep their layout and values",
 "For every ticket, TMD, certificate, partition header, disc header, DOL and apploader header whose bytes parse, writing the parsed value reproduces the same number of bytes with every defined field at its fixed offset and value (undefined padding may become zero), whatever the field values are, including disc titles (valid UTF-8) that fill or are cut at their 64-byte field. A ticket's title key is the AES-CBC decryption of its stored key under the common key it names with the title ID as IV, and writing encrypts it back to the same stored key; an unknown common key is an error.",
 ["inputs"],"all field values of all structures",
 "structs.rs has no tests.",
 [S,L],[("binrw layouts and key derivation",S)],None,["BinReaderExt/BinWriterExt on the public structures"])
p("C22","Opening an image reports its header, region and every partition",
 "For every image whose four partition tables are well-formed, opening it reports the disc header fields and region block as stored and lists every entry of every table, in table order, with its type and offset, wherever the tables are placed and however many entries each holds. Opening a listed partition reports that partition's own ticket, TMD, certificates, headers and file tree, for either common key. The type names DATA, UPDATE and CHANNEL are understood in any ASCII letter case, and no other text is.",
 ["inputs"],"all table counts, placements, partition types, offsets and keys",
 "No test opens an image.",
 [N,S],[("table walk",S+" read_parts"),("partition open",N+" open_partition")],None,["WiiIsoReader and WiiPartitionReadInfo accessors"])
p("C23","Unbuildable directories are refused, never silently altered",
 "A directory build returns an error, and never an image that drops, renames, merges or truncates content, when a required system file or the files directory is missing, when the boot, region, ticket, TMD or certificate file ends before its structure does, when bi2 is longer than the 0x2000 bytes the format has for it, when two names in one directory (of files or of directories holding files) differ only in ASCII letter case, when a name is not valid Unicode or not reversibly representable in Shift-JIS, when a file is too large for the format, or when a file disappears while the image is being built. The error for a missing system file names the missing path.",
 ["inputs","configurations"],"all defective directory trees",
 "No test builds from a defective directory.",
 [D,B,F],[("duplicate, name and size checks while scanning",D),("required-file check",B+" try_open"),("name encoding check",F+" rec_build_fst_bytes")],None,["result of build_from_directory"])
p("C24","Image copy reproduces the source's data partition",
 "Copying an image that has a DATA partition with a THP directory yields an image whose DATA partition has the same files byte for byte, except that THP keeps only entries whose names start with Demo, and the same system files, ticket key, certificates, disc header and region. The ticket, TMD and hash tree are those of a regular build, the copy lists just this partition and keeps nothing the destination held before, and the source image is not modified.",
 ["inputs"],"all such images, including ones laid out differently from what this library writes",
 "No test calls the copy function.",
 [B,N],[("reader-backed partition definition",B+" CopyBuilder / build_copy")],None,["destination image versus source plaintext"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'])
