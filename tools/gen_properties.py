#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the JSON stays valid)."""
import json, os
P = []

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})

HEX = ["objutils/hexfile.py", "objutils/ihex.py", "objutils/srec.py", "objutils/tek.py", "objutils/etek.py", "objutils/mostec.py",
       "objutils/sig.py", "objutils/emon52.py", "objutils/rca.py", "objutils/cosmac.py", "objutils/titxt.py", "objutils/ash.py",
       "objutils/fpc.py", "objutils/shf.py", "objutils/binfile.py", "objutils/__init__.py"]

p("C01", "A save that returned success loads back byte-for-byte",
  "For every supported hex or binary format and every image that holds data and whose addresses fit that format, once saving the image to a file or stream has returned without error the stored bytes are exactly the in-memory encoding of that image, and loading them yields the same bytes at the same addresses (for the address-less plain binary format: the same bytes from the given base, gaps filled). Header records (S0) of an S-record file are still there, unchanged, after loading and saving it as S-records. This holds for images built in memory, loaded from files of other programs, and loaded from one format to be saved in another; for every row length the format can represent, whatever the file held before, whatever was saved or loaded earlier in the process, and however the storage splits or interrupts the writes.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every format x image layout (address ranges, gaps, section order, sizes) x row length x history of earlier saves/loads x split, short and interrupted writes",
  "Tests encode and decode a handful of fixed images in memory; they never write through storage that splits or interrupts writes, never reuse a destination, and never sweep layouts such as sections whose 16-bit offsets coincide.",
  HEX,
  [("writer: section rows, extended-address records, footers", "objutils/hexfile.py Writer.dumps, objutils/ihex.py Writer.compose_row"),
   ("reader: record matching and joining", "objutils/hexfile.py Reader.read, ASCIIHexReader.read"),
   ("storing", "objutils/hexfile.py Writer.dump, objutils/binfile.py Writer.dump, objutils/shf.py Writer.dump")],
  observe=["bytes of the destination file after dump() returns", "addresses and bytes of the loaded image"])

p("C02", "A save never reports success when the storage lost data",
  "If the storage refuses, truncates or fails any step of saving an image (opening, any write, flushing, closing, or accepting only part of a write), saving either still stores the complete encoding or raises an error; it never returns normally leaving anything but the complete encoding in the destination. A later save of the same unchanged image to healthy storage stores the complete encoding.",
  ["fault_sequences", "inputs"],
  "every format x every storage operation of a save x every error (no space, I/O error, quota, interrupted, short count, failing close) x path, buffered, unbuffered and user-supplied destinations",
  "No test ever saves to storage that fails; the storage step at which the error arrives is the quantifier.",
  HEX, [("write and close of the destination", "objutils/hexfile.py Writer.dump, objutils/binfile.py Writer.dump, objutils/shf.py Writer.dump")],
  observe=["whether dump() raised", "destination content after dump()"])

p("C03", "A save that cannot be encoded leaves the existing file untouched",
  "When saving an image to a path fails because the image or options cannot be encoded in the chosen format, or because encoding is interrupted or runs out of memory, the destination path keeps exactly what it had before: an existing file keeps its content, and no file appears where none was. The image being saved is not altered by the attempt, whether it fails or succeeds.",
  ["inputs", "fault_sequences", "histories"],
  "every format x unencodable image or option x interruption or allocation failure at any point of the encoding x existing, missing or shared destination",
  "Tests that provoke encoding errors use in-memory encoding only and never look at a destination; an interruption at an arbitrary point cannot be sampled by a unit test.",
  HEX, [("order of encoding and opening the destination", "objutils/hexfile.py Writer.dump, objutils/binfile.py Writer.dump, objutils/shf.py Writer.dump"),
        ("address range check", "objutils/hexfile.py Writer.calculate_address_bits")],
  observe=["destination content and existence after a failed dump()", "image content after dump()"])

p("C04", "Damaged or torn hex files never load as wrong data",
  "For the formats whose records carry length and checksum (Intel hex, S-record, Tektronix, MOS, Signetics, EMON52, absolute four-packed-code records and the SHF format), loading a file that was torn, bit-flipped, zero-filled, or had lines lost, repeated or spliced either raises or yields exactly what the intact records in it say: a data or address record that stands complete on a line of its own but has a wrong checksum or length is never turned into image data nor silently passed over, except that SHF may leave out a bad block. Loading such a file always terminates. A file cut off at any point, in any text format, never loads as bytes that the saved image did not have at those addresses.",
  ["crash_points", "fault_sequences", "inputs"],
  "every format x image x every point at which a save can be cut off x every pattern of flipped, lost, duplicated, spliced or zeroed bytes",
  "Tests hold a few hand-made bad-checksum lines; the damage position and kind, and the multi-record context around it, are the quantifier.",
  ["objutils/hexfile.py", "objutils/ihex.py", "objutils/srec.py", "objutils/tek.py", "objutils/mostec.py", "objutils/sig.py", "objutils/emon52.py", "objutils/shf.py", "objutils/titxt.py", "objutils/rca.py", "objutils/cosmac.py", "objutils/fpc.py"],
  [("per-record checks", "check_line() of every reader"), ("block digest check", "objutils/shf.py Reader.load")],
  observe=["loaded image or raised error versus an independent decoder of the damaged file"])

p("C05", "Loading does not depend on how bytes arrive; read failures surface",
  "Loading an image gives the same result from a path, an open binary file or stream, a bytes object or a text string, whatever sizes the reads return, in however many chunks the content arrives, and whatever was loaded before, from this path or another; permission to read the file is enough. If a read fails, loading raises; it never returns an image of only the part that could be read.",
  ["fault_sequences", "inputs", "schedules"],
  "every format x image size (also larger than any buffer) x delivery form x short reads, interrupted calls and a read error at any operation",
  "Tests load short in-memory strings in one piece; nothing splits or fails a read.",
  HEX, [("reading the source", "objutils/hexfile.py Reader.load/loads/read, objutils/srec.py Reader.load, objutils/shf.py, objutils/binfile.py, objutils/fpc.py")],
  observe=["image returned by load()/loads()", "exceptions"])

p("C06", "Repeated use does not pile up descriptors, handlers or files",
  "Any number of loads, saves and ELF opens, successful or failing at any point, leaves no growing trail in the process or on disk: once the results are dropped, the number of open file descriptors, registered log handlers and leftover temporary files stays bounded, and one problem is reported once, not once per earlier call. Descriptors opened by a call that failed are closed.",
  ["histories", "fault_sequences"],
  "histories of loads, saves and ELF opens of any length with failures injected at any operation",
  "A leak shows only over a history of many operations in one process; unit tests perform one each and never count.",
  ["objutils/logger.py", "objutils/hexfile.py", "objutils/srec.py", "objutils/utils/__init__.py", "objutils/elf/__init__.py", "objutils/elf/model.py", "objutils/binfile.py", "objutils/shf.py"],
  [("log handler registration", "objutils/logger.py Logger.__init__"), ("closing of sources", "Reader.load of every codec"), ("mapping the ELF file", "objutils/utils/__init__.py create_memorymapped_fileview")],
  observe=["/proc/self/fd", "logging handlers", "scratch directory listing", "captured log output"])

ELF = ["objutils/elf/__init__.py", "objutils/elf/model.py", "objutils/utils/__init__.py"]
p("C07", "An opened ELF file is reported exactly, the first and every later time",
  "For every well-formed 32- or 64-bit, little- or big-endian ELF file (fewer than 65280 sections, values below 2**63), an open that succeeds reports exactly the header fields, sections (attributes, content, order), program headers, symbols (every attribute, owning section and access flags), comment, notes and ARM build attributes (tag and value of those for the whole file, other than Tag_compatibility) that are in the file, and every name, section, type, binding, access and order filter selects exactly the matching entries. The report and the extracted program image are the same whether the file is being indexed for the first time or read back from its saved index, in this process or another, and whatever other ELF files are open. Permission to read the ELF file itself is enough.",
  ["inputs", "histories", "configurations"],
  "every ELF class x byte order x section, segment and symbol layout x filter x cold, warm or re-created index",
  "The test suite opens no ELF file end to end; which layout, which filter, and first-time versus cached are the quantifiers.",
  ELF, [("parsing into the index", "objutils/elf/__init__.py ElfParser.load_data"), ("reading the index", "ElfParser.create_db_on_demand, SectionAPI, SymbolAPI, create_image")],
  state=[("saved index", "per-file database next to the ELF file", "objutils/elf/model.py Model")],
  observe=["ElfParser properties, sections/symbols API, create_image"])

p("C08", "A crash while indexing an ELF file never corrupts later opens",
  "If the process opening an ELF file is killed at any instant, the next open of the same file (and every open after it) succeeds and reports exactly what a crash-free open would. However many opens in a row are killed, no partial index is ever taken for a complete one, and no open fails or hangs because of what a killed one left behind.",
  ["crash_points", "histories"],
  "every storage operation of an indexing open x kill before, after or inside it x sequences of killed and completed opens",
  "The kill instant is the quantifier; no test kills an open.",
  ELF, [("transactional creation of the index", "ElfParser.create_db_on_demand, load_data, _parse_symbol_section commits"), ("content hash stored in the index", "objutils/elf/model.py Meta")],
  state=[("saved index and its journal", "survive the crash", "objutils/elf/model.py Model")],
  observe=["report of the next open"])

p("C09", "A saved index is never served for different file content",
  "Over any history of opening, rewriting, replacing, renaming, copying or deleting ELF files and their indexes, with clocks jumping either way, equal sizes or timestamps, and several ELF files sharing one index name, every successful open reports exactly the content the file had when it was opened. An index left by another file, an older content, or any valid database that is not this file's index is rebuilt, and an unchanged file is not reported differently. Opening an ELF file never alters it.",
  ["histories", "schedules", "fault_sequences"],
  "histories of open/rewrite/rename/copy/delete over several files x clock jumps and preserved timestamps x small content edits",
  "Staleness needs a history of edits between opens; the tests have none.",
  ELF, [("content hash comparison", "ElfParser.create_db_on_demand, calculate_crypto_hash")],
  state=[("hash in index", "identifies the content the index was built from", "model.Meta")],
  observe=["report of every open in the history"])

p("C10", "Concurrent opens of one ELF file each see correct contents",
  "When several processes open the same ELF file at the same time, in any interleaving of their storage operations, with the file being replaced or any of them being killed meanwhile, every open either reports exactly one version of the file that existed during the open or raises an error; none mixes versions, misses entries or hangs. After all of them are gone, an open succeeds and reports the current content.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of the storage operations of 2-4 openers and a rewriter x kills",
  "Interleavings of processes sharing the index file cannot be fixed by a test.",
  ELF, [("index creation, replacement and locking", "ElfParser.create_db_on_demand, objutils/elf/model.py set_sqlite3_pragmas")],
  state=[("index file and journal", "shared by the openers", "objutils/elf/model.py Model")],
  observe=["report or error of each opener, and of a final open"])

p("C11", "Storage errors while opening an ELF never yield wrong contents",
  "If any storage operation fails while an ELF file is being opened, indexed or queried (no space, I/O error, permission, too many files, short reads or writes, exhausted memory maps), each operation either raises an error or gives exactly the right answer; entries are never missing or altered silently. Once the storage is healthy again, an open of the same file succeeds and reports exactly its content.",
  ["fault_sequences", "histories"],
  "every storage operation of open and query x every error, once or persistently x cold, warm and stale index",
  "No test injects a storage error; which operation fails is the quantifier.",
  ELF, [("error handling around the index", "ElfParser.create_db_on_demand, _parse_symbol_section"), ("database transactions", "objutils/elf/model.py Model")],
  observe=["errors raised, report when none, report of the next healthy open"])

p("C12", "The command-line tools produce complete output or fail",
  "Extracting the program image of an ELF file with the command-line tool ends either with success and an output file that loads back to exactly the allocated sections' bytes at their addresses (respecting include and exclude patterns and joining), or with a failure status; it never ends with success and an incomplete, stale or wrong output file. This holds under storage errors, kills followed by a re-run, and concurrent runs on the same ELF file, and the listing tools likewise print exactly what the file contains or fail.",
  ["fault_sequences", "crash_points", "schedules", "inputs"],
  "every ELF layout x output format x storage error or kill at any operation x re-run x concurrent runs",
  "There is no test of the tools at all; the fault position and the history of re-runs are the quantifiers.",
  ["objutils/scripts/oj_elf_extract.py", "objutils/scripts/oj_elf_syms.py", "objutils/scripts/oj_elf_info.py", "objutils/scripts/oj_elf_arm_attrs.py", "objutils/scripts/oj_hex_info.py", "objutils/elf/__init__.py", "objutils/hexfile.py"],
  [("tool pipeline", "objutils/scripts/oj_elf_extract.py main")],
  observe=["exit status, output file, standard output"])

p("C13", "An image is a memory: edits apply fully or not at all",
  "Over any history of inserting sections, reading and writing bytes, numbers, arrays and strings, an image and its sections behave as one flat memory from addresses to bytes: a successful read returns exactly what the last successful writes put there, no operation ever changes a byte outside the range it was given, or the size of a section, and overlapping insertions are refused. Images compare equal exactly when they hold the same sections. Inserting a non-empty section into free space, and reading or writing inside existing data, succeed. An operation that raises, is interrupted or runs out of memory at any point leaves the memory as before or as after the complete operation, never in between.",
  ["histories", "fault_sequences", "inputs"],
  "operation histories of any length x values, types and byte orders x operations that fail or are interrupted at any step",
  "Tests perform single edits on one image; histories mixed with failing or interrupted edits are unbounded.",
  ["objutils/image.py", "objutils/section.py"],
  [("bounds checks and slice assignment", "objutils/section.py Section.write*"), ("overlap check and joining", "objutils/image.py insert_section, objutils/section.py join_sections")],
  state=[("sections", "ordered contiguous blocks", "objutils/image.py Image._sections")],
  observe=["bytes at all addresses after each operation"])

p("C14", "Independent images, sections and buffers never affect each other",
  "Building an image from sections, joining, saving, comparing or dumping it never alters the caller's sections, lists or buffers, and two images or sections created separately never share storage, not even when empty, default-constructed, built from the same inputs or loaded from the same file. Changing one later never changes another, whatever the order of operations and even when a constructor fails half way.",
  ["histories", "fault_sequences", "inputs"],
  "histories over several images, sections and buffers built from each other",
  "Sharing shows only when one object is changed after another was built from it; tests build and inspect single objects.",
  ["objutils/image.py", "objutils/section.py", "objutils/hexfile.py"],
  [("copying of section data", "objutils/section.py _data_converter, join_sections"), ("default values", "objutils/section.py Section")],
  observe=["content of every live object after each operation"])

p("C15", "Threads working on separate objects do not disturb each other",
  "When several threads load, save, edit images or open ELF files concurrently, each on its own objects and files, every thread gets exactly the result it would get running alone, in every interleaving, also when another thread's operation fails or is interrupted. No thread deadlocks. (Decoding DWARF in several threads at once is not covered.)",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving at source-line granularity of 2-3 threads x operations x failures",
  "The interleaving is the quantifier; tests are single-threaded.",
  ["objutils/__init__.py", "objutils/hexfile.py", "objutils/fpc.py", "objutils/ihex.py", "objutils/srec.py", "objutils/elf/__init__.py", "objutils/logger.py", "objutils/checksums.py"],
  [("per-call reader and writer instances", "objutils/__init__.py load/loads/dump/dumps")],
  observe=["result of each operation versus its single-threaded result"])

p("C16", "The codec registry is one linearizable, stable table",
  "Every access to the codec registry, from any thread and in any interleaving, sees the one process-wide table: obtaining the registry again never loses or resets registrations, a name once registered is found afterwards in any letter case and cannot be silently replaced, and of concurrent registrations of the same name exactly one succeeds. Look-ups, listings and registrations are linearizable, and an interrupted or failed registration leaves the table as before or fully registered.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of register, get, list and re-obtain from several threads x interruptions",
  "Tests register sequentially once; interleavings and re-obtaining histories are the quantifier.",
  ["objutils/registry.py", "objutils/utils/__init__.py", "objutils/__init__.py"],
  [("singleton creation", "objutils/utils/__init__.py SingletonBase"), ("check then insert", "objutils/registry.py Registry.register")],
  state=[("codec table", "name to reader/writer classes", "Registry._codecs")],
  observe=["history of calls and returns, checked against a sequential table"])

p("C17", "Binary stream decoding is exact or raises, at any end of data",
  "Reading fixed-width integers of either signedness and byte order, variable-length integers and zero-terminated strings from a binary stream returns exactly the encoded value and advances by exactly its encoding, independently of the machine's native sizes and of what was read before. When the data ends, the stream delivers fewer bytes than asked, or a read fails in the middle of a value, the read raises; it never returns a value made from missing bytes and never loops forever.",
  ["inputs", "fault_sequences", "histories"],
  "every value, encoding length and sequence of reads x end of data, short read or error at any byte",
  "Tests decode a dozen complete values; the cut position within a sequence is the quantifier.",
  ["objutils/readers.py", "objutils/dwarf/encoding.py"],
  [("fixed-width and LEB128 decoding", "objutils/readers.py PlainBinaryReader, objutils/dwarf/encoding.py ULEB/SLEB")],
  observe=["decoded values, positions, exceptions"])

p("C18", "DWARF debug information is decoded exactly and recorded once",
  "For every well-formed 32-bit DWARF 2-5 debug information section with at least one unit that uses the tags and attribute forms the library supports, decoding reports exactly the tree of entries, with their tags, nesting, attributes and values, that is in the file, the same on a fresh index, a saved index, after a killed decode and when repeated. The decoded entries recorded in the file's index are complete and recorded once, and a killed or failed decode never makes later opens or decodes wrong. Debug information that is malformed or not supported (undefined abbreviation, 64-bit DWARF, unknown version or form) is refused with an error and records nothing.",
  ["crash_points", "histories", "inputs", "fault_sequences"],
  "every unit, abbreviation and entry tree x repeated, killed and failing decodes at any storage operation",
  "No test decodes debug information at all.",
  ["objutils/dwarf/__init__.py", "objutils/dwarf/encoding.py", "objutils/elf/model.py", "objutils/elf/__init__.py"],
  [("tree construction", "objutils/dwarf/__init__.py DwarfProcessor.do_dbg_info"), ("recording in the index", "objutils/elf/model.py DebugInformationEntry")],
  observe=["returned tree, rows in the index, later opens"])

# --- pure functions of their input: no schedule, clock, I/O or fault for the property to depend on
p("N01", "Checksum and CRC routines compute the published algorithms",
  "Every checksum, longitudinal parity and CRC routine returns the value the published algorithm defines for that input, for every input length, width and parameter set.",
  ["inputs"], "all byte sequences and parameter sets", "Tests check a few published vectors.", ["objutils/checksums.py"], [("CRC and sum routines", "objutils/checksums.py")])
p("N02", "Hexdump output renders exactly the bytes and addresses given",
  "The hexdump of any section shows every byte at its address once and in order, abbreviating only rows that repeat.",
  ["inputs"], "all sections", "Tests compare a few dumps.", ["objutils/hexdump.py"], [("row rendering", "objutils/hexdump.py")])
p("N03", "ARM build attribute values are described as the ABI defines them",
  "For every ARM build attribute, the text shown for its value is the meaning the ABI defines.",
  ["inputs"], "all tags and values", "Tests decode a few sections.", ["objutils/elf/arm/attributes.py"], [("tag decoding", "objutils/elf/arm/attributes.py")])
p("N04", "DWARF location expressions evaluate as the standard defines",
  "Every DWARF expression is rendered and evaluated as the standard defines.",
  ["inputs", "programs"], "all expressions", "No test evaluates one.", ["objutils/dwarf/sm.py"], [("stack machine", "objutils/dwarf/sm.py")])
p("N05", "Binary comparison reports exactly the differing ranges",
  "Comparing two byte sequences reports exactly the ranges in which they differ.",
  ["inputs"], "all pairs of byte sequences", "Tests compare a few pairs.", ["objutils/utils/diff.py"], [("diff", "objutils/utils/diff.py")])
p("N06", "Format probing identifies every file the library itself writes",
  "Probing any file the library wrote in some format names a format that reads it back to the same image.",
  ["inputs"], "all images and formats", "Tests probe single readers with fixed text.", ["objutils/__init__.py", "objutils/hexfile.py"], [("probing", "objutils/__init__.py probe/probes")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
