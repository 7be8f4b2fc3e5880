#!/usr/bin/env python3
"""Writes /verif/known_findings.json from the list below (the checks read only its "findings")."""
import json, os
FIXED = """
C03 10d48ca dump() opened (truncated) the destination before encoding, so an image that cannot be encoded destroyed the existing file; a short count of write() was ignored (C02) and the file stayed open after errors (C06)
C01 1619d2e the plain binary reader raised TypeError for every file
C01 bcb04fc Intel hex: extended address records were left out when two sections share their low 16 address bits or when a row crosses a 64 KiB boundary
C05 3a4895e reader and writer objects used twice carried the address offset and pending row of the previous file into the next
C01 8bf4496 FPC writer: wrong length field, files could not be read back
C04 f60f96f FPC reader decoded cut off lines to wrong bytes
C01 e5fa570 ASCII hex space writer did not terminate address fields
C01 3032f19 extended Tektronix writer and reader did not work
C01 8924121 row lengths whose count does not fit the length field gave unreadable files (also C03)
C06 12e77e5 readers left files opened by name open on errors (S-record: always)
C06 26a1f3f every reader/writer object added another handler to its logger: one message printed n times
C04 fdc5134 S-record reader accepted data in records whose length says there is none
C14 0221ce9 sections built from a bytearray/array shared its storage; default constructed sections shared one object
C14 c4ff5ba join_sections() emptied the list it was given
C14 a37cd19 images created with join=False shared section objects
C13 025b552 Section.write() with items larger than one byte changed the size of the section
C13 121538a strings were read and written across the end of a section
C13 a6e204b insert_section() accepted a section enclosing existing ones
C13 96cbb79 reading an array of no elements returned one element
C13 97ec3ae insert_section() counted items, not bytes
C16 4d16fca requesting the registry again dropped all registrations
C16 f88dcc1 registration was check-then-insert without a lock and not case-insensitive
C17 b013857 32-bit values were read with the native 8-byte long
C17 6678c73 short positive SLEB128 values (bit 6 clear) were decoded as negative (also C18)
C06 746f023 memory mapping an ELF file leaked its descriptor on failure (also C10)
C07 55120f8 symbols.fetch(types=several) returned the first type only
C07 28379be sections.fetch(sections=...) was ignored
C07 61aa061 section/symbol properties raised when evaluated
C07 09e2d86 only the first note of a section was reported
C08 5bf59db the index was created in place and committed in steps: a killed, failing or concurrent open left a partial index that was later served as complete (also C09, C10, C11)
C18 7266eab nesting of debug information entries was lost and the last entry of a unit could be missing
C18 c1b0e47 abbreviations of another table were used for undefined codes; negative implicit constants
C18 2adff42 entries were recorded again by every decode, and partially by failed ones
C18 557d12a attribute values above 2**63-1 aborted the decode
C18 4dad22e headers of DWARF 5 type and skeleton units were read as entries; DWARF 2 ref_addr size
C12 ceafa64 oj-elf-extract ended with success without writing anything
C18 310db43 location expressions were decoded with the byte order of the file processed last
C13 67ea654 an interrupted insert_section() left an inconsistent section list
C07 1e751d3 name patterns were matched the wrong way round
C01 1c274f0 plain binary writer: gaps were dropped for empty fillers (also C03), integer fillers failed
C04 1eb3c05 extended Tektronix reader accepted records with an odd length field
C12 468e358 oj-elf-info could not be started
C01 a907c56 S0 and S5 records of S2/S3 files were written with a wide address field: headers grew by zero bytes at each load and save, S5 could not be read back
C07 923c4d5 opening an ELF file with an empty symbol table raised TypeError (also C08 to C12)
"""
fixed = []
for l in FIXED.strip().splitlines():
    p, c, t = l.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, c, t))
json.dump({"findings": [], "fixed": fixed}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)
print(len(fixed))
