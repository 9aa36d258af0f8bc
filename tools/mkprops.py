#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

A, D, U, S3 = "atrcopy/ataridos.py", "atrcopy/diskimages.py", "atrcopy/utils.py", "atrcopy/dos33.py"
SG, EX = "atrcopy/segments.py", "atrcopy/executables.py"

p("C01", "Atari DOS 2: a file written to an image reads back byte for byte",
  "After a file has been added successfully to an Atari DOS 2 image (single, enhanced or double density, with or without ATR header), reading it by the name it was given returns exactly the bytes that were written, whatever their number, including none at all. This is so both on the live image object and on a new image object parsed from the saved bytes, and whatever free-sector layout, other files and deleted directory entries the image had before.",
  ["inputs", "histories"], "all file contents of every length that fits, all free-sector layouts, all positions of the directory entry, all densities",
  "The tests write a handful of fixed sizes to a few sample images; sector boundaries, fragmentation and directory position are sampled, not covered.",
  [A, D, U, SG],
  [("payload split into linked sectors", "diskimages.py build_sectors, utils.py WriteableSector.add_data"),
   ("sector numbers assigned and linked", "utils.py VTOC.assign_sector_numbers / reserve_space, ataridos.py AtariDosWriteableSector.next_sector_num"),
   ("directory entry encoded and parsed", "ataridos.py AtariDosDirent.encode_dirent / parse_raw_dirent"),
   ("chain followed on read", "ataridos.py AtariDosDirent.process_raw_sector, AtariDosDiskImage.get_file_segment")],
  observe=["image.write_file then image.find_file / get_file; AtariDosDiskImage(SegmentData(image.bytes.copy()))"])
p("C02", "DOS 3.3: a file written to an image reads back, zero padded to sectors",
  "After a file has been added successfully to a DOS 3.3 image, reading it by its name returns the bytes written followed only by zero bytes up to the next multiple of the sector size (at least one sector). This is so for every length including files that need several track/sector lists, on the live image object and on one parsed anew from the saved bytes.",
  ["inputs", "histories"], "all file contents, lengths, names up to 30 characters, file types and free-sector layouts",
  "The tests use a few sizes and names on one template; multi-list files, text type and fragmentation are not covered.",
  [S3, D, U, SG],
  [("track/sector lists written", "dos33.py Dos33Dirent.add_metadata_sectors, Dos33TSSector.set_tslist"),
   ("track/sector lists read", "dos33.py Dos33Dirent.get_track_sector_list, Dos33TSSector.get_tslist"),
   ("sector order of the file", "dos33.py Dos33DiskImage.get_file_segment, Dos33Dirent.read_sector"),
   ("catalog entry encoded and parsed", "dos33.py Dos33Dirent.encode_dirent / parse_raw_dirent")],
  observe=["image.write_file then image.find_file"])
p("C03", "Adding or deleting one file leaves everything else on the disk alone",
  "Adding or deleting a file on an Atari DOS 2 or DOS 3.3 image never changes the contents, the name, the type or the lock state of any other file. The only bytes of the image that may differ afterwards lie in sectors that were marked free beforehand (adding only), in the sector allocation table and in the directory, and directory entries of other files stay identical; the number of bytes in the image never changes.",
  ["inputs", "histories"], "all images with a consistent allocation table, all operations and their arguments",
  "The existing tests re-read only the file just written; no test compares the rest of the image.",
  [D, U, A, S3],
  [("only free sectors are handed out", "utils.py VTOC.get_next_free_sector / reserve_space"),
   ("each sector written at its own place", "diskimages.py write_sector_list, get_pos"),
   ("directory re-encoded losslessly", "utils.py Directory.calc_sectors, encode_dirent of both formats")],
  observe=["byte difference of image.bytes before and after"])
p("C04", "The allocation table always says exactly which sectors are in use",
  "Adding a file marks exactly the sectors that the file now occupies (including its track/sector lists on DOS 3.3) as used and no others, and deleting a file marks exactly the sectors it occupied as free and no others. The table read back from the image bytes equals that state, a stored free-sector count agrees with it, and no two files ever share a sector.",
  ["inputs", "histories"], "all allocation tables, all sequences of additions and deletions (for enhanced density: of the 720 sectors covered by the main table)",
  "Tests check free counts in a few scripted sequences only; they cannot cover all bit positions and layouts.",
  [U, A, S3],
  [("bit map decoded and encoded", "ataridos.py AtariDosVTOC, dos33.py Dos33VTOC parse_segments / calc_bitmap"),
   ("sectors reserved and freed", "utils.py VTOC.reserve_space / free_sector_list"),
   ("sectors of a file enumerated", "get_sectors_in_vtoc of both directory entry classes")],
  observe=["image.get_vtoc_object().sector_map before and after"])
p("C05", "An operation that fails leaves the disk image unchanged",
  "If adding, deleting or shredding fails for any reason (no space, directory full, missing file, damaged sector chain, unusable name), the call raises an error and every byte of the image is the same as before the call. Adding a file never stores part of it.",
  ["inputs", "histories", "fault_sequences"], "all images and all operations that raise, at whatever point of the operation the error occurs",
  "Tests check that an exception is raised, not that the image is intact, and only for disk full and directory full.",
  [D, U, A, S3],
  [("state saved and restored around each operation", "diskimages.py begin_transaction / rollback_transaction, write_file, delete_file, shred"),
   ("space checked before data is placed", "utils.py VTOC.reserve_space, Directory.get_free_dirent")],
  observe=["image.bytes before and after a raising call"])
p("C06", "The directory behaves as a map from names to files under any history",
  "After any sequence of successful additions and deletions on an Atari DOS 2 or DOS 3.3 image, the listing contains exactly the files that were added (or there initially) and not deleted, each once, and looking up any other name reports that the file is not found. Entries and sectors of deleted files are available for later additions, and an addition is refused only when the directory or the free space is exhausted.",
  ["histories", "inputs"], "all finite sequences of add and delete with all valid names",
  "Tests run two or three fixed sequences; reuse of deleted entries at all positions and directory overflow are histories they do not reach.",
  [U, D, A, S3],
  [("directory slots chosen", "utils.py Directory.get_free_dirent / add_dirent / remove_dirent"),
   ("directory encoded", "utils.py Directory.calc_sectors / store_encoded, set_sector_numbers of both formats"),
   ("directory parsed", "get_directory of both image classes")],
  observe=["[f.filename for f in image.files], image.find_dirent"])
p("C07", "Sector geometry: sectors tile the image and out of range sectors are errors",
  "For every supported disk geometry the byte ranges of the valid sectors are pairwise disjoint, in order, inside the image and cover it completely after the header, and reading a sector or a run of consecutive sectors returns exactly those bytes. Conversion between sector numbers and track/sector pairs is a bijection, and any sector number outside the disk is rejected with the library's sector error, never with another exception or with some other sector's data.",
  ["inputs", "configurations"], "all sector numbers, all geometries (ATR and XFD of 90K, 130K and 180K with and without short boot sectors and of odd sizes, DOS 3.3, bootable Apple disks)",
  "Tests never ask for the position of a sector directly; the wrong positions of double density boot sectors went unnoticed.",
  [D, A, S3, "atrcopy/standard_delivery.py"],
  [("position of a sector", "get_pos in diskimages.py and ataridos.py"), ("range check", "diskimages.py sector_is_valid"),
   ("track and sector arithmetic", "diskimages.py sector_from_track / track_from_sector"),
   ("runs of sectors", "diskimages.py get_sector_slice / get_sectors / get_contiguous_sectors / iter_sectors")],
  observe=["image.header.get_pos, image.get_raw_bytes, image.get_sectors"])
p("C08", "Clearing free space changes free sectors only",
  "Clearing the free space of an Atari DOS 2 or DOS 3.3 image sets every byte of every sector marked free to the fill value and changes no other byte of the image. All files read back as before and the allocation table is the same.",
  ["inputs"], "all image contents and allocation tables, all fill values",
  "No existing test clears the free space of an image at all.",
  [D, U], [("free sectors enumerated", "utils.py VTOC.iter_free_sectors, diskimages.py iter_sectors"), ("sectors filled", "diskimages.py shred")],
  observe=["image.shred(value); byte comparison"])
p("C09", "Damaged images never hang the library or crash it with a foreign error",
  "For every content of an image of valid size, opening it, listing it and reading or deleting any file in its directory ends after a bounded number of steps, even if sector links, track/sector lists, catalog links or sector maps are circular or point outside the disk. For Atari DOS 2, MyDOS files and DOS 3.3 each such call either returns bytes of the image or raises one of the library's own errors.",
  ["inputs"], "all byte contents of correctly sized images, in particular all cyclic link structures",
  "Test images are all healthy; a cyclic chain needs a deliberately damaged image.",
  [A, S3, "atrcopy/spartados.py", D],
  [("visited sectors remembered", "ataridos.py AtariDosDirent.process_raw_sector / MydosDirent, dos33.py get_track_sector_list / get_directory, spartados.py get_sector_map"),
   ("range checks", "diskimages.py sector_is_valid / assert_valid_sector, sanity_check of the directory entries")],
  observe=["image construction, image.get_file(dirent), image.delete_file"])
p("C10", "Atari executables: building from segments and parsing are inverse",
  "An Atari executable built from a list of non-empty data segments with origins below $FFFF parses back into segments with the same origins and the same bytes in the same order, preceded by a run-address segment unless the list contains one, and the run address is the one requested or else the origin of the first segment. Parsing any byte string yields segments that are exactly the contiguous stretches of the file announced by its headers, covers the file to its end or reports the incomplete tail, and rejects files that do not start with the marker; for a list without a run-address segment of its own, a requested run address outside all segments is refused.",
  ["inputs"], "all lists of segments with all origins and lengths, all byte strings",
  "One test file and two or three hand-made segment lists are used today.",
  [EX, A], [("file layout", "executables.py get_xex"), ("segment headers walked", "ataridos.py AtariDosFile.parse_segments")],
  observe=["get_xex(segments, run_addr)[0].data parsed by AtariDosFile"])
p("C11", "Apple binaries hold the exact memory image of the segments",
  "A BSAVE binary built from data segments starts with the lowest address and the length, and its body holds each segment's bytes at the offset of its load address, later segments on top of earlier ones and zeros elsewhere; if a run address other than the lowest address is requested, a jump to it is placed in the three bytes directly before. Such a file parses back to one segment at that address with that body, and a file whose size disagrees with its header is rejected.",
  ["inputs"], "all lists of segments (overlapping, unsorted, with gaps), all run addresses",
  "Tests check two fixed segment lists.",
  [EX, S3], [("memory image assembled", "executables.py get_bsave"), ("header checked on parse", "dos33.py Dos33BinFile.parse_segments")],
  observe=["get_bsave(segments, run_addr); Dos33BinFile"])
p("C12", "Boot images deliver every program byte to where the loader expects it",
  "A KBoot image built from segments is recognised again as such and yields exactly the executable for those segments and run address (up to 65535 bytes, the loader's counter). An Apple boot image (segments in pages below $C0 whose command list fits the boot sector) holds each 256-byte page of each segment in the sector from which the boot loader's command list will load it to that page, every byte of every segment lands at its own address, the run address is stored for the loader, and no sector is used twice.",
  ["inputs"], "all segment lists whose pages fit on the disk, all run addresses",
  "Existing tests build one KBoot image and never look at an Apple boot image's sector placement.",
  ["atrcopy/kboot.py", "atrcopy/standard_delivery.py", D],
  [("executable embedded behind boot sectors with its length", "kboot.py create_boot_image / add_xexboot_header / KBootDirent"),
   ("pages mapped to sectors and loader commands", "standard_delivery.py create_boot_image / get_fstbt_code")],
  observe=["KBootImage.create_boot_image, StandardDeliveryImage.create_boot_image"])
p("C13", "Segment views address exactly the base bytes they claim",
  "For every nesting of slices and index lists over a byte array, position i of a view and the base position it reports denote the same byte: reading through the view returns that byte, writing through it changes that byte and nothing else, and the reverse lookup returns i again or says that the byte is not part of the view. Interleaving views by n bytes yields the bytes of the views in turn, n at a time, without changing any data.",
  ["inputs"], "all base sizes, slices, index lists (distinct indexes for the reverse lookup), nesting depths and positions",
  "Tests use small fixed slices and orders on arrays of 10 to 1000 bytes.",
  [SG], [("index arithmetic", "segments.py SegmentData.__getitem__ / get_indexed / get_raw_index / byte_bounds_offset / get_reverse_index"),
         ("writes through an order", "segments.py OrderWrapper"), ("interleave", "segments.py interleave_indexes / interleave_segments")],
  observe=["segment.data[i], segment.get_raw_index(i), segment.rawdata.get_reverse_index"])
p("C14", "Marking styles and comments touches exactly the chosen bytes, undo restores",
  "Setting styles or comments on ranges of a segment, or clearing match, comment, selected, diff or user marks from them, changes exactly the chosen style bits of exactly the bytes in the ranges, asking for the ranges of a style returns exactly the maximal runs of bytes that carry it, and neither ever changes the data. Restoring saved comment data brings back exactly the styles and (non-empty) comments that the ranges had when it was saved.",
  ["inputs", "histories"], "all segments (plain, sliced, indexed), ranges, styles and comment sets",
  "Tests use a few fixed ranges on small arrays.",
  [SG], [("style masks", "segments.py get_style_bits / get_style_mask / set_style_ranges / clear_style_ranges"),
         ("ranges of a style", "segments.py get_style_ranges / bool_to_ranges"),
         ("comment save and restore", "segments.py get_comment_restore_data / restore_comments / set_comment / clear_comment")],
  observe=["segment.style, segment.rawdata.extra.comments"])
p("C15", "Saved segments and sessions are restored as they were",
  "A segment that is saved and restored onto the same base data denotes the same bytes in the same order with the same origin, names and attributes, for plain, sliced, indexed and empty segments. A saved session restores the same comments and the same data, comment and user style marks.",
  ["inputs"], "all segments over any base array, all sets of comments and styles",
  "Tests serialise a few fixed segments.",
  [SG, "atrcopy/parsers.py"], [("state saved", "segments.py __getstate__ / serialize_session"), ("state restored", "segments.py __setstate__ / reconstruct_raw / restore_session")],
  observe=["__getstate__ / __setstate__ / reconstruct_raw; serialize_session / restore_session"])
p("C16", "ATR headers: writing and parsing are inverse and describe the image",
  "A 16-byte ATR header that is parsed and written again, or written and parsed again, keeps image size, sector size, checksum, flags and unused field, for every representable value. Adding a header to raw disk data keeps the data unchanged behind it and yields a header whose size and density describe that data; a block without the magic number or of another length is refused.",
  ["inputs"], "all header field values, all data lengths and contents",
  "Only the sample images' own headers are parsed in tests.",
  [A], [("header encode and decode", "ataridos.py AtrHeader.__init__ / encode / check_size / to_array"), ("header added", "ataridos.py add_atr_header, as_new_format")],
  observe=["AtrHeader(bytes), header.encode, add_atr_header"])
p("C17", "Cartridge images are split completely and described by their header",
  "For every known cartridge type, an image of the type's size (with or without header) is split into a main segment and bank segments that together contain every byte of the ROM exactly once, each at its place in the type's layout and with the type's load address, and an image of any other size is rejected. The header written for a cartridge parses back to the same type, and the image handed to an emulator is that header followed by the unchanged ROM.",
  ["inputs", "configurations"], "all cartridge types and all image sizes and contents",
  "Tests parse two cartridge types.",
  ["atrcopy/cartridge.py"], [("layout table", "cartridge.py known_cart_types / A8CartHeader.set_type"), ("segments", "cartridge.py get_main_segment / get_banked_segments"),
   ("size check", "cartridge.py BaseAtariCartImage.check_size"), ("header", "cartridge.py A8CartHeader.to_array / create_emulator_boot_segment")],
  observe=["AtariCartImage(rawdata, type).segments"])
p("C18", "Command line: dry runs write nothing, nothing is overwritten without force",
  "With the dry-run option no command creates, changes or deletes any file, and without the force option no existing file on the local disk or inside the image is replaced. When a command reports files as copied into or removed from an image, the image file saved afterwards reflects all of them, and extracted files have exactly the contents stored in the image (except for the requested text conversion).",
  ["inputs", "configurations", "histories"], "all combinations of commands, options, file lists and existing files",
  "The command functions have no tests; the combinations of options and file lists are many.",
  ["atrcopy/__init__.py"], [("commands", "atrcopy/__init__.py extract_files, save_file, add_files, remove_files, create_image, shred_image")],
  observe=["files on disk before and after a command"])
p("C19", "Compressed images: exact contents or a clean refusal",
  "A compressed disk image is unpacked to exactly the bytes that were compressed and then treated like the uncompressed image. Data that is not valid for a compression format, damaged or truncated is refused with the library's invalid-container error so that it is tried as a plain image, and an archive format that is recognised but unsupported is reported as such; no other kind of error escapes.",
  ["inputs"], "all byte strings and all truncations or corruptions of compressed data",
  "Tests unpack nine healthy sample files.",
  ["atrcopy/container.py", "atrcopy/dcm.py", "atrcopy/parsers.py"], [("unpack and error mapping", "container.py DiskImageContainer and subclasses, dcm.py DCMContainer, parsers.py guess_container")],
  observe=["guess_container(data)"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        fh.write(json.dumps(x) + "\n")
print(len(P))
