prop("F01", "A random-access standard file behaves as an ordered list of records",
 "After any sequence of writes, rewrites, erasures, directory edits, checkpoints, closings and reopenings, the file contains exactly the records that the sequence leaves, in order, with the descriptors and data last written to each; what is read in the same session, after a reopen, and what the record counts and the file checker say all agree. A rewrite replaces the first record with the same key (in place when the length is the same), an erased record is never seen again, and no operation disturbs another record, including when the directory grows past a page. Every in-range descriptor value and every character at every position of the name, label, type and grid strings comes back as given, the origin date included; out-of-range ones are refused and leave the file unchanged. A file opened for reading only is never changed.",
 ["histories", "inputs"], "all operation histories up to a depth, from an empty file and from files whose directory page is about to fill; every descriptor field at every bit boundary",
 "no test in the suite opens a standard file at all; the directory paging, deletion and rewrite paths interact over histories",
 ["src/fstd98/fstd98.c", "src/fstd98/xdf98.c"],
 [("write/rewrite path", "src/fstd98/fstd98.c:c_fstecr, src/fstd98/xdf98.c:c_xdfput"), ("deletion", "src/fstd98/xdf98.c:c_xdfdel"), ("directory pages written and checksummed at close", "src/fstd98/xdf98.c:c_xdfcls"), ("descriptor bit packing", "src/fstd98/fstd98.c:c_fstecr, crack_std_parms")],
 src=["checks/fststore.cc"], level="model-checked", tech="explicit-state exploration of all operation sequences up to a depth, executed on the real code and compared with a reference list after each sequence and after reopening",
 note="depth 4 (quick) or 5 (thorough) from an empty file over a 15-operation alphabet; depth 2/3 from files of 254-257 (thorough also 511, 512) records; data are small signed integer records",
 rule="an evaluation is one record compared (descriptors and data); distinct states are distinct final record lists and descriptor cases",
 bound={"quick": "15 operations, depth 4 from empty, depth 2 from 254..257 records; one-field descriptor sweep; directory edits of every field and pair of fields; origin dates of every stamp style; 216x3 read-only histories", "thorough": "depth 5 from empty, depth 3 from 254..257, 511 and 512 records"})
prop("F02", "A search finds exactly the matching records, in file order",
 "A search with any combination of given and wildcard keys finds exactly the live records whose keys match, each once and in file order, whichever way it is driven: step by step, as a list (with its count and overflow report), from a given handle, or while reading. Keys that differ in a single bit or character are told apart; a user-set mask ignores exactly the masked bits and characters and reads back as set. Searches on different files do not disturb each other, and reading or erasing does not lose the place. Linked files are searched as one file in link order and separately once unlinked. A search by physical level finds both codings of the level in any of the three ip fields. The checked read accepts only the exact grid descriptors, and a handle that designates no record is refused by every operation.",
 ["histories", "inputs"], "all wildcard patterns over all key combinations, every bit and character of every key, all interleavings of search operations on two files up to a depth, all record counts of up to four linked files around page boundaries",
 "no test in the suite opens a standard file",
 ["src/fstd98/fstd98.c", "src/fstd98/xdf98.c"],
 [("search target and mask", "src/fstd98/fstd98.c:c_fstinfx, src/fstd98/xdf98.c:build_fstd_prim_keys"), ("directory walk", "src/fstd98/xdf98.c:next_match"), ("linked files", "src/fstd98/xdf98.c:c_xdflnk"), ("level tables", "src/fstd98/fstd98.c:ip_is_equal")],
 src=["checks/fstsearch.cc"], level="model-checked", tech="exhaustive enumeration of query patterns and of search-operation histories on the real code against a reference search",
 note="two values per key plus an absent one; history depth 4 (quick) or 5 (thorough) over 14 operations on two 7-record files; up to 4 linked files of 0..600 records",
 rule="an evaluation is one query fully enumerated; distinct states are query patterns, cursor states and link configurations",
 bound={"quick": "4^7 query patterns over 128 records; 14^4 histories; link sets of 2-4 files", "thorough": "14^5 histories; all 12-character label masks; all link sets"})
prop("F04", "A field written to a standard file reads back within its packing precision",
 "For every supported data type (raw bits, floating point, quantised and turbo packed, unsigned and signed integers, characters, IEEE, complex), number of bits and element width, with or without compression and with or without missing values, a field of any shape read back from a standard file equals the one written: exactly for raw, character, integer and IEEE data that fit the requested number of bits (the leading bits for shortened IEEE), and within the step that the number of bits implies for quantised data. The data type and the missing-value flag recorded are those asked for (or the documented substitute), missing points come back as missing and no other point does. Writing leaves the caller's array unchanged, reading writes only the field, neighbouring records are undisturbed, and a copy made in image mode decodes to the same field.",
 ["inputs"], "all combinations of data type, number of bits, element width, field shape, value pattern and missing-point set in the stated sets; all fields of four points over four values",
 "no test in the suite packs a field through a standard file; the failing combinations are a few number-of-bits and shape classes among thousands",
 ["src/fstd98/fstd98.c", "src/compresseur/armn_compress_32.c", "src/fstd98/fst_missing.c", "src/packers/compact.tmplc", "src/packers/float_packer.c"],
 [("choice of packer per data type", "src/fstd98/fstd98.c:c_fstecr, c_fstluk"), ("lossless compression", "src/compresseur/c_zfstlib.c:armn_compress, src/compresseur/armn_compress_32.c"), ("missing values", "src/fstd98/fst_missing.c"), ("quantisation", "src/packers/compact.tmplc, src/packers/float_packer.c")],
 src=["checks/fsttypes.cc"], variant="asan", level="model-checked", tech="exhaustive enumeration of packing configurations and small fields on the real code (address-sanitised), compared with the written field under a per-type error bound",
 note="15 shapes (26 thorough), 12 value patterns, 9 value ranges; four-point fields exhaustively over four values",
 rule="an evaluation is one record compared; distinct states are distinct (data type, bits, width, field) tuples",
 bound={"quick": "about 550 packing configurations, 15 shapes", "thorough": "26 shapes, all missing subsets of four-point fields"})
prop("F03", "Stopping a writer at any point never damages the records already closed",
 "Wherever a program that writes a random-access standard file is stopped (between any two of its writes to disk, or within a write that adds to the file), the file left opens for reading and every record that was there when the file was last closed or checkpointed, and not touched since, is found once, in order, with its descriptors and data; a record rewritten, edited or erased since then is found as one of its versions or not at all; nothing else is found. A file never closed may be refused instead. The file is either accepted for writing, and then adding a record and closing keeps everything seen and the new record, or refused, unchanged, until the restoring tool makes from it a file that is accepted and holds the same records.",
 ["crash points", "histories"], "every crash point of every history of writes, rewrites, erasures, edits, checkpoints and closings up to a depth, from new files and around directory page boundaries",
 "no test stops a writer; the crash points of a close with several directory pages are a few writes among many",
 ["src/fstd98/xdf98.c", "src/fstd98/fstd98.c"],
 [("order of the writes at closing: header marked in use, pages, header released", "src/fstd98/xdf98.c:c_xdfcls"), ("opening checks", "src/fstd98/xdf98.c:c_xdfopn"), ("checkpoint", "src/fstd98/fstd98.c:c_fstckp"), ("restoring", "src/fstd98/xdf98.c:c_qdfrstr")],
 src=["checks/fstcrash.cc"], level="model-checked", tech="exhaustive crash-point enumeration: the disk writes of every history are recorded from the real code, every prefix (and torn last write) is rebuilt and opened with the real code against the set of states allowed",
 note="writes reach the disk in order (a process crash); writes that overwrite part of the file are not torn; 9 operations, depth 4/5 from small files, 2/3 around 256 records, 1/2 around 512",
 rule="a state is a distinct disk image; an evaluation is one record read back from a crash image",
 bound={"quick": "depth 4 from files of 0 to 3 records, 2 from 254..257, 1 from 511 and 512", "thorough": "depth 5, 3 and 2"})
prop("F05", "A sequential standard file reads as the records and marks written, in order",
 "A sequential standard file behaves as a list of records and logical end-of-file marks with a position: a record or mark is written at the position and ends the file there; searches and readings go forward from the position, deliver each matching record with its descriptors and data, stop at a mark (whose level is reported) and continue after it; rewinding, skipping forward and backward, positioning for appending, listing, erasing and reopening move or change the list as documented; a file open for reading refuses every change.",
 ["histories"], "all histories of 22 operations up to a depth from an empty file and from files with records, marks and erased records, every resulting file read in full before and after closing; random files opened sequentially; files whose records straddle the sizes where the granularity of record addresses changes",
 "no test in the suite opens a sequential standard file",
 ["src/fstd98/fstd98.c", "src/fstd98/xdf98.c"],
 [("position and marks", "src/fstd98/xdf98.c:next_match, c_xdfput"), ("skipping, appending, marks", "src/fstd98/fstd98.c:c_fstskp, c_fstapp, c_fstweo, c_fsteof, c_fstrwd"), ("record addresses", "src/fstd98/xdf98.c:make_seq_handle, address_from_handle")],
 src=["checks/fstseq.cc"], level="model-checked", tech="exhaustive enumeration of operation histories on the real code against a reference list with a position",
 note="records of 3 and 40 points, marks of level 1, 14 and 15; depth 4 (quick) or 5 (thorough)",
 rule="a state is a distinct file content, position and search target; an evaluation is one search or reading compared",
 bound={"quick": "22 operations, depth 4 from 3 files and 3 from 3 others; record boundaries within 12 words of 32 MB", "thorough": "depth 5 and 4; boundaries near 32, 128 and 512 MB"})
prop("F06", "The Fortran interface of standard files matches the C one; bad units are refused",
 "Every Fortran entry point of the standard files does what its C counterpart does, whatever the lengths of the character arguments: strings longer than a descriptor are cut, shorter ones are blank filled, nothing outside the argument is read or written, and 16-bit, 8-bit and character arrays come back as written. Options set under either interface read back under both. A search by level finds the first record that bears the level in either encoding and leaves later searches alone. The directory listing shows every live record once, in order, with its descriptors in full and the chosen fields only. An operation on a unit or a handle that is not what it needs (never associated, not opened, closed, of another type, read only, naming no record) is refused and changes nothing: not the file, not another open file.",
 ["inputs", "histories"], "all combinations of string lengths; every integer width; all option subsets of the listing; every pair of operations on every state of a unit; every single-bit change of a handle",
 "no test in the suite opens a standard file; Fortran strings carry no terminator, so errors show only for particular lengths, and misuse of units shows only in particular states",
 ["src/fstd98/fstd98.c", "src/fstd98/xdf98.c", "src/fstd98/convip.f"],
 [("Fortran string handling", "src/fstd98/fstd98.c:str_cp_init, fstecr_, fstinf_, fstprm_"), ("listing", "src/fstd98/fstd98.c:c_fstvoi, print_std_parms"), ("unit checks", "src/fstd98/fstd98.c:fnom_index, file_index"), ("level sets", "src/fstd98/fstd98.c:c_ip1_all, ip_is_equal")],
 src=["checks/fstftn.cc"], level="model-checked", tech="exhaustive enumeration of argument shapes, option subsets, and (operation, unit state) pairs, executed on the real code under the address sanitizer and compared with the C interface and reference descriptions", variant="asan",
 note="character arguments are placed in buffers of exactly their length, so that the sanitizer reports any access outside them",
 rule="an evaluation is one comparison of an answer or a listed record; distinct states are distinct argument shapes, option subsets and (unit state, operation) pairs",
 bound={"quick": "string lengths 0-3 x 0-6 x 0-15 x 0-3 (a third of the middle label lengths); option subsets of at most 3 or at least 12 of the 15 listing options; every operation on 13 unit states", "thorough": "all string lengths 0-4 x 0-6 x 0-15 x 0-3; all 32768 subsets of the listing options; all pairs of operations on every unit state; all 1024 file numbers in a handle"})

prop("F07", "A request to keep or leave out records decides exactly the records it names",
 "A record is decided by the first request set in use, within the active group, all of whose criteria it meets: kept if the set is a desire, left out if it is an exclure; one that meets none is kept unless there is a desire. A name, type or label meets a listed string it begins with (blanks of Fortran strings count); a date a listed stamp, a range open at either end, or a whole number of steps after its start; an ip a listed code, another code of the same value and kind, or a range and step in decoded values; the grid criteria all eight descriptors. Lists have 1 to 50 elements; a request that is refused (set number, list, direction other than the set has) changes nothing. The C, Fortran and bundle calls and files of requests mean the same, resets undo just what they name, and searches in files find the records kept, in order, unless filters are off.",
 ["inputs", "histories"], "all pairs, ranges and steps over 26 ip codes, 24 stamps and the strings of each field; all 6561 combinations of grid criteria; all histories of three (four) operations out of 57 on the sets; files of requests cut and altered at every byte; searches in lone and linked files",
 "no test in the suite makes a request; what is decided depends on every request before, on open ranges and on codes of equal value",
 ["src/fstd98/excdes_new.c", "src/fstd98/FC_string.c", "src/fstd98/xdf98.c"],
 [("decision", "src/fstd98/excdes_new.c:C_fstmatch_parm, match_ip"), ("requests", "src/fstd98/excdes_new.c:Xc_Select_ip1, Xc_Select_date, Xc_Select_nomvar, ValidateRequestForSet"), ("files of requests", "src/fstd98/excdes_new.c:ReadRequestTable"), ("resets, bundles and groups", "src/fstd98/excdes_new.c:C_requetes_reset, C_filtre_desire, C_select_groupset"), ("filter of a search", "src/fstd98/xdf98.c:c_xdfloc2, scan_dir_page")],
 src=["checks/filters.cc"], level="model-checked", tech="exhaustive enumeration of requests, of histories of operations on the table of requests and of files of requests, executed on the real code under the address sanitizer; every record of a small universe is decided after each and compared with a model of the table", variant="asan",
 note="values of ip codes are decoded with ConvertIp (I01); ranges open at both ends and steps without a start are not requested of dates; FST_FILTER_FILE is not read by the library and is not covered",
 rule="an evaluation is one decision, answer or search; distinct states are distinct (request or history, decisions) pairs",
 bound={"quick": "histories of three operations out of 57; all single requests through four calls and files for three sets", "thorough": "histories of four operations (a third of the prefixes); every call for every set"})
