prop("W01", "A word-addressable file behaves as an array of words",
 "After any sequence of writes, reads, closings and reopenings of word-addressable files (by words or by 512-word blocks), every word reads back as last written, words skipped by a write past the end are zeros, the size is that of the highest word written, reads past the end are cut short or refused as documented and store nothing more, a write leaves the caller's words unchanged, and files do not disturb each other. This holds in the same session, after a reopen, and in the raw bytes on disk (big-endian words), with or without paging and whatever the page size and limits asked for, including when pages are evicted, and whichever way the file is closed.",
 ["histories"], "all operation sequences up to a depth, over addresses and lengths around page boundaries and the end of the file, in five paging configurations",
 "no test uses these files directly, and none sets a paging configuration",
 ["src/primitives/c_baseio.c"], [("write with hole filling", "src/primitives/c_baseio.c:c_wawrit2, qqcwawr"), ("read clipping", "src/primitives/c_baseio.c:c_waread2"), ("page cache", "src/primitives/c_baseio.c:wa_page_read, wa_page_write, scrap_page"), ("closing", "src/primitives/c_baseio.c:qqcclos, c_fclos")],
 src=["checks/wafile.cc"], level="model-checked", tech="explicit-state exploration of all operation sequences up to a depth on the real code, compared with an array of words after each sequence, in the session and on disk",
 note="38 operations on two files; pages of 1024 words; writes further than 2048 words past the end (which stop the program) are left out",
 rule="an evaluation is one read, size or disk-image comparison; distinct states are distinct pairs of final file contents",
 bound={"quick": "all sequences of up to 3 operations, five paging configurations", "thorough": "all sequences of up to 4 operations"})
prop("W02", "Streams are byte sequences; a cut or failed transfer never passes for success",
 "A stream file behaves as a sequence of bytes with one position, moved by reads, writes, rewinding and going to the end: what is read at a position is what was last written there, whether by bytes or by words, from C or Fortran, in the session or after closing; a count returned is the number of bytes or words really transferred. For streams and word-addressable files alike, with or without paging, a read or write that the system carries out in several pieces (any sizes) gives the same result as one that is not split, and one that the system refuses is reported by a negative result or by stopping the program with an error: never by a success whose data are wrong. A refused write leaves every other byte of the file as it was.",
 ["faults", "histories"], "all stream operation sequences up to a depth; every system call of every short history cut short at several sizes or made to fail, singly and in pairs",
 "tests cannot make the system cut or refuse a transfer",
 ["src/primitives/c_baseio.c"], [("stream transfers", "src/primitives/c_baseio.c:c_sqgetw, c_sqputw, c_sqgets, c_sqputs"), ("retry of a short write", "src/primitives/c_baseio.c:qqcwawr"), ("page transfers", "src/primitives/c_baseio.c:scrap_page, wa_page_read")],
 src=["checks/streams.cc"], level="model-checked", tech="exhaustive fault injection: every read/write system call of every history up to a depth is cut or refused, on the real code, against a byte-sequence model",
 note="15 stream operations; word-addressable part: 7 histories, two paging modes, single faults and pairs of 7 kinds",
 rule="an evaluation is one transfer checked; distinct states are distinct final contents and positions",
 bound={"quick": "stream sequences of 4 (3 with faults); all fault singles and pairs on 7 word histories", "thorough": "stream sequences of 5 (4 with faults and fault pairs)"})
prop("W03", "Units, files and archive members are associated and released exactly as asked",
 "After any sequence of associations (automatic or given unit, existing, new, missing, read-only, Fortran, archive member, @name), releases, closings and writes: exactly the units of the accepted and unreleased associations are in use, each with its name, type and record length; an automatic unit is a free one in the documented range; a refused association (missing file, absent member, uncreatable file, unit in use, bad name) leaves no unit, table entry or file descriptor behind, however often it is repeated. A file opened read-only, or an archive member, is never changed; an archive member reads as exactly its own words in all archive formats; @name is looked up locally, then under CMCCONST, then under ARMNLIB/data; existing contents survive reopening and many files can be open at once.",
 ["histories"], "all sequences of table operations up to a depth; every archive of up to four members in three formats and every lookup in it; every cut of an archive",
 "tests open one or two files; refusals and their leaks need repetition to show",
 ["src/primitives/c_baseio.c"], [("association", "src/primitives/c_baseio.c:c_fnom, c_qqqfscr"), ("release", "src/primitives/c_baseio.c:c_fclos, reset_file_entry"), ("archive members", "src/primitives/c_baseio.c:filepos, qqcopen")],
 src=["checks/units.cc"], variant="asan", level="model-checked", tech="explicit-state exploration of all sequences of unit-table operations up to a depth on the real code, against a model of the table and of the files",
 note="23 operations; 180 archives with every member and absent name looked up",
 rule="an evaluation is one table query, read or refusal checked; distinct states are distinct unit tables with file contents",
 bound={"quick": "sequences of 4 operations", "thorough": "sequences of 5 operations"})

prop("W04", "The kind of a file is recognised from its contents alone",
 "Whatever its length, its name and the files examined before, the kind returned for an existing file is that of the first documented signature it contains, complete and at its place (and, for Fortran records, a closing mark equal to the opening one; for random and BURP files, the size announced in the header, otherwise the file is damaged); a file that contains none is unknown, an empty one is empty, and one that does not exist is reported as such. Names are taken without the blanks after them and without a leading +, from C and from Fortran. Examining a file leaves nothing open.",
 ["inputs", "histories"], "all files of one hundred and twenty contents of every kind, cut at every length up to 240 (450) bytes and extended by several fillers to lengths around the buffer sizes, each examined after every seventh (every) other complete file",
 "the existing test does not examine files",
 ["src/primitives/wkoffit.c", "src/fstd98/xdf98.c"],
 [("signatures in the first words", "src/primitives/wkoffit.c:c_wkoffit"), ("closing mark of a Fortran record", "src/primitives/wkoffit.c:isftnbin"), ("size in the header", "src/fstd98/xdf98.c:c_xdfcheck"), ("images and text", "src/primitives/wkoffit.c:test_fichier")],
 src=["checks/filekind.cc"], tech="exhaustive enumeration of file contents, lengths and pairs of successive files on the real code, against an independent table of signatures",
 note="one or a few contents per kind; PCL and PostScript in simple forms only",
 rule="an evaluation is one file examined after another; distinct by contents and kind",
 bound={"quick": "about 120 contents x up to 300 forms x 17 files before", "thorough": "about 120 contents x up to 500 forms x 120 files before"})
