prop("B01", "BURP report buffers hold exactly the blocks that were put in them",
 "A BURP report is a header and a list of data blocks. Whatever the sequence of mrbini, mrbadd, mrbrep, mrbdel and mrbupd: the header fields and each block's number, family, type, dimensions, element list and values read back (mrbhdr, mrbprm, mrbprml, mrbxtr, mrblen, mrbloc, mrblocx) are those of that list, for every data type, number of bits and magnitude of values, with missing values (-1) still missing; the number of bits is widened when the values need it and the other blocks stay as they were; a block can be located by family and by any part of its type; an operation that is invalid or does not fit in the buffer is refused and changes nothing; nothing is written outside the caller's arrays; header fields given as -1 (or '*') in mrbupd are kept; dates before and after 2000 are kept.",
 ["histories", "inputs"], "every sequence of a family of operations up to a length, in buffers of every tight size, and every combination of dimensions, types, bits and value classes",
 "the shipped test adds a few dozen blocks of one kind and prints them",
 ["src/fstd98/burp98.c", "src/fstd98/xdf98.c", "src/burp98_f/mrbini.F90", "src/burp98_f/mrbupd.F90", "src/burp98_f/mrbprml.F90", "src/burp98_f/mrblocx.F90"], [("report buffer", "src/fstd98/burp98.c")],
 src=["checks/burpblk.cc"], variant="asan", level="model-checked", tech="bounded-exhaustive enumeration of operation histories on the real code (address sanitizer) against a reference list of blocks",
 note="11 kinds of blocks, deletion, replacement and header operations; histories up to 3 (quick) or 4 (thorough) operations; every history also in buffers that just hold the result or are one word short",
 rule="a state is the content of a report buffer; a transition is one operation; an evaluation is one query compared with the reference list",
 bound={"quick": "histories of 3 operations", "thorough": "histories of 4 operations"})
prop("B02", "BURP files give back every report, found by its keys, until it is deleted",
 "Whatever the history of mrfopn, mrfput (new reports and rewritten ones), mrfdel, mrfcls and reopening: the file holds exactly the reports written and not since deleted or rewritten, in the order in which they were written; mrfloc finds the first report after the given one matching every criterion (station with wildcards, type, latitude, longitude, date, hour), mrfprm and mrfget give its keys, length and contents unchanged; mrfnbr and mrfopn count them; a buffer of mrfbfl words (or of just the right size) can hold any report and a smaller one is refused without being overrun; deleted reports cannot be read; a file open for reading is never changed.",
 ["histories"], "every sequence of a family of file operations up to a length, and every combination of search criteria in every state",
 "the shipped test writes three reports and finds them again",
 ["src/fstd98/burp98.c", "src/fstd98/xdf98.c", "src/burp98_f/mrfloc.F90", "src/burp98_f/mrfprm.F90", "src/burp98_f/mrfopn.F90", "src/burp98_f/mrfdel.F90"], [("report files", "src/fstd98/xdf98.c")],
 src=["checks/burpfile.cc"], variant="asan", level="model-checked", tech="bounded-exhaustive enumeration of operation histories on the real code and real files (address sanitizer) against a reference list of reports",
 note="14 operations with 4 kinds of reports, histories of 4 (quick) or 5 (thorough) operations, 90 searches from every position at the end of each, again after reopening; a file of 600 reports",
 rule="a state is the list of reports and the mode of the file; a transition is one operation; an evaluation is one query compared with the reference list",
 bound={"quick": "histories of 4 operations", "thorough": "histories of 5 operations"})
prop("B03", "BURP element codes, block types and units convert both ways without loss",
 "mrbcov and mrbcol turn every FXXYYY element into its 16-bit code and mrbdcv and mrbdcl turn every code back, for single elements and for lists of any length; mrbtyp packs nature, type and sub-type into a block type and unpacks it, for all of them, refusing invalid ones. Whatever the order of the elements in the conversion table and whatever list of elements the user adds with mrbsct, mrbtbl and mrbrpt describe each element as the tables do; mrbcvt turns every code into (code + reference) / 10**scale and back into the same code, missing values (-1) into the MISSING option and back, and leaves alone the elements that have no conversion.",
 ["inputs"], "all codes and types; all orders of the table, all combinations with user lists",
 "the shipped test converts a few elements of an installed table",
 ["src/burp98_f/mrbcov.F90", "src/burp98_f/mrbdcv.F90", "src/burp98_f/mrbcol.F90", "src/burp98_f/mrbtyp.F90", "src/burp98_f/mrbcvt.F90", "src/burp98_f/qrbsct.F90", "src/burp98_f/qbrptri.F90", "src/burp98_f/bufrchr.F90", "src/burp98_f/mrbrpt.F90", "src/burp98_f/mrfopr.F90"], [("element codes", "src/burp98_f/mrbcov.F90"), ("units", "src/burp98_f/mrbcvt.F90")],
 src=["checks/burpcode.cc"], level="exhaustive", tech="exhaustive enumeration of the code spaces and of table orders on the real code, against the definition",
 note="2^16 elements, 2^15 block types; all permutations of tables of up to 5 (quick) or 7 (thorough) elements with 6 user lists",
 rule="a state is a table; a transition is its loading and extension; an evaluation is one element, type or block converted",
 bound={"quick": "tables of up to 5 elements", "thorough": "tables of up to 7 elements"})
