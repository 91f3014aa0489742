prop("X01", "Sorting returns the input in order, and index sorts return a permutation",
 "Each sorting routine leaves its array in non-decreasing order with exactly the values it was given. Each index-sorting routine (integer, single, double and character keys, with or without a caller-supplied starting order) returns a permutation of 1..n that puts the list in non-decreasing order, leaving the list untouched. No routine writes outside the n elements it was given, and every call terminates.",
 ["inputs"], "every array length and every arrangement of values, including equal and extreme ones, and every valid starting order",
 "the repository has no test of any sorting routine; correctness depends on every comparison outcome along the gap/heap sequence",
 ["src/base/ipsort.c", "src/base/sort.f", "src/base/isort.f"],
 [("comb sort on the index", "src/base/ipsort.c"), ("heap sort", "src/base/sort.f, src/base/isort.f")],
 src=["checks/sorts.cc"], tech="bounded-exhaustive enumeration of inputs (all weak orderings up to n) run on the real code against a reference sort",
 note="exhaustive for all value patterns up to the bound on n, all 0/1 inputs up to a larger n; structured families above; values outside the two value maps are not covered",
 rule="an evaluation is one call of one routine; distinct inputs are counted by (length, value pattern)",
 bound={"quick": "all n^n value patterns n<=6 under two value maps, all 0/1 inputs n<=14, all rotations and 4 other families for n in 9..130", "thorough": "n<=8, 0/1 n<=19, families n<=400"})
prop("X02", "Checksums and digests depend only on the byte stream; cipher inverts itself",
 "Every checksum, message digest and keyed digest equals its published definition for the bytes given, whatever the way the stream is split over successive calls, including empty pieces. The stream cipher's output likewise depends only on the key and the position in the stream, and applying it twice with the same key gives back the original bytes. The file digest equals the digest of the file's contents, and failure to open the file is reported.",
 ["inputs", "histories"], "all message lengths around the block sizes, all splits of the stream into calls, all element sizes and seeds",
 "existing tests run a handful of fixed vectors, mostly in one call",
 ["src/primitives/md5.c", "src/primitives/arc4.c", "src/primitives/calc_crc.c", "src/primitives/crc32.c", "src/primitives/crc_16_24_32.c", "src/primitives/crc16_.c", "src/primitives/crc24_.c", "src/primitives/crc32_.c"],
 [("block buffering of the digest", "src/primitives/md5.c:md5_update"), ("cipher state carried between calls", "src/primitives/arc4.c:arc4_crypt"), ("byte order mask on multi-byte elements", "src/primitives/crc_16_24_32.c")],
 src=["checks/digests.cc"], tech="exhaustive enumeration of lengths x splits of the call history against bit-level reference definitions",
 note="all lengths and all two-way splits within the bound on four data patterns; contents outside the patterns are not covered",
 rule="an evaluation is one complete init/update*/finish history; distinct by resulting digest",
 bound={"quick": "lengths 0..150, all 2-splits, sampled-by-stride 3-splits, 4 data patterns, key lengths 1..80", "thorough": "lengths 0..400, key lengths 1..300"})

prop("X03", "Words give back the bits, bytes and characters put in them, at every width",
 "Bit slices of any sequence of widths (0 to 32; larger widths count as 32, negative ones as 0) are put one after the other into words from the most significant bit, the rest of the last word being zero, and taken out in the same order with the same values; no word beyond the last slice is read or written. The bytes of an integer become characters and back without loss, for one to four characters; the byte order of words is reversed in place, and reversing twice gives the words back; base-40 numbers and strings convert both ways; change of case touches only letters and blanks the rest of the output; logical values and integers convert both ways; IBM numbers become the IEEE numbers of the same value. Inputs are left unchanged.",
 ["inputs"], "all sequences of up to five (six) widths out of eleven on three patterns of bits; all 16-bit values for characters; all base-40 numbers to 5 million (102 million); all pairs of characters; all IBM exponents",
 "no existing test calls these routines",
 ["src/primitives/f_bit_slicer.c", "src/primitives/rah2char.c", "src/primitives/swap_buffer.c", "src/primitives/ibm32_ieee.c", "src/primitives/up2low.f", "src/primitives/f_logical2int.f90", "src/base/cvt_base40.f"],
 [("reservoir of bits between slices", "src/primitives/f_bit_slicer.c:f_bits_get"), ("slices over two words", "src/primitives/f_bit_slicer.c:f_bits_put"), ("bytes of integers", "src/primitives/rah2char.c")],
 src=["checks/words.cc"], tech="exhaustive enumeration of sequences of slice widths and of word values on the real code, against a bit-by-bit reference; words end at a guard page",
 note="slice values on three bit patterns; widths from eleven representatives of 0..32 and outside",
 rule="an evaluation is one slice, word or character compared; distinct by resulting words",
 bound={"quick": "sequences of up to 5 widths of 11 (177 000) x 3 patterns, 5.1 M base-40 numbers", "thorough": "sequences of up to 6 widths (1.9 M) x 3 patterns, 102 M base-40 numbers"})

prop("X04", "Programs get exactly the arguments and settings given to them",
 "Whatever the list of arguments, each key of a program gets the value written for it: the first default when the key is absent, the second one when it is present without value, otherwise the values given, in order, to the consecutive keys of that name, by =, by : or as following arguments, converted to the case of the key; arguments before the first key or after -- go to the positional keys, and their number is returned. Unknown keys, more values than keys, and positional arguments nobody asked for are errors: the other keys keep their values, and the program stops if it asked to. Values too long are cut, and nothing else changes. An argument can be asked again later by name and rank. A variable of the application keeps the last value set under its whole name, and variables of the environment are returned blank padded or cut.",
 ["inputs", "histories"], "all lists of up to four (five) arguments out of sixteen for five tables of keys in C, of up to three (four) out of thirteen in Fortran, all sequences of four (five) settings of variables out of twenty-one operations",
 "the existing test gives one key one value",
 ["src/primitives/c_ccard.c", "src/primitives/ccard.F90", "src/primitives/appl_var.c", "src/primitives/get_ccard_arg.c", "src/primitives/ccard_arg_m.f90", "src/primitives/getenvc.c"],
 [("lists of values", "src/primitives/c_ccard.c:c_jfc_les_valeurs"), ("positional arguments", "src/primitives/c_ccard.c:c_jfc_positionel"), ("arguments in Fortran", "src/primitives/ccard.F90:qqqobm"), ("names of variables", "src/primitives/appl_var.c:get_appl_var")],
 src=["checks/options.cc"], tech="exhaustive enumeration of argument lists and of sequences of settings on the real code, against a reference parser; executions that may stop the program run in child processes",
 note="arguments from a fixed alphabet of tokens; the environment form (CCARD_ARGS) with single blanks and keys first; keys of one name are consecutive",
 rule="an evaluation is one value, count or exit code compared; distinct by resulting values",
 bound={"quick": "lists of up to 4 of 16 tokens (70 000) x 5 tables in C, up to 3 of 13 (2400) x 6 in Fortran; 4 settings of variables", "thorough": "lists of up to 5 of 16 tokens (1.1 M) x 5 in C, up to 4 of 13 (31 000) x 6 in Fortran; 5 settings"})

prop("X05", "Fortran programs see files, names and the environment as they are",
 "Each routine of clib_interface does what the call of the operating system it stands for does, and says whether it succeeded: making, removing, renaming and linking files and directories, whole hierarchies included, lead to the same tree; kinds, permissions, sizes, times and stat numbers, targets of links, absolute paths, the working directory and the names that match a pattern are the ones of the tree; base and directory names are those of the path without the blanks after it; a variable just set reads back. Blanks after a Fortran argument do not count, nothing outside an argument is read or written, an answer that does not fit its argument is refused and leaves blanks, and so is a path too long for the system.",
 ["inputs", "histories"], "all histories of three (four) operations out of 99 on a tree of nine paths, executed also by direct calls in a twin directory, all questions in the states after two; all paths of up to six (eight) characters out of five; all strings and lengths of the copies between Fortran and C",
 "the only test of these routines passes some strings; what they do depends on the tree, and Fortran strings have no end mark",
 ["src/primitives/clib_interface.c", "src/primitives/clib_interface2.c", "src/primitives/ftn2c_helper_c.c"],
 [("operations and questions", "src/primitives/clib_interface.c:clib_remove, clib_rename, clib_isdir, clib_stat"), ("hierarchies", "src/primitives/clib_interface.c:mkpath"), ("base and directory names", "src/primitives/clib_interface.c:clib_basename, clib_dirname"), ("patterns", "src/primitives/clib_interface2.c:clib_glob"), ("copies of strings", "src/primitives/ftn2c_helper_c.c:ftn2c_string_copy")],
 src=["checks/clib.cc"], level="model-checked", tech="exhaustive enumeration of histories of file operations, of paths and of strings on the real code under the address sanitizer, in step with direct system calls on a twin directory", variant="asan",
 note="run as root, so that permissions refuse only the execution of files; relative paths in a scratch directory; base names of paths that end in / and directory names next to the root or to a double / are run but not judged",
 rule="an evaluation is one answer or tree compared; distinct states are distinct trees with the operations that led to them, or distinct strings",
 bound={"quick": "every operation out of 99 in every tree that two others make (reached once by each worker); paths of up to 6 characters out of 5", "thorough": "histories of three operations with all questions, and a third of those of four; paths of up to 8 characters"})
