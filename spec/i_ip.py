prop("I01", "Level and time codes decode to their documented value and re-encode to it",
 "Every code, old or new style, decodes to exactly one documented (value, kind) pair or is reported invalid; encoding that pair gives a code that decodes to the same pair, normalised codes being reproduced exactly, and any in-range value survives encode/decode within the precision of the code with its kind, sign and order preserved, while out-of-range values are refused. The two generations of converters, the C interface and the level helpers agree with each other. Level/time/third-value triplets, including level ranges and time ranges, come back as the values given in the documented vertical or time order, with a status that flags exactly the invalid or guessed combinations.",
 ["inputs"], "all 2^28 codes; every value of every kind; every combination of kinds, ranges and order in a triplet",
 "the repository only ships unrun demonstration programs for these conversions; the code space has 268 million points and the triplet rules branch on every pair of kinds",
 ["src/fstd98/convip_plus.f90", "src/fstd98/convip.f", "src/fstd98/convert_ip123.f90", "src/fstd98/fstd98.c"],
 [("mantissa/exponent coding with shared kinds", "src/fstd98/convip_plus.f90"), ("older converter", "src/fstd98/convip.f"), ("triplet ordering rules", "src/fstd98/convert_ip123.f90"), ("level helpers with their search tables", "src/fstd98/fstd98.c:c_ip1_all")],
 src=["checks/ipcodes.cc"], tech="exhaustive enumeration of the complete code space and of all kind/range/order combinations on the real code against the documented layout",
 note="complete for the 2^28 codes; values to encode are all floats with 9 (quick) or 13 (thorough) significant bits plus their neighbours; triplet values from a small set per kind",
 rule="an evaluation is one code decoded+re-encoded, one value encoded+decoded, or one triplet; distinct = distinct code blocks, values groups and triplets",
 bound={"quick": "all codes 0..2^28-1; values with 9-bit significands over 75 binades x 11 kinds x 2 signs; 36 levels x 25 time ranges x 5 third values; 28^3 independent triplets", "thorough": "as quick with 13-bit significands"})
