prop("P01", "Direct packers: each token in its own bits, and unpacking gives the values back",
 "Packing a strided array of integers, shorts or bytes places element i in exactly the bits offset+i*size.. of the packed words, high bit first, and changes no other bit; unpacking the same layout gives the elements back exactly and touches nothing between them. A token size found by the packer is large enough for every element. With a header, the header states token size, dropped low bits, count, minimum and maximum, and unpacking from it gives each element back to the dropped bits. Floating-point packing gives every element back to within one quantisation step below it, the smallest exactly, missing elements as missing and no others; the 16-bit float packer to within one step; run-length packing exactly. The Fortran entries and the header-dispatching unpacker give the same results as the direct calls. No routine reads or writes beyond the words that hold tokens.",
 ["inputs"], "every token size, offset, count, stride and header combination; every value, including the extremes of the type and constant arrays",
 "the direct packers are not tested; a field written to a file exercises only aligned offsets, one stride and no integer header",
 ["src/packers/compact_integer.c", "src/packers/compact.tmplc", "src/packers/compact_rle.c", "src/packers/float_packer.c", "src/packers/pak.c", "src/packers/unpackWrapper.c", "include/bitPacking.h"],
 [("token placement across word boundaries", "include/bitPacking.h:stuff,extract"), ("token size detection and header", "src/packers/compact_integer.c:constructHeader"), ("range and scale of the float tokens", "src/packers/compact.tmplc"), ("repeat tokens", "src/packers/compact_rle.c"), ("shift and rounding of the 16-bit tokens", "src/packers/float_packer.c"), ("mode digits of the Fortran entry", "src/packers/pak.c")],
 src=["checks/packers.cc"], tech="bounded-exhaustive enumeration of layouts and value vectors on the real code, every packed bit compared with a bit-array model, buffers ending at an inaccessible page",
 note="token sizes 1..32, offsets up to three words, strides 1..3, all vectors of boundary values of up to three elements and longer patterned ones; other values and longer arrays are not covered; the block packer compact_IEEEblock is not driven",
 rule="an evaluation is one element packed and unpacked; distinct states are distinct packed images with their headers",
 bound={"quick": "4 integer types x token sizes 1..width x plain/auto/header/header+auto x offsets 0..32 x strides 1..3 x all 1-2 element vectors of 7-8 boundary values and 18 longer ones x 2 backgrounds; iipak 8 modes x 21 nbits x 7 offsets, in place or not; float/double 32 sizes x 3 layouts x missing; all three-symbol run-length sequences up to 7", "thorough": "all 1-3 element vectors, offsets 0..96, sequences up to 9"})
