prop("K01", "Transforms: every length gives the Fourier and Legendre sums of their definition",
 "For every length made of factors 2, 3 and 5, in both precisions and both directions, the multiple Fourier transform of any set of vectors, in any layout, is the sum of its definition; nothing outside the vectors changes, and lengths may follow each other in any order. The Gaussian latitudes and weights of a hemisphere integrate exactly. For every truncation, the row lengths, the Legendre functions, their derivatives and the sums between Fourier and spectral coefficients follow their definition.",
 ["inputs", "histories"], "every length, layout, number of vectors and truncation",
 "the repository has no test of these routines; each length takes its own path through the factor passes, and each number of vectors its own slices",
 ["src/base/fft_m4.f", "src/base/fft_m8.f", "src/spectral/gauss.F", "src/spectral/gauss8.F", "src/spectral/epsil2.F", "src/spectral/alpnm2.F", "src/spectral/alpdr2.F", "src/spectral/alpas2.F", "src/spectral/dimcal.F", "src/spectral/spaf2.F", "src/spectral/fasp2.F", "src/spectral/ewfdr2.F"],
 [("slices of sixteen vectors", "src/base/fft_m8.f:fft_M8"), ("factors, one 8 at most", "src/base/fft_m8.f:SET99_M8"), ("tables kept between calls of different lengths", "src/base/fft_m8.f:setfft_M8"), ("rows of one element", "src/spectral/alpnm2.F:ALPNM2")],
 src=["checks/transforms.cc"], tech="exhaustive enumeration of lengths, layouts and truncations on the real code, on every unit vector (a linear map is decided by them), against the definitions in double precision",
 note="linearity itself is not proved: sums of unit vectors are only tried in the sequences of lengths",
 rule="an evaluation is one set of vectors transformed or one table compared; distinct states are distinct results",
 bound={"quick": "all 5-smooth lengths to 128, all unit vectors, 3 interfaces, 3 layouts, 10 numbers of vectors; 1000 sequences of 4 lengths; 120 numbers of roots; truncations to degree 12, 3 regions, 19 latitudes", "thorough": "lengths to 512, 400 numbers of roots (120 in single precision), truncations to degree 22"})
