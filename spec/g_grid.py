prop("G01", "Grid descriptors: integers decode to documented units and encode back unchanged",
 "For every grid type that has its descriptors in four integers, decoding gives the documented real values; encoding what was decoded gives the same four integers, over the whole range of each field; and a real descriptor comes back within half a unit of its field, longitudes modulo 360 degrees. The general polar-stereographic code, used when pole, spacing or extent do not fit the first one, gives spacing and orientation back to their units and places grid point (1,1) within the resolution of its two angle fields. Neither direction changes its input, and every code fits the record's field.",
 ["inputs"], "every value of every field, and every real between the units",
 "the repository has no test of these routines; a wrong field displaces every point of every grid whose record carries it",
 ["src/base/xgaig.f90", "src/base/igaxg.f90", "src/base/igaxg95.F", "src/base/llfxy.F", "src/base/xyfll.F"],
 [("choice between the two polar-stereographic codes", "src/base/xgaig.f90:CXGAIG"), ("bits of the latitude kept in the longitude field", "src/base/igaxg.f90:CIGAXG"), ("pole from latitude and longitude of (1,1)", "src/base/xyfll.F")],
 src=["checks/gridcodes.cc"], tech="exhaustive enumeration of each descriptor field (and of the coupled fields of type E) on the real code against the documented units, with encode/decode inversion",
 note="each field over its whole range against four backgrounds of the others, not the full product; reals on a grid finer than the unit; type '!' needs a site table and is not covered",
 rule="an evaluation is one descriptor taken through both directions; distinct states are distinct codes",
 bound={"quick": "L, C, H, A, B, G, N, S: every value of every field x 4 backgrounds; E: all 7201 latitudes x 143 longitudes x 2; 200003 reals per field x 5 backgrounds; general N/S: 100 poles x 10 spacings x 289 orientations", "thorough": "2000003 reals, E x 1310 longitudes, 7201 orientations"})
