prop("L01", "Legacy grids: points and positions convert both ways, as the projection defines",
 "For the polar-stereographic, lat-lon, Lambert conformal and Gaussian grids, the latitude and longitude given for every grid point, of every grid size, are those of the projection's definition, within single precision; the inverse transformations give the position back; longitudes stay in their documented interval; map scale and Coriolis parameter follow the latitude. The Gaussian latitudes are the roots of the Legendre polynomial, for the globe and for each hemisphere, and their computation ends for every number of latitudes. Nothing is written outside the arrays given, and no input is changed.",
 ["inputs"], "every grid size, pole, orientation and number of latitudes",
 "the repository has no test of these routines; a wrong position displaces every value placed by it",
 ["src/base/llfxy.F", "src/base/xyfll.F", "src/base/grll.f", "src/base/grps.f", "src/base/grlcc.f", "src/base/xyflcc.F", "src/base/grgg.F", "src/base/dgauss.F", "src/base/ordleg.F", "src/base/mscale.f", "src/base/coriol.f", "src/spectral/ordleg8.F"],
 [("quadrant of the longitude, wrapped once", "src/base/llfxy.F:LLFXY"), ("cone factor of the Lambert projection, both directions", "src/base/xyflcc.F:XYFLCC"), ("Newton iteration and symmetric roots", "src/base/dgauss.F:DGAUSS")],
 src=["checks/legacygrids.cc"], tech="exhaustive enumeration of grid sizes, descriptors and positions on the real code against the projections in double precision, with guarded arrays",
 note="sizes, descriptors and positions on finite grids; tolerances from single precision, loose near the pole where the sine of the latitude is used",
 rule="an evaluation is one position or one grid compared; distinct states are distinct results",
 bound={"quick": "polar stereographic: 5 spacings x 8 orientations x 2 hemispheres x 4802 points; grids of every size to 7x7; Lambert: 5 pairs of parallels x 3 x 2; Legendre roots of degree 1-300, three kinds; Gaussian grids to 48 latitudes", "thorough": "29282 points, grids to 14x14, degrees to 1000, 200 latitudes"})

prop("L02", "Legacy grids: the value and wind at a point are cubic, across poles and equator",
 "The value extracted at any point of a lat-lon, polar-stereographic, global or hemispheric grid, uniform or Gaussian, is the cubic interpolation of the sixteen grid points around it: near an edge of a limited area, of the nearest sixteen inside it; over a pole, of the points across it; over the equator of a hemispheric grid, of the mirrored points with the sign of the symmetry. At the pole of a uniform grid it is the extrapolated mean. Winds are interpolated on the polar plane and given as speed and angle. Bilinear values and cross-sections refuse points outside the grid, and stay refused. No field is changed and nothing is written outside the table of roots.",
 ["inputs"], "every position, grid size and symmetry",
 "the repository has no test of these routines; the rows used near the poles and the equator are chosen by index arithmetic that ordinary points never reach",
 ["src/base/sll.F", "src/base/sps.F", "src/base/vll.F", "src/base/sglo.F", "src/base/sglogg.F", "src/base/vglo.F", "src/base/vglogg.F", "src/base/idxes.F", "src/base/npspin.F", "src/base/bilin.f", "src/base/coupe.f"],
 [("rows and columns across pole and equator", "src/base/idxes.F:IDXES"), ("mean wind at the pole", "src/base/npspin.F:NPSPIN"), ("refusal carried along a section", "src/base/bilin.f:BILIN")],
 src=["checks/legacyvalues.cc"], tech="exhaustive enumeration of grid sizes, symmetries and positions on the real code against tensor interpolation over the extended field in double precision",
 note="one field of distinct values per grid; positions on a finite grid with the neighbourhoods of poles, equator and date line; the Lambert entry point SLC is not driven",
 rule="an evaluation is one value or wind compared; distinct states are distinct results",
 bound={"quick": "limited areas 4-6 x 4-6 at quarter points; circles of 4-14 points, 4-7 latitudes, 3 symmetries, 2 kinds of latitudes x 47 colatitudes x (4*li+7) longitudes; bilinear to 6x6, 2500 sections each", "thorough": "areas to 9x9, 12 latitudes, bilinear to 8x8"})
