prop("E01", "Grid geometry: every grid point and position is where the definition puts it",
 "For every horizontal grid the interpolation package defines (A, B, G global and hemispheric, L, N, S, E, and Z on L, N, S or E axes), the latitudes and longitudes of its points are those of the mathematical definition of the grid; for grids stored from south to north, converting grid positions to latitude-longitude and back agrees with that definition everywhere inside the grid, whatever the longitude convention (negative or 0-360) of the points. The definition read back (dimensions, type, integer parameters, axes) is the one given. No conversion changes the caller's input arrays.",
 ["inputs"], "every grid type, rotation, hemisphere and storage order of the family, every quarter-cell position",
 "no shipped test defines a single horizontal grid; hemispheric Gaussian grids were wrong for years",
 ["src/interp/ez_calclatlon.c", "src/interp/gdllfxy.c", "src/interp/gdxyfll.c", "src/interp/ez_calcxy.c"],
 [("points", "src/interp/ez_calclatlon.c"), ("positions to lat-lon", "src/interp/gdllfxy.c"), ("lat-lon to positions", "src/interp/gdxyfll.c"), ("definition", "src/interp/ezgdef_fmem.c")],
 src=["checks/ezgeom.cc"], level="model-checked", tech="exhaustive enumeration of a family of grids and of all their quarter-cell positions on the real code, against an independent double-precision spherical geometry",
 note="a family of 229 (quick) or 567 (thorough) grids, each on a fresh library state; every quarter-cell position converted both ways in three longitude conventions",
 rule="an evaluation is one point or position compared; a state is one grid definition",
 bound={"quick": "229 grids up to 12x18", "thorough": "567 grids up to 16x18, all rotations and polar projections of the family with all axes"})

prop("E03", "Interpolated values are the documented weighted means of the grid points",
 "Horizontal interpolation of a scalar field is a fixed linear operator: for nearest, linear and cubic interpolation, from every source grid (regular, irregular, wrapping around the globe or not, hemispheric with its mirrored rows, stored north to south or south to north), the value at every position is the sum over the grid points of the weights of that degree (nearest point; bilinear; Lagrange cubic on the real axes, wrapping in longitude). With polar correction the points beyond the last row are interpolated toward the pole, whose value is the mean of the outermost row. Points outside a limited-area grid follow the extrapolation option (a degree, or the field maximum or minimum with the documented margin, a given value, or a refusal), the return code says whether there were any, and the points inside are unaffected. The target-grid, lat-lon and grid-position forms agree. The source field is never changed.",
 ["inputs", "configurations"], "every source grid of the family, every impulse field (hence, by linearity, every field), every position of a fine lattice inside and around the grid, every interpolation and extrapolation option",
 "a test interpolates one field between two grids; errors sit in single rows and columns of particular grid types",
 ["src/interp/gdinterp.c", "src/interp/ezsint.c", "src/interp/ez_corrval.c", "src/interp/ez_rgdint_3_w.inc", "src/interp/ez_irgdint_3_w.inc"],
 [("interpolators", "src/interp/gdinterp.c"), ("polar bands", "src/interp/ez_corrval_aunord.c"), ("extrapolation", "src/interp/ez_corrval.c"), ("lat-lon form", "src/interp/gdllsval.c"), ("position form", "src/interp/gdxysval.c")],
 src=["checks/ezscal.cc"], level="model-checked", tech="exhaustive enumeration: the whole weight matrix of every grid, degree and option, obtained by feeding each unit impulse to the real code, against independently computed weights",
 note="229 (quick) or 567 (thorough) source grids; each unit impulse through ezsint, gdllsval and gdxysval for every degree, polar option and extrapolation option; the whole operator is covered because it is linear in the field",
 rule="an evaluation is one weight compared; a transition is one interpolation of an impulse; a state is one source grid",
 bound={"quick": "229 grids up to 12x18, a 5x5 lattice of positions per cell (two thirds of it), rows beyond the grid and toward the poles", "thorough": "567 grids up to 16x18, the full lattice"})

prop("E04", "Winds convert between grid components and speed-direction by the grid's angle",
 "On every grid, converting wind components along the grid axes to speed and direction (meteorological convention, from true north), and back, and to west-east and south-north components, is the rotation by the angle between the grid axes and the meridian at that point: calm winds stay calm, speed is preserved, directions lie in 0-360, the inputs are unchanged, and converting in place gives the same result.",
 ["inputs"], "every grid of the family, every grid point and position, every direction on a 5 or 15 degree circle, several speeds including zero",
 "no shipped test rotates a wind; the rotation of E grids was wrong",
 ["src/interp/gduvfwd.c", "src/interp/gdwdfuv.c", "src/interp/gdlluvfuv.c"],
 [("from speed and direction", "src/interp/gduvfwd.c"), ("to speed and direction", "src/interp/gdwdfuv.c"), ("to geographic components", "src/interp/gdlluvfuv.c")],
 src=["checks/ezwind.cc"], level="model-checked", tech="exhaustive enumeration of grids, points and directions on the real code, against an independent double-precision spherical geometry",
 note="every point and direction of the enumerated set; directions between two enumerated ones follow by linearity of the rotation",
 rule="an evaluation is one wind compared; a state is one grid",
 bound={"quick": "229 grids, directions every 15 degrees, 3 speeds", "thorough": "567 grids, directions every 5 degrees, 3 speeds"})

prop("E05", "Interpolated winds rotate correctly, at the poles and between grids",
 "Horizontal interpolation of a wind is a fixed linear operator on the pair of components: at every target it is the weighted mean the scalar interpolation of each component defines, with the sign of the meridional component reversed in mirrored hemispheric rows and, with polar correction, the wind at the pole taken as the mean vector of the outermost row seen in a frame fixed to the pole; the result is then rotated from the source grid's axes to the target's (or given as speed and direction, or left in source axes for position forms). All forms - target grid, lat-lon points, grid positions, components or speed and direction - agree; a request to abort on extrapolation is reported as one; the inputs are never changed.",
 ["inputs", "configurations"], "every source grid of the family, every unit impulse of either component (hence, by linearity, every wind field), every position of a lattice inside, around and beyond the outermost rows, every degree and option",
 "no shipped test interpolates a wind; polar winds were wrong in several grid types and no sample of smooth fields shows it",
 ["src/interp/ezuvint.c", "src/interp/ezwdint.c", "src/interp/ez_corrvec.c", "src/interp/gdllvval.c", "src/interp/gdllwdval.c"],
 [("components", "src/interp/ezuvint.c"), ("speed and direction", "src/interp/ezwdint.c"), ("polar winds", "src/interp/ez_corrvec.c"), ("points", "src/interp/gdllvval.c")],
 src=["checks/ezvec.cc"], level="model-checked", tech="exhaustive enumeration: the whole operator on both components of every grid, degree and option, obtained by feeding each unit impulse to the real code, against independently computed weights and rotations",
 note="229 (quick) or 567 (thorough) source grids, each with a scalar-like and a target-grid run",
 rule="an evaluation is one weight compared; a transition is one interpolation of an impulse; a state is one source grid and form",
 bound={"quick": "229 grids up to 12x18, a lattice of positions", "thorough": "567 grids up to 16x18, the denser lattice"})

prop("E02", "Grid handles: definitions, uses and releases never disturb other grids",
 "A grid identifier denotes the definition it was given for as long as the grid is not released as often as it was defined. Whatever the sequence of definitions, interpolations and releases: defining the same grid again gives the same identifier, defining a different one (size, type, parameters, reference grid or axes) gives an identifier no live grid has, the definition and axes read back are those given, and interpolation between any two live grids gives the result it gives on its own, however many grids, sources of one target or targets of one source there are. Options set by any of their names, in either language and case, through C or Fortran, read back as set, and a call with an unknown option or value is refused and changes nothing.",
 ["histories", "configurations"], "every history of definitions, uses and releases up to a depth, every released grid among many, every residue of the source tables, every pair of option settings",
 "a test defines two grids once; the tables of grids and sources only fail after releases or with many grids",
 ["src/interp/ez_findgrid.c", "src/interp/ez_addgrid.c", "src/interp/gdrls.c", "src/interp/ezdefset.c", "src/interp/ezsetopt.c"],
 [("definitions", "src/interp/ez_identifygrid.c"), ("releases", "src/interp/gdrls.c"), ("tables of sources", "src/interp/ezdefset.c"), ("options", "src/interp/ezsetopt.c")],
 src=["checks/ezhist.cc"], level="model-checked", tech="exhaustive enumeration of operation histories on the real code (one process per branch), against a reference model of live grids and exactly interpolated linear fields",
 note="histories of definitions, uses and releases of 4 grids in 3 casts, every branch continued by defining and using everything; 1200 to 4000 grids with each one (quick: one in five) released; up to 2300 sources of one target",
 rule="an evaluation is one definition or interpolation checked; a transition is one operation; a state is one vector of reference counts and identifiers or one option value",
 bound={"quick": "histories of 5 operations and a full continuation, 1200 grids, 26 residues of the source table", "thorough": "histories of 6 operations with twice the uses, 4000 grids, all 251 residues"})

prop("E06", "Yin-Yang grids: every point of the globe is served by the subgrid that holds it",
 "A Yin-Yang grid (type U) made of two subgrids, defined in memory or read from its descriptor record, has the points of its two subgrids one after the other, a position of either half converts to latitude and longitude and back, and every point of the globe lies in the subgrid that holds it: Yin inside the core of Yin, Yang outside the extent of Yin, either one in their overlap. Interpolating a scalar or a wind from it to any grid, to points, to another Yin-Yang grid or to its own subgrids gives, at every target, the weighted mean defined by that one subgrid (winds turned from the axes of that subgrid to those of the target, or to speed and direction), and interpolating to it gives on each half what interpolating to that subgrid gives. It does not depend on how many other sources the target has, leaves all options as the caller set them, and the use of a single subgrid gives exactly the interpolation from that subgrid. Definitions with other subgrids are other grids; a release disturbs no other grid.",
 ["inputs", "configurations"], "every Yin-Yang grid of a family of axes (with wide, narrow, uneven or no overlap) and rotations, every unit impulse of either half (hence every field and wind), every target grid and point of a lattice over the globe, every number of other sources",
 "no shipped test defines a Yin-Yang grid; errors sit at the borders of the subgrids, in one of the two halves or with particular options",
 ["src/interp/ezyysint.c", "src/interp/ezyyuvint.c", "src/interp/ezyywdint.c", "src/interp/ezyy_calcxy.c", "src/interp/ezyymint.c", "src/interp/ezgdef_supergrid.c", "src/interp/gdxyfll.c"],
 [("scalars", "src/interp/ezyysint.c"), ("winds", "src/interp/ezyyuvint.c"), ("choice of the subgrid", "src/interp/ezyymint.c"), ("definition", "src/interp/ezgdef_supergrid.c"), ("descriptor record", "src/interp/ez_lireEnrPositionnels.c"), ("positions", "src/interp/gdxyfll.c")],
 src=["checks/ezyy.cc"], level="model-checked", tech="exhaustive enumeration: the whole operator of every grid of the family, degree and target, obtained by feeding each unit impulse to the real code, against independently computed geometry, weights and rotations",
 note="4 pairs of axes in 3 (quick) or 7 (thorough) rotations, 7 targets for scalars and winds, every plain grid of the family as a source (quick: one in nine), up to 300 other sources",
 rule="an evaluation is one weight or position compared; a transition is one interpolation of an impulse; a state is one grid and target",
 bound={"quick": "12 Yin-Yang grids up to 21x13 points per half, 7 targets, up to 149 other sources", "thorough": "28 Yin-Yang grids, 7 targets, up to 299 other sources"})
prop("E07", "Distances and areas on the sphere are those of great circles, for every pair",
 "The distance between any two points given in degrees is the length of the great circle between them on a sphere of radius 6370997 m - nothing for a point and itself, half the circumference for opposite points, and to the precision of the coordinates for close points - whatever the turn in which the longitudes are given. The area of a cell given by four corners in turn, or of the rectangle between two corners, is that of the two spherical triangles it is made of, whichever corner comes first and in either direction, for cells that touch a pole and cells without extent too. Every result is a number.",
 ["inputs"], "every pair of points, close and antipodal ones included, and every convex cell",
 "no shipped test calls these routines; the formulas lose their digits, or their domain, at coincident, close and opposite points, at the poles and in obtuse triangles",
 ["src/interp/ez_calcdist.c"],
 [("arc cosine", "src/interp/ez_calcdist.c:c_ez_calcdist"), ("haversine", "src/interp/ez_calcdist.c:c_ez_calcdist2"), ("spherical excess", "src/interp/ez_calcdist.c:c_ez_calcarea2")],
 src=["checks/sphere.cc"], level="model-checked", tech="exhaustive enumeration of a lattice of points, offsets, cells and orders of the corners on the real code, against vector geometry in double precision",
 note="distances by arc cosine are allowed 2 m, areas in single precision 30 km2 beyond two parts in 1e5",
 rule="an evaluation is one distance or area compared; a state is one distinct result",
 bound={"quick": "all pairs of 348 points, 54 offsets and antipodes each, 36 parallels x 168 rectangles, cells of rotated grids", "thorough": "all pairs of 1236 points, 72 parallels, all rotated grids"})
prop("E08", "Masks stay with their grid, and tell another grid which points are present",
 "A mask given to a grid is kept until it is replaced or the grid released, whatever is given to other grids, and is returned exactly; a grid without one says so. Carried to a target grid, a mask is 1 where the nearest source point is present (and, with the linear algorithm, the four points around are) and 0 elsewhere, outside the source too; the zones count the present points among the four around a target point. This holds for points in the last cells, beyond the last column of a grid that goes around the globe, on the edges, and for a source stored from north to south. A masked field or wind is the interpolated one where the mask is 1 and the smallest interpolated value elsewhere; both interfaces agree.",
 ["inputs", "histories"], "every grid, mask, target point and algorithm",
 "no shipped test gives a mask to a grid; errors sit at the edges of the source and of the target",
 ["src/interp/ez_mask.c", "src/interp/ezget_mask_zones.inc", "src/interp/lorenzo_mask_fill.inc"],
 [("masks of grids", "src/interp/ez_mask.c:c_gdsetmask"), ("nearest and surrounding points", "src/interp/ezget_mask_zones.inc:qqq_ezsint_mask"), ("zones", "src/interp/ezget_mask_zones.inc:qqq_ezget_mask_zones"), ("filling", "src/interp/lorenzo_mask_fill.inc:lorenzo_mask_fill")],
 src=["checks/ezmask.cc"], level="model-checked", tech="exhaustive enumeration of source grids, masks with each single point missing, targets and algorithms, and of sequences of masks, on the real code against an independent definition",
 note="masks of Y grids (clouds of points) are not driven; within half a cell beyond the outermost points, a target point may count as outside or as its nearest point says",
 rule="an evaluation is one target point compared; a state is one mask obtained",
 bound={"quick": "all grids of the family as sources, 5 masks and one in three single missing points, 5 targets, 2 algorithms; 6561 sequences of 4 settings and releases over 3 grids", "thorough": "the large family, every single missing point"})
