prop("V01", "Vertical interpolation equals its textbook definition at every target level",
 "For any monotone source levels, increasing or decreasing, and any target levels, each target is located between the two source levels that bracket it (the end interval when it lies outside); nearest-neighbour, linear, cubic Lagrange and cubic-with-derivatives interpolation give the value (and derivative) of the textbook formula; a target outside the source range takes the end value when extrapolation on that side is disabled and the formula's value otherwise; the fixed, lapse-rate, surface and surface-wind extrapolations change exactly the targets they apply to, and the aborting one ends the program exactly when an extrapolation is needed. Inputs and padding outside the given number of sets are never changed. Single and double precision and the plain and extended interfaces agree.",
 ["inputs"], "every number and spacing of source levels, both directions, every target position relative to them, every enabling of extrapolation",
 "the two shipped tests sample a handful of levels in a fixed arrangement; end intervals, two-level columns and the decreasing direction multiply",
 ["src/interpv/Interp1D_FindPos_Body.inc", "src/interpv/Interp1D_Linear_Body.inc", "src/interpv/Extrap1D_Fixed_Body.inc"],
 [("bracketing search", "src/interpv/Interp1D_FindPos_Body.inc"), ("interpolators", "src/interpv/Interp1D_*_Body.inc"), ("extrapolators", "src/interpv/Extrap1D_*_Body.inc")],
 src=["checks/interpv.cc"], level="model-checked", tech="exhaustive enumeration of level arrangements, target positions and switches on the real code against the textbook formulas in extended precision",
 note="all monotone subsets of 9 (quick) or 12 (thorough) levels in both directions, all level counts to 260/1200; targets at, between and outside all levels",
 rule="an evaluation is one target compared; distinct states are distinct level arrangements",
 bound={"quick": "2^9 level sets x 2 directions x up to 4 states x 2 precisions x 2 interfaces x 4 switches; counts 2..260; 2..5 levels for the aborting variant", "thorough": "2^12 level sets, counts 2..1200, 2..9 levels for abort"})
