"""how each property is decided: (oracle, why beyond tests)."""
N = {
"C01": "The real `log_profile` runs on columns with symbolic state. Family H leaves all heights and waters symbolic (ice fraction and temperature fixed per instance), family F leaves ice fractions, temperatures and waters symbolic at fixed heights, so that products stay linear in the unknowns. Oracle: sums over layers before and after.",
"C02": "As C01 with `update_grid` and the adaptive profile; the discarded thin snow is bounded by the minimum snow layer height.",
"C03": "`merge_nodes`, `split_node`, `remove_node` at every position, all layer values symbolic; sums and all other layers compared.",
"C04": "`remove_melt_weq` on arbitrary columns; the recursion over layer boundaries is unrolled by path exploration. Oracle: mass difference, returned water of vanished layers, untouched remainder.",
"C05": "Bucket scheme with symbolic state and surface supply; water balance over the column and non-negative runoff.",
"C06": "One call with symbolic state; ice gain equals water loss in mass, temperature gain equals latent heat over heat content, per layer.",
"C07": "`solveHeatEquation` with symbolic temperatures (and heights, for one sub-step): discrete maximum principle, boundary values, and for small steps the flux form of the update against the documented Fourier flux with interface conductivities.",
"C08": "Bintanja scheme: absorbed energy against the fraction of net shortwave, water produced against ice lost, temperature cap. The layer that melts completely has its own harness, whose mass assertion is a known finding.",
"C09": "One densification step for each method from any layer state. Boone conserves dry ice mass only to second order (explicit Euler in density and height); the assertion carries exactly that term.",
"C10": "Albedo against the closed formula (exp as uninterpreted function, same arguments) plus range and monotonicity in age and depth.",
"C11": "One step from any previous snow albedo for three time steps; decay against (a - firn) dt/t*.",
"C12": "Closed formula and range over every age.",
"C13": "Root finders are environment stubs that return any value or fail; the wrapper's cap, fallback choice and flux evaluation are real code. The objective handed to the fallback minimiser is evaluated at symbolic temperatures: it must be non-negative and vanish exactly where the balance closes.",
"C14": "`eb_fluxes` and `eb_optim` with two or three symbolic inputs at a time; laws written independently from the documentation (bulk formula, Stefan-Boltzmann, calorimetry, gradients); the residual equals the sum of the returned fluxes.",
"C15": "Stability functions piecewise against their formulae, signs, continuity as a Lipschitz bound around regime borders.",
"C16": "Sonntag formula through the exp/log axioms: positivity, strict monotonicity, continuity at 273.16 K.",
"C17": "Interpolation between symbolic layers bracketing the depth. A first layer thicker than the depth is outside the quantifier (the code wraps to index -1 there and extrapolates).",
"C18": "The secant loop is unrolled to its iteration limit with an arbitrary function: each evaluation returns a fresh symbol (same symbol for equal points).",
"C19": "The real time loop; every module returns fresh symbols. Oracle: the sums of the reported series.",
"C20": "As C19, one step; phases and signs of the vapour fluxes and the conversion from latent heat to mass.",
"C21": "As C19, forcing symbolic; all combinations of supplied precipitation variables.",
"C22": "Write and load in one query: a final column with symbolic state is stored by the time loop, collected by the IO class and reloaded by `load_snowpack` through a second run.",
"C23": "`init_snowpack` with symbolic snow height, temperature and densities; the number of layers is resolved by path exploration.",
"C24": "`add_fresh_snow` and the snow clocks from any state.",
"C25": "Two cells with symbolic series and profiles collected in both orders; every other slot must stay missing. Units and names compared with the documented table.",
"C26": "`run_cosipy` with a stub scheduler whose completion order, failing cell and glacier mask are symbolic; each result is a fresh symbol, so a mix-up of cells cannot cancel.",
"C27": "`check_input_data` with symbolic values (or missing) per variable against the documented bounds; `check_for_nan` through the dispatcher.",
"C28": "`init_data_dataset` on an in-memory file with symbolic values, start, end, record order and tile.",
"C29": "`create_1D_input` from an in-memory table of symbolic station values against independently written lapse, barometric and clipping formulae.",
"C30": "`create_2D_input` with symbolic altitudes, mask and station values; terrain radiation replaced by an arbitrary value (C31 decides it).",
"C31": "`radCor2D`, `solarFParallel` and `Fdif_Neustift` over symbolic angles. Spherical relations are checked algebraically via the addition theorems for arcsin and arccos. Longitude dependence is a known finding.",
"C32": "`create_input` on an in-memory WRF file, groups of variables symbolic at a time.",
"C33": "The parsed file is replaced by one in which every number and switch is a symbol; each must arrive under its name. The TOML parser itself (standard library) is trusted.",
"C34": "`main()` of the setup tool runs with real files in a scratch directory; existence, switch and answers are solver variables. The state space is finite, so the solver's role is to enumerate and close it.",
"C35": "`rmse` over symbolic observations and model values, and the sampling of the cumulative balance inside the real time loop. Reading of the stake files and the nearest-cell search (KD-tree, C code) are outside.",
"C36": "Time loop with a real column whose state is set to fresh symbols each step; each reported slot is compared with the column at the end of the step.",
"C37": "Node and Grid getters and setters against the documented formulae over every layer state.",
"C38": "Time loop with modules that obey their own conservation laws (assume-guarantee with C04-C08); change of stored mass against the reported terms. Evaporation and excess deposition are known findings and have a harness of their own.",
"C39": "`calcRad`, `solpars` and `LUTshad` executed with one cell, one day or one latitude symbolic. The oracle is the scalar product of an independently built unit vector to the sun (from latitude, declination and hour angle) with the slope normal; sines and cosines are instances of uninterpreted functions with addition theorems, bounds and point lemmas. The azimuth of the table is decided for chosen hour angles only (the arccos of a clipped quotient was undecided for all). All four functions were broken when first checked (see KNOWN_FINDINGS).",
"C40": "`relshad` over symbolic heights along the line to the sun and beside it: a lit cell implies that no terrain on the line rises above the sun, a shaded cell that some does (positions known to half a cell, since the tracer samples at cell spacing). `LUTsvf` with the shading replaced by a symbolic uniform horizon.",
"C41": "`transform_coordinates` over symbolic latitude and longitude (point on the ellipsoid, its normal at that latitude, hemisphere and meridian), and the stake block of `run_cosipy` with the tree search replaced by one that may return any cell (its points and queries are checked), stubbed workers, every mask and completion order.",
"C42": "The script is executed with richdem, xarray input and `os.system` replaced: the commands are interpreted by a small file model (who writes and reads what), the terrain values stay symbolic through the in-memory data set.",
}
OUT = """## What is not covered

* plotting, `postprocessing`, `convert_config`: command-line tools around matplotlib, netCDF and
  external programs; no symbolic values reach the computation.
* dask/Slurm scheduling, netCDF reading and writing, TOML and CSV parsing: library code behind I/O. The checks replace them
  with in-memory data or with stubs that may return anything.
* `method_Vionnet` (densification, refers to grain properties the grid does not have).
* Convergence of the whole surface energy balance with the real root finder (an iteration to tolerance in floating point);
  the wrapper is decided for every value a finder can return (C13), the residual exactly (C14), the secant loop in
  isolation (C18).
* Rounding errors, overflow and denormals.

## Defects found

Every entry of `KNOWN_FINDINGS` was found by a check (or while writing it) and shown on the real code. Entries
`fixed:` were repaired by a small commit in `/repo`; the check passes now and fails if the defect returns. Entries
`finding:` are left in place because a repair is a modelling decision (what to evaporate, where to put hoar, how to treat
radiation left over when a layer disappears, which sign convention the longitude correction has); their checks print
`KNOWN-FINDING` and stay quiet for exactly that harness and label.

## Corrections made to checks and properties

* C01-C03 first claimed conservation of cold content weighted by ice fraction; the model weights temperatures by height, so
  the property is stated for height times temperature.
* C04 is stated for the water equivalent of height times density (what the time loop means by melt), not ice mass alone.
* C09: dry mass is conserved up to a second-order term only; wet layers are outside the mass assertion.
* C17: depths above the first layer's centre are outside the quantifier.
* C26: a failing cell aborts the run by design; the property demands that its error is raised, not that others survive.
* C29/C30: missing leading values and radiation outside the mask are stated as implemented (refused, missing).
* Counterexamples of the relaxation that do not reproduce are never reported.
"""
