"""Property texts: id, title, statement, over, quantifier text, why tests can't, files, mechanism."""
G = "cosipy/cpkernel/grid.py"
P = []


def p(id, title, statement, over, qtext, why, files, mech, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, note=note, na=na))


I, H, C = "inputs", "histories", "configurations"

p("C01", "Logarithmic re-meshing conserves the column",
  "Re-meshing a column onto the logarithmic layer profile conserves total height, ice mass, liquid water and heat (sum of height times temperature). "
  "It leaves every layer with positive height and a valid ice fraction, water content and temperature within the range of the column, and never aborts on a valid column.",
  [I, H], "every layer state (heights, ice fractions, water contents, temperatures) of a bounded number of snow and ice layers",
  "the tests re-mesh a few fixed profiles with dry layers; losses hide in particular height ratios, in wet layers and in single thin layers",
  [G], [("merge_nodes/split_node/correct_layer driven by log_profile", G + ":log_profile")])
p("C02", "Adaptive re-meshing conserves the column",
  "Adaptive re-meshing (merging similar thin neighbours, splitting layers) conserves total height, ice mass, liquid water and heat (sum of height times temperature), except for the snow it discards on purpose because it is thinner than the minimum snow layer. "
  "It never aborts on a valid column and leaves valid layers only.",
  [I, H], "every layer state of a bounded number of snow and ice layers",
  "the tests check one or two columns; which layers merge depends on pairwise density and temperature differences and on heights",
  [G], [("adaptive merge and split", G + ":adaptive_profile"), ("thin snow removal", G + ":update_grid")])
p("C03", "Merging, splitting and removing layers is exact",
  "Merging two neighbouring layers and splitting one layer conserve height, ice mass, liquid water and heat (height times temperature) exactly and leave all other layers unchanged and in order. "
  "Removing layers removes exactly the named layers.",
  [I], "every state of the layers and every position in columns of bounded length",
  "tests use a handful of layer values, dry layers in particular",
  [G], [("merge", G + ":merge_nodes"), ("split", G + ":split_node"), ("remove", G + ":remove_node")])
p("C04", "Surface melt removes exactly the requested mass",
  "Removing a melt amount lowers the water-equivalent mass of the column (height times density) by exactly that amount, working from the top down. "
  "The liquid water held by layers that melt away completely is returned, nothing else changes, and a non-positive amount changes nothing.",
  [I], "every layer state, every melt amount up to the mass of the column, bounded number of layers",
  "tests melt one fixed amount; the loop crosses layer boundaries only for particular amounts",
  [G], [("melt removal", G + ":remove_melt_weq")])
p("C05", "Percolation conserves water",
  "Percolation distributes the water supplied at the surface so that stored water plus runoff equals stored water before plus supply. "
  "Runoff is never negative, water moves downward only, and ice, height and temperature are left alone.",
  [I], "every layer state and every surface supply, bounded number of layers",
  "tests run one column and check little more than types",
  ["cosipy/modules/percolation.py"], [("bucket scheme", "cosipy/modules/percolation.py:percolation")])
p("C06", "Refreezing conserves mass and energy",
  "Refreezing turns liquid water into ice of equal mass, releases exactly the latent heat into the layer, never warms a layer above the melting point and never makes water negative. "
  "Layers at or above the melting point are left unchanged and the reported refrozen amount equals the liquid water lost.",
  [I], "every layer state, bounded number of layers", "tests check one column and a few hand-made states",
  ["cosipy/modules/refreezing.py"], [("refreezing", "cosipy/modules/refreezing.py:refreezing")])
p("C07", "Heat conduction respects bounds and heat balance",
  "Conduction never creates temperatures outside the range of the column, keeps the prescribed surface and bottom temperatures, and leaves a uniform column unchanged. "
  "Within the stability limit the heat gained by an inner layer is the difference of the conductive fluxes over its interfaces; mass is never touched.",
  [I], "every temperature profile (and every height profile with one sub-step), columns of bounded size",
  "tests run one profile; the sub-stepping and the interface weights matter only for uneven layers",
  ["cosipy/modules/heatEquation.py", G], [("explicit scheme with sub-stepping", "cosipy/modules/heatEquation.py:solveHeatEquation")])
p("C08", "Penetrating shortwave conserves mass and energy",
  "Absorbed penetrating shortwave warms layers or melts them: temperatures never exceed the melting point, ice that disappears reappears as liquid water of equal mass, and the reported subsurface melt equals that mass. "
  "The energy taken up by the column never exceeds the penetrating part of the net shortwave radiation, which is the prescribed share for snow or ice.",
  [I], "every layer state and net shortwave flux, bounded number of layers",
  "tests run one column with one flux; melting and disappearing layers need particular combinations",
  ["cosipy/modules/penetratingRadiation.py"], [("Bintanja scheme", "cosipy/modules/penetratingRadiation.py:method_Bintanja")])
p("C09", "Densification only compacts",
  "Dry compaction never increases a layer's height, never lowers its density, keeps its ice mass up to second-order terms of the time step, and leaves temperature, water mass and glacier ice untouched. "
  "The empirical scheme moves snow towards its limit density only and the constant scheme changes nothing.",
  [I, C], "every layer state, bounded number of layers, every supported densification method",
  "tests check single values for one profile",
  ["cosipy/modules/densification.py"], [("Boone / empirical / constant", "cosipy/modules/densification.py:densification")])
p("C10", "Age- and depth-based albedo stays in range",
  "With the ageing albedo scheme the surface albedo lies between the ice and fresh-snow albedos, equals the documented exponential function of snow age and of the depth of the snow in the column, and equals the ice albedo on bare ice. "
  "Older snow or a thinner snow cover is never brighter.",
  [I], "every layer state, snow age and snow depth, bounded number of layers",
  "tests sample a few ages; depth is measured only on columns with snow on top",
  ["cosipy/modules/albedo.py", G], [("Oerlemans & Knap", "cosipy/modules/albedo.py:method_Oerlemans")])
p("C11", "Temperature-dependent albedo decay is bounded",
  "With the temperature-dependent albedo scheme the snow albedo decays towards the firn albedo by the fraction dt/t* per step, with t* chosen by wet, cold and intermediate surface temperature, and is reset to fresh snow on snowfall. "
  "It never leaves the firn to fresh-snow range for any time step, and the surface albedo lies between the ice and the snow albedo.",
  [I, H, C], "every surface temperature, previous albedo, snow age and layer state; three time-step lengths",
  "the tests accept any float; no test looks at the decay rate",
  ["cosipy/modules/albedo.py"], [("Bougamont", "cosipy/modules/albedo.py:method_Bougamont")])
p("C12", "Roughness length follows the ageing law",
  "The snow roughness length grows linearly with snow age from the fresh-snow to the firn value and never leaves that range; bare ice has the ice roughness.",
  [I], "every snow age and layer state", "tests sample a few ages",
  ["cosipy/modules/roughness.py"], [("Moelg et al.", "cosipy/modules/roughness.py:updateRoughness")])
p("C13", "Surface temperature never exceeds the melting point",
  "Whatever the solver returns, the surface temperature used for the fluxes is the solution capped at the melting point, it is written to the top layer, and solutions below the lower bound trigger the fallback solver. "
  "The reported fluxes are those of exactly that temperature, and a fallback solution keeps within its bounds.",
  [I, "fault_sequences", C], "every value a root finder can return (or its failure), every layer state, all solver methods",
  "tests exercise converging cases only",
  ["cosipy/modules/surfaceTemperature.py"], [("cap and fallback", "cosipy/modules/surfaceTemperature.py:update_surface_temperature")])
p("C14", "Surface energy fluxes obey their laws",
  "Sensible and latent heat fluxes vanish without wind, have the sign of the temperature and humidity differences and vanish above the critical stability; outgoing longwave follows the fourth-power law, rain heat its calorimetric formula and ground heat the prescribed subsurface gradients. "
  "The energy-balance residual handed to the solver is the sum of exactly the returned fluxes, signed or absolute as the method requires.",
  [I, C], "every meteorological state in the admissible input range, both surface types, Richardson-number stability correction",
  "tests evaluate the fluxes at one or two states",
  ["cosipy/modules/surfaceTemperature.py"], [("fluxes", "cosipy/modules/surfaceTemperature.py:eb_fluxes"), ("residual", "cosipy/modules/surfaceTemperature.py:eb_optim")])
p("C15", "Stability functions are continuous and signed",
  "The integrated stability functions are zero in neutral conditions, non-positive in stable and non-negative in unstable conditions, and continuous between regimes; the Obukhov length has the sign of the heat flux. "
  "Friction velocity is reduced by stable and increased by unstable stratification.",
  [I, C], "every height, roughness, Obukhov length and wind speed in range; coupled and uncoupled mode",
  "tests evaluate a few values per regime",
  ["cosipy/modules/surfaceTemperature.py"], [("phi_m, phi_tq, ustar, MO", "cosipy/modules/surfaceTemperature.py:phi_m")])
p("C16", "Saturation vapour pressure is positive and increasing",
  "Saturation vapour pressure is positive, strictly increasing with temperature over ice and over water, continuous at the melting point and independent of the other temperature passed along.",
  [I], "every temperature between 200 K and 330 K", "tests evaluate a few temperatures",
  ["cosipy/modules/surfaceTemperature.py"], [("Sonntag", "cosipy/modules/surfaceTemperature.py:method_EW_Sonntag")])
p("C17", "Subsurface temperature interpolation is sound",
  "The temperature at the interpolation depths used for the ground heat flux is the linear interpolation between the neighbouring layers, lies within their range when the depth lies between them, and reproduces a uniform column exactly.",
  [I], "every height and temperature profile whose layers bracket the depth, bounded number of layers",
  "tests use one profile",
  ["cosipy/modules/surfaceTemperature.py"], [("interpolation", "cosipy/modules/surfaceTemperature.py:get_subsurface_temperature")])
p("C18", "Secant solver converges to what it claims",
  "A value the secant solver returns is a zero of the function or lies within the tolerance of the previous iterate; otherwise it raises an error. It finds the root of any non-constant linear function and never exceeds its iteration limit.",
  [I], "every starting point and every linear function; arbitrary functions given by their sampled values up to a small iteration limit",
  "tests use one polynomial",
  ["cosipy/modules/secant.py"], [("secant", "cosipy/modules/secant.py:secant")])
p("C19", "Mass balance terms add up every time step",
  "In every time step the mass balance is the sum of surface and internal mass balance; the surface part is snowfall minus melt plus sublimation, deposition and evaporation, and the internal part is refreezing minus subsurface melt. "
  "The reported values of all terms are those used in the balance, and melt equals the melt energy divided by the latent heat of melting.",
  [I, H], "every forcing value and every value the physical modules can return, over several time steps",
  "tests never run the time loop with checks on its budget",
  ["cosipy/cpkernel/cosipy_core.py"], [("time loop", "cosipy/cpkernel/cosipy_core.py:cosipy_core")])
p("C20", "Phase-change fluxes have the right sign and phase",
  "Below the melting point latent heat produces only sublimation or deposition, at the melting point only evaporation or condensation, with losses never positive and gains never negative and their sum equal to the latent heat flux converted to mass. "
  "Melt energy is the energy-balance surplus and never negative.",
  [I], "every flux and surface temperature the energy balance can return", "tests never check single steps of the time loop",
  ["cosipy/cpkernel/cosipy_core.py"], [("surface mass fluxes", "cosipy/cpkernel/cosipy_core.py:cosipy_core")])
p("C21", "Precipitation is partitioned without loss",
  "Total precipitation equals rain plus snowfall water equivalent (up to the two suppression thresholds), the solid share decreases with temperature and lies between zero and one, and fresh snow is added with the parametrised density at no more than the melting point. "
  "Snowfall given directly is used unless total precipitation is forced, and any supported combination of precipitation inputs runs.",
  [I, C], "every precipitation amount, temperature and wind in range; all combinations of supplied precipitation variables",
  "tests never run the combinations",
  ["cosipy/cpkernel/cosipy_core.py"], [("partition", "cosipy/cpkernel/cosipy_core.py:cosipy_core")])
p("C22", "Restarting continues from the saved state",
  "The state a run writes for a restart is the state of its last time step, and loading it recreates exactly that column: number of layers, heights, temperatures, liquid water, ice fractions and the fresh-snow clocks.",
  [H, I], "every final column of bounded size and every clock value",
  "tests load a hand-made restart object with other variable names than those written",
  ["cosipy/cpkernel/init.py", "cosipy/cpkernel/io.py", "cosipy/cpkernel/cosipy_core.py"],
  [("write", "cosipy/cpkernel/cosipy_core.py:cosipy_core"), ("load", "cosipy/cpkernel/init.py:load_snowpack")])
p("C23", "Initial column matches its description",
  "The initial column has the prescribed total snow and glacier heights (no snow where the snow height is missing or zero), snow densities between the top and bottom values increasing downwards, glacier ice below, no liquid water, and temperatures changing linearly with depth between the surface value (the air temperature, at most the melting point) and the bottom value.",
  [I, C], "every initial snow height, air temperature and pair of snow densities; two glacier heights",
  "tests build two columns",
  ["cosipy/cpkernel/init.py"], [("initialisation", "cosipy/cpkernel/init.py:init_snowpack")])
p("C24", "Fresh snow is stacked and dated correctly",
  "Snowfall becomes a new dry top layer of the given height, density and temperature and leaves the layers below untouched. "
  "Snowfall above the threshold restarts the snow clock while remembering the age of the old snow; otherwise both clocks advance by the time step, and reverting to the old snow restores its age.",
  [I, H], "every layer state, clock value, snowfall amount and density, bounded number of layers",
  "tests check one snowfall",
  [G], [("fresh snow", G + ":add_fresh_snow")])
p("C25", "Results land in their own grid cell and variable",
  "Collecting the result of a grid cell writes each returned series to the output variable of that name at that cell only, leaves all other cells as they were, and skips variables the user did not ask for. "
  "Restart fields are collected the same way, every output variable carries its own name and unit, and the shipped output selection can be written.",
  [I, C, "schedules"], "every value, every order in which two cells arrive, every selection of output variables in the supported set",
  "tests compare a few variables for one cell",
  ["cosipy/cpkernel/io.py"], [("collection", "cosipy/cpkernel/io.py:copy_local_to_global")])
p("C26", "Only glacier cells run and every failure is reported",
  "A distributed run starts the model for exactly the grid cells inside the glacier mask, with the data and restart state of that same cell, and stores each result at the cell it came from in whatever order the workers finish. "
  "A cell whose computation fails stops the run with its error instead of leaving a silent gap.",
  ["schedules", I, "fault_sequences"], "every mask on a small grid, every completion order, every failing cell",
  "tests never run the dispatcher with several cells",
  ["COSIPY.py"], [("dispatch", "COSIPY.py:run_cosipy")])
p("C27", "Input range checks accept and reject correctly",
  "An input field is reported as out of range exactly when one of its values lies outside the documented bounds of its variable; values inside never raise a warning. Missing values inside the glacier mask stop the run and missing values outside never do.",
  [I], "every field of bounded size including missing values, every variable with bounds",
  "tests use one variable",
  ["cosipy/cpkernel/io.py"], [("bounds", "cosipy/cpkernel/io.py:check_input_data")])
p("C28", "The simulated period is the configured one",
  "The simulated data covers exactly the time steps between the configured start and end (both inclusive), a restart begins one time step after the saved state, and a period outside the data is refused. Tiling keeps exactly the configured rows and columns.",
  [I, C], "every start and end on a small time axis", "tests use one period",
  ["cosipy/cpkernel/io.py"], [("period", "cosipy/cpkernel/io.py:init_data_dataset")])
p("C29", "Station forcing is converted faithfully (point runs)",
  "Converting station data for a point run keeps every time step in the requested period, converts temperature, humidity, precipitation and pressure with the configured lapse rates and formulae, keeps humidity within its physical range and precipitation non-negative, fills gaps with the last valid value, and assigns latitude and longitude to the right coordinates. "
  "Hourly aggregation averages states and sums amounts, values out of range are reported, and with the station at the target altitude the values are unchanged.",
  [I, C], "every station value in range and every altitude difference", "tests check helper functions at single values",
  ["cosipy/utilities/aws2cosipy/aws2cosipy.py"], [("point forcing", "cosipy/utilities/aws2cosipy/aws2cosipy.py:create_1D_input")])
p("C30", "Station forcing is distributed faithfully (2D runs)",
  "Distributing station data over a grid gives each glacier cell the lapse-rate-corrected value for its own altitude, never a negative precipitation or radiation, and leaves cells outside the glacier without corrected radiation.",
  [I], "every altitude and station value in range on a small grid", "tests check helper functions at single values",
  ["cosipy/utilities/aws2cosipy/aws2cosipy.py"], [("distribution", "cosipy/utilities/aws2cosipy/aws2cosipy.py:create_2D_input")])
p("C31", "Terrain radiation correction stays physical",
  "The terrain-corrected shortwave radiation equals the horizontal radiation on flat ground, treats all radiation as diffuse (uncorrected) when the solar zenith exceeds the threshold, and otherwise scales the beam part by the angle between sun and slope. "
  "The diffuse fraction lies between its empirical minimum and one; solar elevation and azimuth satisfy the spherical relations with latitude, declination and hour.",
  [I], "every slope, aspect, latitude, hour and radiation value in range", "tests check fixed days",
  ["cosipy/modules/radCor.py"], [("correction", "cosipy/modules/radCor.py:correctRadiation")])
p("C32", "WRF forcing is converted faithfully",
  "Conversion of WRF output keeps temperature and radiation, gives pressure in hPa, precipitation as the increments of the accumulated fields, snowfall depth as the snow-water increment over the fresh-snow density, wind at 2 m from 10 m by the logarithmic law, and humidity between 0 and 100 percent from specific humidity. "
  "Mask, coordinates and units belong to the right cells and variables, and exactly the requested period is converted.",
  [I, H], "every accumulated series and every meteorological value in range", "no tests run the conversion",
  ["cosipy/utilities/wrf2cosipy/wrf2cosipy.py"], [("conversion", "cosipy/utilities/wrf2cosipy/wrf2cosipy.py")])
p("C33", "Configuration is taken over exactly",
  "Every value in the configuration, constants, Slurm and utilities files named on the command line appears unchanged under its name after loading, a second load replaces the values of the first, and derived options follow from them: grid dimension names for WRF data, full-field output and fixed parametrisations in coupled mode, unset worker number, memory per Slurm job.",
  [C], "every boolean and numeric value of the options", "tests compare the shipped files only",
  ["cosipy/config.py", "cosipy/constants.py", "cosipy/utilities/config_utils.py"], [("loading", "cosipy/config.py")])
p("C34", "Setup never overwrites files without consent",
  "Generating sample configuration files never overwrites an existing file unless the user silenced the prompt or answered yes to that very file; any other answer keeps it. Missing files are created as copies of the samples, and the sample directory itself is refused as target.",
  [I, "histories"], "every combination of existing files, options and answers", "tests patch one answer at a time",
  ["cosipy/utilities/setup_cosipy/setup_cosipy.py"], [("setup", "cosipy/utilities/setup_cosipy/setup_cosipy.py")])
p("C35", "Stake evaluation measures the right difference",
  "The stake evaluation compares observations with the cumulative mass balance or snow height the model reached at the date of the observation. The score of each stake in the cell is the root mean square difference of the configured quantity over the available observations, zero exactly when they agree and symmetric under exchange.",
  [I, C], "every observed and modelled value", "tests use one series",
  ["cosipy/modules/evaluation.py", "cosipy/cpkernel/cosipy_core.py"], [("evaluation", "cosipy/modules/evaluation.py:evaluate")])
p("C36", "Reported column state equals the simulated one",
  "The layer profiles, layer count, snow and total height, surface temperature, albedo, roughness and snow clocks reported for a time step are those of the simulated column at the end of that step; unused layer slots stay missing.",
  [H, C], "every column and module result over several steps; full-field output on and off, standalone and coupled", "tests never compare outputs with the column",
  ["cosipy/cpkernel/cosipy_core.py"], [("storing", "cosipy/cpkernel/cosipy_core.py:cosipy_core")])
p("C37", "Derived layer properties follow from the layer state",
  "Density, specific heat, conductivity, porosity, cold content and irreducible water of a layer are the documented functions of its ice fraction, water and temperature: volume fractions sum to one, density is that of the ice, water and air mixture, conductivity lies between those of air and ice, and irreducible water is never negative.",
  [I, C], "every layer state, both thermal conductivity methods", "tests check fixed layers",
  ["cosipy/cpkernel/node.py"], [("Node getters", "cosipy/cpkernel/node.py:Node")])
p("C38", "A full time step closes the water and mass budget",
  "Over a whole time step of the real modules the change of ice and liquid water in the column equals snowfall, rain, condensation and deposition minus sublimation and runoff, up to the documented second-order densification term; no process leaves an invalid layer behind.",
  [I, H], "every state of a small column and every surface flux, the surface solver replaced by arbitrary fluxes", "no test closes a budget",
  ["cosipy/cpkernel/cosipy_core.py", G], [("time loop", "cosipy/cpkernel/cosipy_core.py:cosipy_core")])
p("C39", "Parametrised clear-sky and cloud radiation is physical",
  "The radiation parametrised after Mölg et al. (2009) is dark when the sun is below the horizon. "
  "By day it is the diffuse part plus, unless the shading table marks the cell as shaded or the slope faces away from the sun, a direct part proportional to the cosine of the angle between sun and slope; cloud cover and sky-view factor scale the parts, and nothing is ever negative or exceeds the top of the atmosphere on level ground. "
  "Day length is right at every latitude including polar day and night, and the shading table is computed for the sun position the radiation uses at that step, one entry per time step of the year.",
  [I], "every slope, aspect, cloud cover, sky-view factor, elevation and time correction; several latitudes, declinations and time steps",
  "no test calls these functions (every call failed with current metpy)",
  ["cosipy/modules/radCor.py"], [("radiation", "cosipy/modules/radCor.py:calcRad"), ("shading table", "cosipy/modules/radCor.py:LUTshad"), ("solar parameters", "cosipy/modules/radCor.py:solpars")])
p("C40", "Terrain shading and sky view follow the terrain",
  "A glacier cell is shaded exactly when terrain towards the sun rises above the sun's elevation as seen from the cell; terrain elsewhere does not matter and flat terrain never shades itself. "
  "The sky-view factor lies between zero and one and is the fraction of sky directions in front of the slope that the terrain leaves open. Cells outside the mask stay missing.",
  [I], "every terrain height on a small grid, every solar elevation, eight sun directions, every horizon elevation",
  "no test calls these functions",
  ["cosipy/modules/radCor.py"], [("ray tracing", "cosipy/modules/radCor.py:relshad"), ("sky view", "cosipy/modules/radCor.py:LUTsvf")])
p("C41", "Stakes are evaluated at their own grid cell",
  "The grid cell of a stake is the nearest one, found from Earth-centred coordinates on the WGS84 ellipsoid. "
  "Each stake is evaluated with the model results of its own cell only, and the scores are stored under the name and coordinates of that stake, whatever the order in which cells finish.",
  [I, "schedules"], "every stake position on a small grid, every pair of stakes", "tests do not run the stake evaluation of a distributed run",
  ["COSIPY.py"], [("stakes", "COSIPY.py:run_cosipy"), ("coordinates", "COSIPY.py:transform_coordinates")])
p("C42", "Static files describe the given glacier",
  "Creating the static file marks exactly the cells inside the glacier outline with one and all others as missing, stores elevation, slope and aspect of the terrain model under their own names, and refuses terrain data that are missing inside the glacier. "
  "The external commands run in an order in which each finds the file the previous one wrote, with the configured extent and resolution.",
  [I, C], "every terrain value and every mask on a small grid, each option", "tests never run the script",
  ["cosipy/utilities/createStatic/create_static_file.py"], [("static file", "cosipy/utilities/createStatic/create_static_file.py")])
