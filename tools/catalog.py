#!/usr/bin/env python3
"""The catalogue of properties: writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK_COMMITS = ["9be8a534cc8c2147a1acd062a2d6fda780070ed9",
                "4e2576fe720fc45bb01f98dbc9ed8a6c2cc9ce57"]

CART = "src/grid/cartesian_grid.rs"
CYL = "src/grid/cylindrical_grid.rs"
VEC = "src/grid/vector_grid.rs"
GRID = "src/grid.rs"
FUN = "src/functions.rs"
MIX = "src/functions/mixing.rs"
COND = "src/functions/conditional.rs"
EXT = "src/functions/extractions.rs"
SEL = "src/particleselector.rs"
PDATA = "src/datamanager/pdata.rs"
TDATA = "src/datamanager/tdata.rs"
CONV = "src/converter.rs"
TOOLS = "src/converter/convertertools.rs"
IDLINE = "src/converter/csv_modes/csv_multi_idline.rs"
CHAIN = "src/converter/csv_modes/csv_multi_chain.rs"
MFILE = "src/converter/csv_modes/csv_multi_file_time_step.rs"
LEGACY = "src/converter/legacytools.rs"
XML = "src/converter/xmltools.rs"

RUST = "property-based testing: seeded structured generators, reference-model oracle, shrinking"
META = "property-based testing: metamorphic relations over generated datasets, shrinking"
STATE = "model-based (stateful) property testing: generated operation sequences against an array model, shrinking"

TESTS = "The existing tests only build one small grid and set its data and weights; "
NOANA = "No existing test runs an analysis; "

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=RUST, note=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe))


# ---------------------------------------------------------------- grids
prop("G01", "A Cartesian grid puts every position into the cell that contains it",
     "For every Cartesian grid, each position inside its limits belongs to exactly the cell whose boundaries enclose it, with equally wide cells between the limits along each axis. "
     "Cell positions the grid reports are the centres of these cells, and a value inserted or added at a position shows up in that cell only.",
     ["inputs", "configurations"], "all cell counts, limits (any scale and offset) and positions inside, including the limits themselves",
     TESTS + "binning has to hold for every count, scale, sign of the limits and position.",
     [CART], [("cell_id", CART), ("positions of the cells", CART), ("is_inside", CART)])
prop("G02", "A cylindrical grid has rings of equal volume and bins into the enclosing cell",
     "For every cylindrical grid (centred in its box, with the larger half extent as radius), each position inside belongs to the cell whose ring, sector and layer enclose it. "
     "All rings hold the same volume, are adjacent and cover the radius; sectors cover the full circle from -pi to pi and layers the height in equal parts.",
     ["inputs", "configurations"], "all cell counts, limits and positions, including ring, sector and layer boundaries and the axis",
     TESTS + "no test ever creates a cylindrical grid.",
     [CYL], [("cell_id", CYL), ("new (ring boundaries)", CYL), ("to_cylindrical_coord", CYL)])
prop("G03", "Positions outside of a grid never change or read a cell",
     "A position outside of the limits of a grid, or one with a missing (NaN) coordinate, is reported as outside, has no cell and no value (NaN). "
     "Adding or inserting a value there, or a trajectory that starts there (for Cartesian grids also one that ends there), leaves all data and weights unchanged and never fails.",
     ["inputs", "configurations"], "all grids with any content and all positions outside or with NaN coordinates",
     TESTS + "nothing is ever added outside of the grid.",
     [CART, CYL], [("is_inside guard in add_value, insert, add_trajectory_value", CART), ("the same", CYL)])
prop("G04", "A grid is an array of values with an array of weights under all operations",
     "After any sequence of operations on a scalar grid, data and weights of every cell are those of a plain pair of arrays: adding adds the value and a weight of one, inserting replaces the value, a trajectory is split in halves between the start and end cell of a Cartesian grid and counted at the start of a cylindrical one, dividing acts cell by cell. "
     "Copies and empty copies are independent of their original, keep its limits and cells, and arrays of another shape are refused.",
     ["histories"], "all sequences of operations on all grids",
     "The existing tests set data or weights once on one grid; sequences, copies and refusals are never exercised.",
     [CART, CYL, GRID], [("GridFunctions3D implementations", CART), ("GridFunctions3D implementations", CYL)], STATE)
prop("G05", "A slice is the layer of the cell that contains the position",
     "Slicing a grid by index returns exactly the values of that layer of cells along the axis, and slicing at a position returns the layer of the cell that contains it (the first and last layer at the limits). "
     "A position outside of the limits of the axis is refused.",
     ["inputs", "configurations"], "all grids of both kinds, axes, indices and positions in the coordinates of the grid",
     TESTS + "no test slices a grid.",
     [CART, CYL], [("slice, slice_idx", CART), ("slice, slice_idx", CYL)])
prop("G06", "Collapsing a grid gives the weighted mean along the collapsed axes",
     "Collapsing a grid along one or two axes gives for every remaining cell the mean of the values weighted by their weights, and the sum of the weights. "
     "Cells without weight do not contribute, even when they hold no number; where all weights are zero the result is NaN, and the grid itself stays as it was.",
     ["inputs", "configurations"], "all grids, axes, values (including NaN in cells without weight) and weights",
     TESTS + "no test collapses a grid.",
     [CART, CYL], [("collapse, collapse_two and their weights", CART), ("the same", CYL)])
prop("G07", "Outlier removal changes outliers only, by the chosen mode",
     "Outlier removal leaves every cell at or below the threshold, cells without a value, and their weights unchanged. "
     "Cells above the threshold become zero (mode 0), the threshold (mode 1) or the mean of the surrounding cells that are no outliers (mode 2, all up to 26 neighbours within the grid, also at its faces, edges and corners); other modes are refused.",
     ["inputs", "configurations"], "all grids (also with a single cell along an axis), data with any pattern of outliers and missing values",
     TESTS + "no test removes outliers.",
     [CART, CYL], [("outlier_removal", CART), ("outlier_removal", CYL)])
prop("G08", "The components of a vector grid stay consistent under all operations",
     "A vector grid behaves like three grids with the same cells that receive every operation: each component, whatever it holds, changes as a grid of its own would (outlier removal included), its data, weights and collapsed views are those of the first component, its cells and limits are those of the grid it was made from. "
     "Copies are independent of the original and arrays of another shape are refused.",
     ["histories"], "all sequences of operations on vector grids of both kinds",
     "No existing test creates a vector grid.",
     [VEC], [("GridFunctions3D for VectorGrid", VEC)], STATE)
prop("G09", "Velocities are expressed in the coordinates of the grid",
     "On a Cartesian grid a velocity is unchanged; on a cylindrical grid its components are the radial velocity, the angular velocity (tangential velocity divided by the distance) and the axial velocity, relative to the axis of the grid at the position of the particle.",
     ["inputs", "configurations"], "all grids (the axis anywhere), positions inside and velocities",
     "No existing test computes a velocity on a grid.",
     [CYL, VEC], [("velocity_calculation", VEC), ("to_cylindrical_velocity", CYL)])
prop("G10", "The text of a grid states its cells, limits and the statistics of its values",
     "The text of a grid (shown or printed for debugging) states its cells, its limits along each axis and the mean, standard deviation, minimum and maximum of the cells that hold a value; that of a vector grid the mean of each component.",
     ["inputs"], "all grids of both kinds and vector grids with any content",
     "No existing test looks at the text of a grid.",
     [CART, CYL, VEC, "src/utilities.rs"], [("Display, Debug", CART), ("the same", CYL), ("the same", VEC), ("nan_mean, nan_std", "src/utilities.rs")])
prop("U01", "Mesh and missing-value helpers match their definitions",
     "Mean, standard deviation, minimum and maximum ignore missing values and are those of the remaining ones. "
     "Mesh grids repeat every axis along the others in their place and flattening keeps the order of the values.",
     ["inputs"], "all array shapes, axes and values with any pattern of NaN",
     "No existing test calls these helpers.",
     ["src/utilities.rs", "src/utilities/maths.rs"], [("nan_mean, nan_std", "src/utilities.rs"), ("meshgrid, minmax, flatten", "src/utilities/maths.rs")])

# ---------------------------------------------------------------- selection
prop("S01", "A selector accepts exactly what its ranges describe",
     "A particle is selected if and only if its radius, cloud, density and id each satisfy their own criterion: everything for the default (a single -1, for the id a single 0), equality for one value, an inclusive range for two, membership for more. "
     "A timestep is selected if and only if its time lies within the time window, both ends included.",
     ["inputs", "configurations"], "all combinations of criteria and particle properties, windows at, between and beside the timesteps",
     "No existing test creates a selector.",
     [SEL], [("is_valid, timestep_valid", SEL)])
prop("S02", "Selecting particles equals having only these particles in the dataset",
     "For every analysis, the result with a particle selection on the full dataset equals the result without a selection on a dataset that holds only the selected particles. "
     "Particles that are not selected never influence a result.",
     ["inputs", "configurations"], "all analyses, parameters, datasets and selections by radius, cloud, density and id",
     NOANA + "the relation needs pairs of datasets.",
     [FUN, MIX, COND, SEL], [("is_valid in every particle loop", FUN), ("the same", MIX), ("the same", COND)], META)
prop("S03", "A time window equals having only the timesteps of the window",
     "For every analysis of single timesteps, the result with a time window equals the result on a dataset of only these timesteps; analyses of steps between timesteps use exactly the starts in the window, also when a step ends after it. "
     "With no timestep in the window nothing is counted.",
     ["inputs", "configurations"], "all analyses, parameters, datasets and windows",
     NOANA + "the relation needs pairs of datasets.",
     [FUN, MIX, COND, SEL], [("timestep_valid in every time loop", FUN), ("the same", MIX), ("the same", COND)], META)
prop("T01", "The timestep found for a time is the closest one",
     "For every increasing list of times and every requested time from the first to the last timestep, the timestep found is the one closest to it. "
     "Times outside of the dataset are reported as such rather than answered with a timestep.",
     ["inputs"], "all lists of times (regular or not, negative, one or many) and requested times",
     "No existing test searches a timestep.",
     ["src/datamanager.rs"], [("timestep_at_seconds_closest", "src/datamanager.rs")])

# ---------------------------------------------------------------- analyses
prop("A01", "The number field counts the selected particles per cell",
     "The number field holds in every cell how often a selected particle was inside it at a selected timestep, counted over all timesteps including the first and the last one. "
     "Particles outside of the grid or without a position do not count.",
     ["inputs", "configurations"], "all datasets, grids of both kinds and selections",
     NOANA + "counts depend on every particle and timestep.",
     [FUN], [("numberfield", FUN)])
prop("A02", "The velocity field is the mean of the chosen component per cell",
     "Every cell of the velocity field holds the mean, over the selected particles in it at the selected timesteps, of the chosen quantity: the speed, the speed within a plane, or one component (radial and angular components of the cylinder on cylindrical grids), with the number of velocities as weight. "
     "Velocities outside of the given limits and missing ones are left out, and cells without any hold no value (NaN).",
     ["inputs", "configurations"], "all modes, limits, datasets, grids and selections",
     NOANA + "means depend on every particle and timestep.",
     [FUN], [("velocityfield", FUN)])
prop("A03", "The vector field is the mean velocity vector per cell",
     "Every cell of the vector field holds the mean of the velocity components, in the coordinates of the grid, over the selected particles in it at the selected timesteps, with the number of velocities as weight of all three components. "
     "Particles without velocity are left out and cells without any hold no value (NaN).",
     ["inputs", "configurations"], "all datasets, grids and selections",
     NOANA + "means depend on every particle and timestep.",
     [FUN, VEC], [("vectorfield", FUN)])
prop("A05", "The occupancy is the share of time spent in each cell",
     "The occupancy of a cell is the time selected particles spend in it divided by the time all of them are followed: every step of a particle from a selected timestep to the next one, up to the last timestep, adds its duration to the cell where it starts, or one half each to the cells where it starts and ends on Cartesian grids. "
     "Particles are followed by their id, those slower than the minimum velocity are skipped, and the shares never add up to more than one.",
     ["inputs", "histories"], "all datasets (rows changing between timesteps, irregular times), grids, selections and minimum velocities",
     NOANA + "shares depend on every step of every particle.",
     [FUN], [("occupancyfield", FUN), ("find_particle", FUN)])
prop("A06", "Dispersion is the variance of the positions particles reach after a time",
     "For every cell that at least two selected particles start from, the dispersion is the sum over the axes of the sample variance of their positions at the timestep closest to the start plus the given time; particles are followed by their id. "
     "The mixing efficiency is the mean dispersion of these cells, and starts whose end is after the dataset or has no position are left out.",
     ["inputs", "histories"], "all datasets, grids, selections and times (zero, between timesteps, past the end)",
     NOANA + "the variance depends on every pair of timesteps.",
     [FUN], [("dispersion", FUN), ("find_particle", FUN)])
prop("A07", "The displacement field is the mean squared displacement per start cell",
     "Every cell of the displacement field holds the mean squared distance between the position of selected particles that start in it and their position at the timestep closest to the start plus the given time, with their number as weight, and zero without any. "
     "Particles are followed by their id, and starts whose end is after the dataset or has no position are left out.",
     ["inputs", "histories"], "all datasets, grids, selections and times",
     NOANA + "the mean depends on every pair of timesteps.",
     [MIX], [("msd_field", MIX)])
prop("A08", "The granular temperature is the spread of the velocities per cell",
     "The granular temperature of a cell is the standard deviation of the velocity component of the selected particles in it at the selected timesteps, or the root of a third of the sum of the three variances. "
     "Particles without velocity are left out, cells without any hold no value, and cells where all velocities are the same hold zero.",
     ["inputs", "configurations"], "all modes, datasets, grids and selections",
     NOANA + "the spread depends on every particle; rounding must not turn it into NaN.",
     [FUN], [("granular_temperature_field", FUN)])
prop("A09", "The velocity histogram counts every speed in its bin",
     "The histogram has the given number of equally wide bins from the lowest speed of the dataset to the given limit, or to the highest speed without one, and every selected particle inside the grid with a speed within these limits is counted in exactly the bin that contains it. "
     "The highest speed belongs to the last bin; faster particles and those without velocity are not counted.",
     ["inputs", "configurations"], "all datasets, grids, selections, limits and numbers of bins",
     NOANA + "counts depend on every particle.",
     [FUN], [("histogram", FUN)])
prop("A10", "The Lacey index follows its definition at every selected timestep",
     "For every selected timestep, up to the last one, the mixing index is the Lacey index of the two particle types: (S0-S)/(S0-Sr) with S0=p(1-p) for the overall share p, Sr=S0/cells and S the squared differences of the shares in the cells that hold at least the threshold of particles, divided by the number of cells less one. "
     "Times and indices are given at the position of their timestep, zero for timesteps outside of the window, and types that do not occur never make it fail.",
     ["inputs", "configurations"], "all datasets, types, thresholds, grids and selections",
     NOANA + "the index depends on every particle of a timestep.",
     [MIX], [("lacey_mixing", MIX)],
     note="the index is compared where both types are present and the grid has at least two cells")
prop("A11", "The concentration is the share of one type among both per cell",
     "Every cell of the concentration field holds the number of selected particles of the first type divided by the number of both types over all selected timesteps, with that number as weight. "
     "Cells without particles of both types hold no value, other types do not count.",
     ["inputs", "configurations"], "all datasets, types, grids and selections",
     NOANA + "shares depend on every particle.",
     [MIX], [("concentration_field", MIX)])
prop("A12", "Circulation times are the times between every third crossing of a boundary",
     "For every selected particle, the crossings of the boundary between consecutive selected timesteps, up to the last one, are taken in groups of three, and each complete group gives the time from its first to its third crossing. Touching the boundary and returning is no crossing. "
     "Particles are followed by their id, and a boundary outside of the system is refused.",
     ["inputs", "histories"], "all datasets, axes, boundaries and selections",
     NOANA + "circulations are histories over many timesteps.",
     [COND], [("circulation_time", COND)])
prop("A13", "Two-boundary circulations leave a region, enter the other and leave again",
     "The outer regions are below the lower and above the upper boundary; the one a selected particle is seen to leave first is its home, and each pair of consecutive exits from home with an entry into the other region in between gives one circulation with the times of both exits. "
     "Leaving and entering are between consecutive selected timesteps (both at once is possible, leaving comes first; a position on a boundary is in no region), particles are followed by their id, and boundaries outside of the system are refused.",
     ["inputs", "histories"], "all datasets, axes, pairs of boundaries and selections",
     NOANA + "circulations are histories over many timesteps.",
     [COND], [("circulation_time_two_boundary", COND)])
prop("A14", "Extraction returns the exact trajectory of a particle",
     "Extracting a particle over a range of timesteps (the end not included, the last timestep possible) returns for each of them in order its time, position and velocity exactly as stored. "
     "Ranges beyond the dataset are refused.",
     ["inputs"], "all datasets, particles and ranges",
     NOANA + "ranges up to the last timestep are never tried.",
     [EXT], [("extract", EXT)])
prop("A15", "The mean velocity is the mean speed of the selected particles",
     "The mean velocity is the mean of the speeds of the selected particles at all selected timesteps, where particles without velocity are left out.",
     ["inputs"], "all datasets and selections",
     NOANA + "the mean depends on every particle.",
     [FUN], [("mean_velocity, mean_velocity_showcase", FUN)])
prop("A16", "The homogeneity index is the spread of the occupancy over the layers",
     "The homogeneity index is the standard deviation over the layers along the height of the grid of the mean occupancy (weighted by visits, zero for a layer without visits) of each layer, for the same selection and minimum velocity as the occupancy. "
     "It is a number that is not negative whenever any particle is followed.",
     ["inputs", "configurations"], "all datasets, grids, selections and minimum velocities",
     NOANA + "the index depends on every step of every particle.",
     [FUN], [("homogenity_index", FUN)])
prop("A17", "The displacement curve is the overall mean squared displacement per time",
     "For the given number of equally spaced times from the first to the last one, the curve holds the mean over all selected starts inside the grid of the squared displacement after that time, each particle counting the same. "
     "Times of the curve are those asked for.",
     ["inputs", "histories"], "all datasets, grids, selections and ranges of times",
     NOANA + "the curve depends on every pair of timesteps.",
     [MIX], [("msd", MIX)])

# ---------------------------------------------------------------- relations
prop("A04", "Earlier content of the grid never changes an analysis",
     "Every analysis gives the same result on a grid that already holds data and weights, from other operations or an earlier analysis, as on an empty one with the same cells.",
     ["histories", "configurations"], "all analyses, parameters, datasets and earlier contents of the grid",
     NOANA + "the relation needs pairs of runs.",
     [FUN, MIX, CART, CYL], [("new_zeros at the start of the analyses", FUN), ("the same", MIX)], META)
prop("Q01", "Analyses are repeatable and leave their inputs unchanged",
     "Repeating an analysis with the same parameters gives the same result, whatever analyses ran on the dataset in between and in whatever order, and the same as on a freshly opened dataset. "
     "The grid given to an analysis is not changed.",
     ["histories"], "all sequences of analyses with two selections on one dataset",
     NOANA + "the relation needs sequences of runs.",
     [FUN, MIX, COND], [("analyses as functions of dataset, grid and selection", FUN)], META)
prop("I01", "The order of the particles within a timestep does not matter",
     "Every analysis gives the same result when the particles of each timestep are stored in any other order, independently for every timestep. "
     "Particles are identified by their id only.",
     ["inputs"], "all analyses, parameters, datasets and permutations per timestep",
     NOANA + "the relation needs pairs of datasets.",
     [FUN, MIX, COND], [("find_particle", FUN), ("the same", MIX), ("the same", COND)], META)
prop("I02", "Results do not depend on the origin of space and time",
     "Moving the dataset together with the grid and the boundaries in space, and the dataset together with the window in time, leaves every analysis result unchanged except that times in results move along.",
     ["inputs", "configurations"], "all analyses, parameters, datasets and shifts",
     NOANA + "the relation needs pairs of datasets.",
     [FUN, MIX, COND, CART, CYL], [("positions relative to the grid", CART), ("the same", CYL), ("time differences", FUN)], META)
prop("I03", "No axis of a Cartesian grid is special",
     "Exchanging the axes of the dataset, the grid and the parameters exchanges the axes of the result of every analysis and changes nothing else, except for the homogeneity index, which is defined along the height.",
     ["inputs", "configurations"], "all analyses but the homogeneity index, Cartesian grids and exchanges of axes",
     NOANA + "the relation needs pairs of datasets.",
     [FUN, MIX, COND, CART], [("the same computation for every axis", CART)], META)
prop("I04", "Results of adjacent time windows combine to that of both",
     "For fields that are sums or means over timesteps (number, velocity, vector, concentration and displacement fields), the results for two adjacent windows without a common timestep, added by cell with their weights, are the result for the joined window. "
     "No timestep at the border is lost or counted twice.",
     ["inputs", "configurations"], "all such fields, datasets, grids and splits of a window",
     NOANA + "the relation needs sets of runs.",
     [FUN, MIX, SEL], [("timestep_valid", SEL), ("sums and weights per cell", CART)], META)
prop("I05", "Collapsing a fine field gives the field of the coarse grid",
     "Number, velocity and concentration fields, collapsed along an axis with their weights, equal the same field computed on a grid with one cell along that axis. "
     "Refining a grid along an axis never loses or adds a particle.",
     ["inputs", "configurations"], "all such fields, datasets, grids of both kinds and axes",
     NOANA + "the relation needs pairs of runs.",
     [FUN, MIX, CART, CYL], [("collapse", CART), ("collapse", CYL), ("cell_id", CART)], META)
prop("I06", "Results scale with the units of the dataset",
     "Expressing a dataset, the grid and all parameters in other units of length and time scales the result of every analysis by the power of the units its quantity has, and dimensionless results (counts, shares, indices) do not change.",
     ["inputs", "configurations"], "all analyses, parameters, datasets and units",
     NOANA + "the relation needs pairs of datasets.",
     [FUN, MIX, COND, CART, CYL], [("no absolute constants in the analyses", FUN)], META)

# ---------------------------------------------------------------- files
NOIO = "The existing tests neither read nor write a file; "
prop("D01", "A particle file is read as it is stored, in any order of reads",
     "Opened as particle-based dataset, every timestep of a file is returned with exactly the time, positions, velocities, radii, types and densities stored for that step (zero radius and type and density one where they are not stored, the number of the particle as id, one cloud per position), whatever was read before: "
     "forwards, backwards, in jumps, through the main buffer, any number of extra buffers or without a buffer. The global statistics are those of the file, and a timestep beyond the end is refused.",
     ["histories", "inputs"], "all files with any number of particles and timesteps and all sequences of reads",
     NOIO + "buffers only matter beyond 20000 timesteps and depend on everything read before.",
     [PDATA], [("get_timestep, update", PDATA), ("get_timestep_buffer, update_extra, setup_buffer", PDATA), ("read_single", PDATA), ("global_stats", PDATA)], STATE)
prop("D02", "A timestep file is read as it is stored, in any order of reads",
     "Opened as timestep-based dataset, every timestep of a file is returned with exactly the time and the columns stored for that step, row by row (density one where it is not stored), also when the number of particles changes from step to step, whatever was read before: "
     "forwards, backwards, in jumps, through the main buffer, any number of extra buffers or without a buffer. The global statistics are those of the file, and a timestep beyond the end is refused.",
     ["histories", "inputs"], "all files with any particles per timestep and all sequences of reads",
     NOIO + "buffers only matter beyond 20000 timesteps and depend on everything read before.",
     [TDATA], [("get_timestep, update", TDATA), ("get_timestep_buffer, update_extra, setup_buffer", TDATA), ("read_single", TDATA), ("global_stats", TDATA)], STATE)
prop("D03", "An analysis of a file is that of its content",
     "Every analysis of an open particle or timestep file gives what it gives for the same data in memory, for any number of timesteps and after any analyses that were run on the same open file before.",
     ["histories", "inputs", "configurations"], "all files, analyses, parameters, grids and selections and all orders of analyses on one file",
     NOIO + "analyses read steps in their own order, several at a time and repeatedly.",
     [PDATA, TDATA, FUN], [("reads of the analyses", FUN), ("buffers", PDATA), ("buffers", TDATA)],
     "property-based testing: differential (file against memory) over generated datasets and sequences of analyses, shrinking")

prop("D04", "The text of a dataset states what its file says and the rotation set",
     "The text that an open particle or timestep file gives of itself states smallest, largest and the extent of the positions along each axis, the last time, the numbers of particles and timesteps, and the smallest, mean and largest speed, each with its own label, as the file has them, and the rotation (angles and centre) last set; it tells no rotation where none is set or all angles are zero again, and a read of the data in between changes nothing.",
     ["histories", "inputs"], "all files of both kinds and sequences of rotations set and reads",
     NOIO + "no test looks at the text.",
     [PDATA, TDATA], [("info", PDATA), ("info", TDATA), ("set_rotation_angle", PDATA), ("set_rotation_anker", TDATA)],
     "property-based testing: the text of generated files after generated rotations is compared, label by label, with what was written, shrinking")

# ---------------------------------------------------------------- converters
NOCONV = "No existing test converts a file; "
ATTRS = "The global statistics of the dataset (particle number, number of timesteps, first and last time, time array, sample rate, extent of the positions, and smallest, mean and largest velocities and speeds) are those of the converted data."
CONVERT = "property-based testing: round trip, generated files are converted and read back through the data managers and compared with what was generated, shrinking"
prop("C01", "A csv file of one particle is converted to what it holds",
     "Converting a csv file with times, positions and velocities of a particle gives a dataset whose timesteps are the rows of the file, in the order of their times, with exactly their times, positions and velocities and the given radius: for any delimiter, comments, header, order of the columns, further columns, any order of the rows and any times (also zero and negative ones); of rows with the same time the first counts. "
     + ATTRS + " Missing velocities that are not to be computed, or given ones that are, are refused.",
     ["inputs", "configurations"], "all csv files of a particle and ways to write them",
     NOCONV + "times, formats and extreme values come in any combination.",
     [CONV, TOOLS], [("csv_converter", CONV), ("sort_by_column, is_sorted", TOOLS), ("read back", PDATA)], CONVERT)
prop("C02", "A csv file with ids is converted to the particles it holds",
     "Converting a csv file whose rows name their particle (mode id_line) gives a particle-based dataset in which every timestep holds all particles, numbered in the order of their ids, each with exactly the position and velocity of its row of that time and the given radius, for rows in any order and format of the file; rows that repeat a time of a particle are left out. " + ATTRS,
     ["inputs", "configurations"], "all csv files of particles that share their times",
     NOCONV + "particles and times come in any order, with repetitions.",
     [IDLINE, TOOLS], [("multi_idline", IDLINE), ("sort_by_column", TOOLS), ("read back", PDATA)], CONVERT)
prop("C03", "A chained csv file is converted to the particles it holds",
     "Converting a csv file that lists the whole track of one particle after that of another (mode chain) gives a dataset in which every timestep holds all particles, in the order of the file, each with exactly the position and velocity of its row of that time and the given radius. Rows that repeat a time of a particle and tracks of fewer than ten rows are left out, and all tracks are cut to the length of the shortest one, so that each timestep has all particles. " + ATTRS,
     ["inputs", "configurations"], "all csv files of chained tracks, of any lengths, that start at the same time and share their times",
     NOCONV + "the end of a track is only seen in the times.",
     [CHAIN, TOOLS], [("multi_chain", CHAIN), ("read back", PDATA)], CONVERT)
prop("C04", "A sequence of csv files is converted to the timesteps it holds",
     "Converting one csv file per timestep gives a timestep-based dataset with the given times, in which every timestep holds the rows of its file with their ids, positions and velocities and the given radius, also when the number of particles changes. The particle number is the largest of a timestep. " + ATTRS,
     ["inputs", "configurations"], "all sequences of csv files and formats",
     NOCONV + "particle numbers change from file to file.",
     [MFILE, TOOLS], [("csv_multi_file_time_step", MFILE), ("read back", TDATA)], CONVERT)
VTKTEXT = ("gives a file marked as timestep-based dataset, with the files in the order of the numbers in their names, at the times these numbers and the timestep length stand for, in which every timestep holds the particles of its file in the order of their ids with exactly their positions, velocities, radii (half the diameters where these are named) and types (one where no field is named), "
           "whatever the fields are called and however they are ordered. Of a folder the vtk files are converted, bounding boxes and other files are left out. The particle number is the largest id. ")
prop("C05", "Legacy vtk files are converted to the particles they hold",
     "Converting a list or a folder of legacy vtk files " + VTKTEXT + ATTRS,
     ["inputs", "configurations"], "all sequences of particle files, in any number formats, and all names of files and fields",
     NOCONV + "ids, files and fields come in any order.",
     [CONV, LEGACY, TOOLS], [("LegacyVTKConverter", CONV), ("get_field_f64 and others", LEGACY), ("make_sortlist, sort_by_array", TOOLS), ("read back", TDATA)], CONVERT)
prop("C06", "XML vtk files are converted to the particles they hold",
     "Converting a list or a folder of XML vtk files (.vtp and .vtu), of one or several pieces, " + VTKTEXT + ATTRS,
     ["inputs", "configurations"], "all sequences of particle files, in any number formats and pieces, and all names of files and fields",
     NOCONV + "ids, pieces, files and fields come in any order.",
     [CONV, XML, TOOLS], [("XMLVTKConverter", CONV), ("pieces and fields", XML), ("make_sortlist, sort_by_array", TOOLS), ("read back", TDATA)], CONVERT)
prop("C07", "Velocities from positions are slopes of the best parabola at the row",
     "Converting positions with velocity computation gives every row that has half the sampling steps of rows on either side (and no other), at its own time and position, with the slope at its time of the parabola that fits best (least squares) to the sampling steps around it: a particle that moves along a parabola gets its exact velocity, also when the times are not evenly spaced. " + ATTRS,
     ["inputs", "configurations"], "all tracks of one or (with nine sampling steps, in both modes) several particles and uneven times",
     NOCONV + "the velocity depends on the spacing of the times.",
     [TOOLS, CONV, IDLINE, CHAIN], [("velocity_polynom", TOOLS), ("csv_converter", CONV), ("multi_idline", IDLINE)],
     "property-based testing: generated tracks against an own least squares fit and the exact law of motion, shrinking")
prop("C08", "Interpolated datasets have even times and stay between the samples",
     "Converting with interpolation gives as many timesteps as rows (of the particle with most of them, less those that velocities need), evenly spaced from zero to the time of the last row since the first, also for particles sampled at times of their own from the same start to the same end, and each position lies between those of the samples around its time: a particle in straight motion is exactly on its line, at its constant velocity, also across gaps in the times.",
     ["inputs", "configurations"], "all tracks and uneven times",
     NOCONV + "gaps and bursts make several samples fall between two steps, or none.",
     [TOOLS, CONV, IDLINE, CHAIN], [("interpolate", TOOLS), ("velocity_polynom", TOOLS)],
     "property-based testing: generated tracks against bounds from the samples around and the exact law of motion, shrinking")
prop("C09", "A conversion of what cannot be read is refused",
     "A conversion never ends as if it had succeeded when a file is not there, a value of a column to convert is no number, rows have different numbers of columns, a column asked for does not exist, the delimiter is another one, the header is not declared, or there are fewer times than files; likewise when a vtk file, or a piece of one that has particles, lacks a field asked for (velocity, id, radius or diameter, type) or has it with another number of values per particle, is of another kind (legacy, .vtp, .vtu), has a name without the number that the filter looks for, the files of a list are not in the order of these numbers, or a folder has no vtk files.",
     ["inputs", "configurations"], "all csv and vtk files with one of these faults",
     NOCONV + "no test converts a file with a fault.",
     [CONV, IDLINE, CHAIN, MFILE, TOOLS, LEGACY, XML], [("csv_converter", CONV), ("csv_multi_converter", CONV), ("write_hdf5_from_files", CONV)],
     "property-based testing: a generated conversion is accepted, the same with one fault has to be refused, shrinking")

# ---------------------------------------------------------------- figures
NOPLOT = "The tests of the plots are not part of the build and look at one grid; "
P2D = "src/plotting/plotting_2d/"
PYPLOT = "up4/plotting.py"
LIBPLOT = "src/pylib/libplot.rs"
FIGURE = "property-based testing: generated fields are drawn in python, the figures are parsed and compared with the fields, shrinking"
PLANE = "Across any axis, of a single plane or averaged over the depth, "
prop("P01", "A scalar map shows the value of every cell at its place",
     PLANE + "the heat map of a scalar field (its value) or a vector field (the length of its components in the plane) has each cell of the plane once, at its position on the two axes of the plane in their order, with its value. "
     "The simple plot of a grid shows the depth average in the same way with the first axis upwards.",
     ["inputs", "configurations"], "all fields on Cartesian and cylindrical grids, axes and selections of planes, on plotters used before",
     NOPLOT + "axes are only confused on grids that are no cubes.",
     [P2D + "scalar_map.rs", PYPLOT, LIBPLOT], [("ScalarMap::from_*", P2D + "scalar_map.rs"), ("Plotter2D.scalar_map", PYPLOT), ("_scalar_map", LIBPLOT)], FIGURE)
prop("P02", "A contour plot has the values of the cells, ten steps from least to largest",
     PLANE + "the contour plot of a scalar or vector field has each cell of the plane once, at its position, with its value (the length in the plane for vectors), and levels in ten steps between the smallest and the largest value.",
     ["inputs", "configurations"], "all fields, axes and selections of planes, on plotters used before",
     NOPLOT + "levels follow from the values.",
     [P2D + "scalar_contour.rs", PYPLOT, LIBPLOT], [("ScalarContour::from_*", P2D + "scalar_contour.rs"), ("create_scalar_contour", P2D + "scalar_contour.rs"), ("Plotter2D.scalar_contour", PYPLOT)], FIGURE)
prop("P03", "A quiver plot draws the vector of every cell at its place",
     PLANE + "the quiver plot of a vector field has one arrow per cell of the plane, which starts at the position of the cell and is the vector of the two components in the plane, with a head of two points 0.3 of its length behind its tip, 20 degrees to both sides. With a scaling mode it has as many arrows at the same places, with heads that fit their lengths.",
     ["inputs", "configurations"], "all vector fields, axes and selections of planes, on plotters used before",
     NOPLOT + "axes and components have to fit for every plane.",
     [P2D + "quiver.rs", PYPLOT, LIBPLOT], [("QuiverPlot::from_*", P2D + "quiver.rs"), ("create_arrows", P2D + "quiver.rs"), ("Plotter2D.quiver_plot", PYPLOT)], FIGURE)
prop("P04", "Scaling modes bound the arrows of a quiver plot and keep their directions",
     "With the scaling mode min, max or minmax every arrow of a quiver plot has the direction of its vector and its length, but at least min_size, at most max_size, or both. With half_node and full_node all arrows are scaled by the same factors along the two axes so that an arrow of the longest vector along an axis fills half of the distance between two cells or all of it.",
     ["inputs", "configurations"], "all vector fields, axes, planes, modes and sizes",
     NOPLOT + "bounds apply to some arrows and not to others.",
     [P2D + "quiver.rs", PYPLOT, LIBPLOT], [("bound_min, bound_max, bound_min_max", P2D + "quiver.rs"), ("bound_half_node, bound_full_node", P2D + "quiver.rs"), ("quiver_plot", LIBPLOT)], FIGURE)
prop("P05", "Unit vectors show directions, their background shows the magnitude",
     "A unit vector plot has one arrow per cell, at its position and in the direction of the vector in the plane; without a scaling mode each fills half of the distance between two cells along the axes, the scaling modes bound or scale these arrows as those of a quiver plot. The background is a map of the lengths of the vectors in the plane.",
     ["inputs", "configurations"], "all vector fields, axes, planes, modes and sizes",
     NOPLOT + "vectors of any length have to give the same arrows.",
     [P2D + "unit_vector.rs", PYPLOT, LIBPLOT], [("UnitVectorPlot::from_*", P2D + "unit_vector.rs"), ("create_unit_vector_background", P2D + "unit_vector.rs"), ("Plotter2D.unit_vector_plot", PYPLOT)], FIGURE)
prop("P06", "A parity plot pairs the values of the same cells of two fields",
     PLANE + "or of all cells, a parity plot of two fields has one point per cell (for vectors one per cell and component) with the value of the first field as x and of the second as y. The line of equal values is on the diagonal and reaches all values of scalar fields.",
     ["inputs", "configurations"], "all pairs of fields on the same grid, axes and planes",
     NOPLOT + "pairs are only confused when the grid is no cube and the fields differ.",
     [P2D + "parity_plot.rs", PYPLOT, LIBPLOT], [("ParityPlot::from_*", P2D + "parity_plot.rs"), ("create_parity_scatter", P2D + "parity_plot.rs"), ("Plotter2D.parity_plot", PYPLOT)], FIGURE)
prop("P07", "Parity maps and contours show the difference of two fields cell by cell",
     PLANE + "the parity map and the parity contour of two fields have each cell of the plane once, at its position, with the value (or length in the plane) of the first field less that of the second. In rust also the absolute difference and the difference in percent of the first field.",
     ["inputs", "configurations"], "all pairs of fields on the same grid, axes, planes and kinds of difference",
     NOPLOT + "axes are only confused on grids that are no cubes.",
     [P2D + "parity_map.rs", P2D + "parity_contour.rs", PYPLOT, LIBPLOT], [("ParityMap::from_*", P2D + "parity_map.rs"), ("ParityContour::from_*", P2D + "parity_contour.rs"), ("delta_as_*", P2D + "parity_map.rs")], FIGURE)
prop("P08", "Colours of a figure are those of the colour map it names",
     "For every colour map, named in any case of letters, the colour scale of maps, contours, parity maps and contours, the background of unit vectors and the colour bar of quiver plots goes through the colours of that map from 0 to 1. An arrow of a quiver plot has the colour of its length between the smallest and the largest one (black without a colour map), in every scaling mode, and the colour bar has these limits.",
     ["inputs", "configurations"], "all 36 colour maps, kinds of figures, fields and planes",
     NOPLOT + "each of the maps and figures is a case of its own.",
     [PYPLOT, LIBPLOT, P2D + "quiver.rs"], [("names of the colour maps", LIBPLOT), ("get_colour_map", P2D + "scalar_map.rs"), ("normalise_colour", P2D + "quiver.rs")], FIGURE)
prop("P09", "Figures refuse invalid arguments, style and layout change nothing else",
     "A plotter refuses an axis other than 0, 1 and 2, an unknown selection, a plane without index, an unknown colour map or scaling mode, a mode without the sizes it needs, arrows of a scalar field and anything but a grid with a ValueError. A layout or style that is given is used, and nothing else of the figure changes. "
     "Saving a figure scales it to the width of the paper without its borders at the given dots per inch.",
     ["inputs", "configurations"], "all kinds of figures and arguments",
     NOPLOT + "each method checks its arguments on its own.",
     [PYPLOT], [("checks of arguments", PYPLOT), ("save_fig", PYPLOT)], FIGURE)

# ---------------------------------------------------------------- python
PYLIB = "src/pylib.rs"
LIBGRID = "src/pylib/libgrid.rs"
LIBCONV = "src/pylib/libconv.rs"
PYGRID = "up4/grid.py"
NOPY = "No existing test runs python; "
PYTHON = "property-based testing: the python module runs in the harness, results of generated calls (by position, by name, defaults left out) are compared with the data written or the rust functions on the same data, shrinking"
prop("Y01", "Indexing a dataset in python gives the timesteps that python semantics name",
     "For an open dataset, data[i] is an array with one row per particle (id, position, velocity) of timestep i, counted from the end for negative i; data[list] and data[slice], with any start, stop and step (also negative), stack the timesteps that a python list would give, rows that a timestep does not have are zero. Indices outside, or that are none, are refused and len(data) is the number of timesteps.",
     ["histories", "inputs"], "all files and sequences of indices, lists, arrays and slices",
     NOPY + "slices have to work for every combination of bounds and steps.",
     [PYLIB], [("__getitem__", PYLIB), ("__len__", PYLIB)], PYTHON)
prop("Y02", "A dataset states in python what its file says",
     "Data(file) finds out the kind of file, from_tdata and from_pdata open it as one; min_position, max_position, dimensions, time and nparticles are those stored, and the text of a dataset states the extent along each axis, the last time, the numbers of particles and timesteps and the smallest, mean and largest speed; stats() prints the extents, the last time, the number of particles and these speeds.",
     ["inputs"], "all files of both kinds",
     NOPY + "values are only confused when they differ.",
     [PYLIB, "src/datamanager.rs"], [("min_position, dimensions, time", PYLIB), ("__str__, info", PYLIB), ("Data.__new__", PYLIB)], PYTHON)
prop("Y03", "An analysis in python is the analysis in rust with the same parameters",
     "Every analysis of a dataset in python gives the result of the same analysis in rust for the same parameters and the time window set before, whether arguments are given by position, by name or left out where they have their default; grids passed in are not changed and grids returned serve as grids of other analyses. The granular temperature is given as the root of its square. A window beyond the data is refused.",
     ["histories", "inputs", "configurations"], "all datasets, analyses, parameters, defaults and sequences of calls on one dataset",
     NOPY + "each analysis hands on its parameters on its own.",
     [PYLIB], [("numberfield, velocityfield and others", PYLIB), ("set_time", PYLIB), ("defaults of the parameters", PYLIB)],
     PYTHON)
prop("Y04", "Grids in python give the cells, values and weights they hold",
     "to_numpy, weights_to_numpy, slice, slice_pos, collapse, collapse_two, cell_positions, shape, is_inside, cell_id and remove_outliers of a grid in python give what the grid holds along the axis asked for, component by component for vector grids; its text states cells, limits, and mean, smallest and largest value.",
     ["inputs", "histories"], "all grids of both kinds with any content and sequences of calls",
     NOPY + "axes and components are only confused when they differ.",
     [LIBGRID], [("slice, slice_pos, collapse", LIBGRID), ("PyVecGrid", LIBGRID), ("__str__", LIBGRID)], PYTHON)
prop("Y05", "Grid() has the region, cells and style that its arguments ask for",
     "A grid made by up4.Grid covers the limits given, else the xlim, ylim and zlim given and the extent of the dataset along the other axes; it has num_cells cells (50 along each axis if not given), or as many cells of the cell_size given as fit into the region, is cylindrical or Cartesian as asked for, and empty. Regions may lie on either side of zero. Unknown styles and arguments of the wrong kind or length, or limits in the wrong order, are refused.",
     ["inputs", "configurations"], "all combinations of datasets, limits, cells, sizes and styles, as lists or arrays",
     NOPY + "every combination of arguments is a branch of its own.",
     [PYGRID, LIBGRID], [("Grid.__new__", PYGRID), ("calc_num_cells", PYGRID), ("cartesian3d, cylindrical3d", LIBGRID)], PYTHON,
     note="the numbers of rings and sectors for a cell_size in cylindrical grids are not specified, only that of the layers")
prop("Y06", "Converter.csv and csv_multi convert as their arguments say",
     "Called in python, by position, by name or with defaults left out, the conversion of csv files of one particle (csv), and of several with ids or chained (csv_multi, method id_line or chain), gives the dataset that the file and the arguments stand for: order, times, positions, given or computed velocities, radius, interpolation and all global statistics.",
     ["inputs", "configurations"], "all files and arguments that C01, C02, C03, C07 and C08 cover",
     NOPY + "arguments may be exchanged or defaults be wrong.",
     [LIBCONV, CONV], [("csv", LIBCONV), ("csv_multi", LIBCONV)], CONVERT)
prop("Y07", "Converter.csv_multi_files converts as its arguments say",
     "Called in python, by position, by name or with defaults left out, the conversion of one csv file per timestep gives the dataset that files, times and arguments stand for, with all particles of each timestep and all global statistics.",
     ["inputs", "configurations"], "all files and arguments that C04 covers",
     NOPY + "arguments may be exchanged or defaults be wrong.",
     [LIBCONV, CONV], [("csv_multi_files", LIBCONV)], CONVERT)
prop("Y08", "Converter.vtk and vtk_from_folder convert as their arguments say",
     "Called in python, by position, by name or with defaults left out, the conversion of a list or a folder of vtk files, legacy (.vtk) or XML (.vtu, .vtp) as the filter says, gives the dataset that files and arguments stand for, with positions, velocities, radii (from radius or diameter field), ids and types from the fields named.",
     ["inputs", "configurations"], "all files and arguments that C05 and C06 cover, with a field of types",
     NOPY + "every kind of file and field has a branch of its own.",
     [LIBCONV, CONV], [("vtk", LIBCONV), ("vtk_from_folder", LIBCONV)], CONVERT)
prop("Y09", "A conversion in python raises an exception for what cannot be read",
     "The methods of Converter raise an exception, and do not return as if they had succeeded, when a file is not there, a value of a column to convert is no number, rows have different numbers of columns, a column asked for does not exist, the delimiter is another one, the header is not declared, or there are fewer times than files; likewise when a vtk file, or a piece of one that has particles, lacks a field asked for (velocity, id, radius or diameter, type) or has it with another number of values per particle, is of another kind than the filter says, has a name without the number that the filter looks for, the files of a list are not in the order of these numbers, or a folder has no vtk files.",
     ["inputs", "configurations"], "all csv and vtk files with one of these faults",
     NOPY + "no test converts a file with a fault.",
     [LIBCONV, CONV], [("vtk", LIBCONV), ("csv_multi", LIBCONV)], CONVERT)


NOTE = ("Random exploration of generated inputs against an explicit oracle: a failure is a shrunk, replayable case; "
        "passing shows no counterexample among the generated cases. Trusts the reference model in /verif/harness, the in-memory "
        "dataset that stands in for the HDF5 readers, and the mirror of /repo without its git dependencies.")

NOTE_IO = ("Random exploration of generated inputs against an explicit oracle: a failure is a shrunk, replayable case; "
           "passing shows no counterexample among the generated cases. Trusts the oracle in /verif/harness_io, the stand-ins of the "
           "crates hdf5 and vtkio in /verif/stubs (files in memory, or the parsed part of vtk) and buffers of 4 instead of 20000 timesteps (hook).")

NOTE_FULL = ("Random exploration of generated inputs against an explicit oracle: a failure is a shrunk, replayable case; "
             "passing shows no counterexample among the generated cases. Trusts the oracle in /verif/harness_full, the stand-ins of the "
             "crates hdf5, vtkio and plotly and of the python package plotly in /verif/stubs (files in memory, figures as JSON), buffers of 4 timesteps (hook) "
             "and that the module runs in an interpreter inside of the harness with the numpy of /opt/veriftools.")

NOT_APPLICABLE = []


def main():
    order = sorted(P, key=lambda p: ("GSUTAQIDCPY".index(p["id"][0]) if p["id"][0] in "GSUTAQIDCPY" else 99, p["id"]))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in order:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            s = p["statement"].strip()
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": s,
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks = []
    for p in order:
        if any(n["property"] == p["id"] for n in NOT_APPLICABLE):
            continue
        note = (NOTE_FULL if p["id"][0] in "PY" else NOTE_IO if p["id"][0] in "DC" else NOTE) + ((" Here " + p["note"] + ".") if p["note"] else "")
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": "exploration", "level_note": note,
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "./build.sh scope && ./build.sh io && ./build.sh full",
            "hooks": {"guard": "cfg(up4_verif)",
                      "enable": "RUSTFLAGS='--cfg up4_verif' (env.sh), on a mirror of the working tree made by sync.py",
                      "source_commits": HOOK_COMMITS},
            "checks": checks,
            "not_applicable": NOT_APPLICABLE,
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
