import json
S="libsrc/geomodelgrids/serial/"; U="libsrc/geomodelgrids/utils/"; A="libsrc/geomodelgrids/apps/"; P="geomodelgrids/create/"
def p(id,title,statement,over,text,why,files,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
L=[
p("C01","Queried values are the multilinear interpolant of the stored grid",
 "For a point inside a block, every queried value equals (up to rounding) the trilinear interpolation of that value at the eight grid vertices of the grid cell enclosing the point; for a surface, the elevation is the bilinear interpolation at the four enclosing vertices. Each value uses only its own component of the vertices, and a point on a vertex returns the vertex's stored value.",
 ["inputs","configurations"],"every dataset shape with at least two points per axis, every number of values, every stored content, every point inside",
 "The tests query a handful of points of files whose fields are linear, so a wrong weight, axis swap or offset on an axis the sample happens not to vary goes unseen.",
 [S+"Hyperslab.cc",S+"Block.cc",S+"Surface.cc"],[("cell selection, weights and vertex offsets",S+"Hyperslab.cc:_interpolate2D/_interpolate3D"),("index vector handed to interpolation",S+"Block.cc:query, Surface.cc:query")],["Block::query","Surface::query","Hyperslab::interpolate","Query::query"]),
p("C02","Query answers do not depend on cached window, window size or history",
 "The value returned for a point depends only on the stored dataset and the point: never on which points were queried before, nor on the configured size of the in-memory window (at least two points per axis). All reads of the file stay inside the dataset and all memory accesses stay inside the window.",
 ["inputs","histories","configurations"],"every sequence of queries, every window size >= 2 per axis (clipped to the dataset), every dataset shape, every point in the grid's index box",
 "Window reuse is a stateful protocol; the tests issue short monotone sequences on datasets that mostly fit one window.",
 [S+"Hyperslab.cc",S+"Block.cc",S+"Surface.cc"],[("window validity test and re-centering",S+"Hyperslab.cc:getSlab"),("window allocation and clipping",S+"Hyperslab.cc:Hyperslab")],["Hyperslab::interpolate","HDF5::readDatasetHyperslab arguments"]),
p("C03","NODATA is never blended into interpolated values",
 "If any of the eight vertices used for a block value holds the NODATA value (-1e20, recognised with relative tolerance 1e-3), that value of the query is exactly NODATA; otherwise it is the interpolated value. NODATA in one value never affects the other values at the same point.",
 ["inputs"],"every placement of NODATA over vertices and values, every point in the cell, every window position",
 "Tests place NODATA at one or two fixed vertices for one field.",
 [S+"Hyperslab.cc"],[("per-value NODATA flag",S+"Hyperslab.cc:_interpolate3D")],["Hyperslab::interpolate","Block::query"]),
p("C04","Coordinate-to-index mapping inverts the grid coordinates",
 "With uniform spacing dx, the index of a distance x is x/dx; with variable spacing, the index of the distance of grid coordinate i from the first is i, and between two consecutive coordinates the index varies linearly, for ascending and for descending axes. A non-positive spacing or an empty or null coordinate list is rejected with an invalid-argument error.",
 ["inputs","configurations"],"every strictly monotone coordinate list of length >= 2 supplied in any order, both sort orders, every coordinate within the covered range",
 "The binary search is correct for all array lengths and positions or it is not; tests try two short lists.",
 [U+"Indexing.cc",U+"Indexing.hh"],[("uniform division",U+"Indexing.cc:IndexingUniform::getIndex"),("binary search and in-cell fraction",U+"Indexing.cc:IndexingVariable::getIndex"),("sort on construction",U+"Indexing.cc:IndexingVariable")],["IndexingUniform::getIndex","IndexingVariable::getIndex"]),
p("C05","World-to-model coordinates and containment",
 "A point is mapped to model coordinates by transforming it to the model CRS, subtracting the origin, rotating by the y azimuth, and stretching depth so that the top surface maps to 0 and -dim_z stays at -dim_z. A model contains the point exactly when x is in [0,dim_x], y in [0,dim_y] and the stretched z in [-dim_z,0] (a z up to the documented tolerance above 0 counts as 0).",
 ["inputs","configurations"],"every origin, azimuth, dims, top surface and point",
 "Tests use one or two azimuths and origins; sign, axis or boundary errors elsewhere stay invisible.",
 [S+"Model.cc"],[("CRS, rotation, depth stretch",S+"Model.cc:_toModelXYZ"),("closed box test",S+"Model.cc:contains")],["Model::contains","Model::query"]),
p("C06","The block that covers the point answers it",
 "Blocks are kept from top to bottom regardless of their order or names in the file, and a point contained in the model is answered by the uppermost block whose closed depth range covers its model z, using model x, model y and model z. The bottom of a block is its top minus (points-1)*spacing, or its last coordinate for variable spacing.",
 ["inputs","configurations"],"every number, order and depth range of blocks, uniform or variable spacing, every contained point including interfaces",
 "Tests have at most three blocks with fixed names in a convenient order.",
 [S+"Model.cc",S+"Block.cc"],[("search over blocks",S+"Model.cc:_findBlock"),("ordering",S+"Block.cc:compare, Model.cc:loadMetadata"),("depth range",S+"Block.cc:getZTop,getZBottom")],["Model::query","Model::getBlocks"]),
p("C07","First model in the list that contains the point answers the query",
 "A multi-model query returns the values of the first model, in the order given, that contains the point, and never values from a later one or a mixture of models. If no model contains it, every requested value is NODATA and the status is WARNING; otherwise the status is OK.",
 ["inputs","configurations","histories"],"every list of models (overlapping, nested, disjoint), every point, every history of earlier queries",
 "Tests use three models and a few points; priority bugs need overlap patterns they do not have.",
 [S+"Query.cc"],[("search with break",S+"Query.cc:query"),("prefill with NODATA",S+"Query.cc:query")],["Query::query","geomodelgrids_squery_query"]),
p("C08","Requested value names map to the right model values, in order",
 "Output slot i of a query holds the model value whose name equals requested name i ignoring ASCII case, whatever the order, repetition or subset requested and whatever order each model stores its values in. A requested name that a model lacks makes initialization fail with an error naming the value.",
 ["inputs","configurations"],"every list of requested names and every list of names per model",
 "Tests request values in one or two orders from models that share a layout.",
 [S+"Query.cc"],[("index map per model",S+"Query.cc:createModelValuesIndex"),("case folding",S+"Query.cc:toLower"),("scatter",S+"Query.cc:query")],["Query::initialize","Query::query"]),
p("C09","Models with inconsistent units are rejected",
 "Initialization succeeds only if, for every requested value, all models give the same units (ignoring ASCII case), and otherwise fails with an error naming the value and both units. Units of values that were not requested play no part.",
 ["inputs","configurations"],"every list of models, requested values, per-model orders and units",
 "Only one fixed inconsistent pair is tested.",
 [S+"Query.cc"],[("units recorded from the first model, compared for the others",S+"Query.cc:checkUnits")],["Query::initialize"]),
p("C10","Squashing maps elevations as documented",
 "With squashing on and minimum elevation m, a point with z > m is queried at s + z*(m-s)/m, s being the elevation of the reference surface of the model examined at (x,y), and a point with z <= m at z itself; with squashing off z is used unchanged. Setting the minimum elevation while squashing is off turns on squashing to the top surface and otherwise keeps the chosen surface.",
 ["inputs","configurations","histories"],"every z, m, surface elevation, squash mode, list of models and order of configuration calls",
 "Tests check some points for one minimum elevation; boundary z=m and per-model surfaces are not exercised.",
 [S+"Query.cc"],[("per-model squash",S+"Query.cc:query"),("mode switch",S+"Query.cc:setSquashMinElev,setSquashing")],["Query::query","geomodelgrids_squery_setSquashing"]),
p("C11","Elevation queries answer from the first containing model's surface",
 "The elevation of the top surface (or of topography/bathymetry, falling back to the top surface) at (x,y) is that of the first model, in order, that contains the point just below that elevation, bilinearly interpolated at the point's model x,y and converted to the input CRS; models without such a surface give 0. If no model qualifies, the result is NODATA.",
 ["inputs","configurations"],"every list of models with or without each surface, every azimuth/origin, every location",
 "Tests sample few locations, and the fallback and the inverse rotation only at one azimuth.",
 [S+"Model.cc",S+"Query.cc",S+"Surface.cc"],[("surface query and inverse transform",S+"Model.cc:queryTopElevation,queryTopoBathyElevation"),("search",S+"Query.cc:queryTopElevation,queryTopoBathyElevation")],["Query::queryTopElevation","Query::queryTopoBathyElevation"]),
p("C12","The C interface mirrors the C++ interface and never lets an exception out",
 "Each C call with a valid handle performs exactly the corresponding C++ operation with the same arguments and results; a C++ exception is turned into an ERROR status carrying its message, and a query or elevation outside all models sets WARNING. The integer returned is the status of the query's error handler, which keeps the last reported status until it is reset. A null handle never crashes: it returns ERROR (NODATA for elevations, null for the error handler), and destroying a handle nulls it.",
 ["inputs","histories","fault_sequences"],"every call sequence, every argument including null handles (elements of the string arrays are valid strings), every failure of the underlying operation",
 "Tests call each function in one successful and one failing way.",
 [S+"cquery.cc",U+"cerrorhandler.cc"],[("forwarding, try/catch",S+"cquery.cc"),("status translation",U+"cerrorhandler.cc")],["geomodelgrids_squery_*","geomodelgrids_cerrorhandler_*"]),
p("C13","Error handler keeps the last reported status and message",
 "After setError or setWarning the handler reports that status and that message until the next set or reset; reset gives OK and an empty message. Changing the log file or toggling or writing the log never changes status or message, and text logged while logging is on ends up in the log file.",
 ["inputs","histories"],"every sequence of calls and every message",
 "Tests run a single fixed sequence.",
 [U+"ErrorHandler.cc",U+"cerrorhandler.cc"],[("status/message pair",U+"ErrorHandler.cc")],["ErrorHandler"," geomodelgrids_cerrorhandler_*"]),
p("C14","Model metadata is loaded faithfully and incompleteness is reported",
 "After loading, every reported property of a model, its description, its surfaces and its blocks equals the stored attribute of the corresponding name and owner. If any required attribute is missing, or a coordinate list's length differs from the dataset dimension, loading fails with an error that names every missing attribute (z_top of a block is required where the block has a z resolution).",
 ["inputs","configurations"],"every subset of missing attributes and every stored content, uniform or variable spacing per axis",
 "Tests remove all attributes at once or none; swapped or stale fields need distinct values per attribute.",
 [S+"Model.cc",S+"ModelInfo.cc",S+"Block.cc",S+"Surface.cc"],[("attribute tables",S+"ModelInfo.cc:load, Model.cc:loadMetadata"),("coordinates and dims",S+"Block.cc:loadMetadata, Surface.cc:loadMetadata")],["Model::loadMetadata","ModelInfo getters","Block getters"]),
p("C15","The storage layer reads exactly what is stored, or throws",
 "Reading an attribute or a hyperslab returns exactly the stored bytes of that object, and a hyperslab read whose rank differs or whose window leaves the dataset throws instead of returning data. Absent objects are reported absent or raise an error that names them, and no HDF5 handle opened by a call outlives it.",
 ["inputs","fault_sequences","configurations"],"every dataset rank and shape, every window, every attribute type supported, every missing object",
 "Tests read a few windows and check neither handle balance nor most rejection branches.",
 [S+"HDF5.cc"],[("bounds checks",S+"HDF5.cc:readDatasetHyperslab"),("attribute readers",S+"HDF5.cc:readAttribute"),("handle closing",S+"HDF5.cc")],["HDF5 methods","H5Fget_obj_count"]),
p("C16","Isosurface depths bracket the target value",
 "For each location and target value the reported number is NODATA outside the models, and otherwise the depth below the reference surface of a crossing found by linear interpolation between two queried elevations at most the vertical resolution apart whose values bracket the target; it is the shallowest bracket found by the documented search (the deepest with prefer-deep). When no bracket exists it is 0 if the target is below the value at the top of the searched interval, and NODATA otherwise.",
 ["inputs","configurations"],"every vertical profile, target, maximum depth, resolution, number of search points, search direction",
 "Tests run a single model with nearly linear profiles.",
 [A+"Isosurface.cc"],[("level refinement and bracket test",A+"Isosurface.cc:Isosurfacer::query"),("line searches",A+"Isosurface.cc:LineSearchDown/LineSearchUp::search"),("number of levels",A+"Isosurface.cc:Isosurfacer::initialize")],["geomodelgrids_isosurface output bands"]),
p("C17","Isosurface raster cells are at the right place",
 "The raster has round((max-min)/resolution) columns and rows; the cell in column c and row r (from the north) of band k holds the value of isosurface k for the centre of that cell, minX+(c+0.5)*res, maxY-(r+0.5)*res for a bounding box that is a multiple of the resolution. Geographic axis order is normalised so that x is always the easting or longitude. Errors end the program with an exit status other than 0.",
 ["inputs","configurations"],"every bounding box, resolution, number of isosurfaces and CRS",
 "Tests use one square raster of a linear model.",
 [A+"Isosurface.cc",U+"GeoTiff.cc"],[("pixel loop",A+"Isosurface.cc:run")],["output GeoTiff"]),
p("C18","Query programs answer every input point, once, in order",
 "geomodelgrids_query and geomodelgrids_queryelev write, after the header, exactly one row per point of the input file in input order, holding the point's coordinates followed by the requested values (or elevation) of that very point. Missing required arguments, an input file that cannot be opened and an output file that cannot be created are reported as errors, with an exit status other than 0.",
 ["inputs","configurations"],"every number and layout of input points (with or without trailing newline), every list of values",
 "Tests use one fixed points file.",
 [A+"Query.cc",A+"QueryElev.cc"],[("read/query/write loop",A+"Query.cc:run, QueryElev.cc:run")],["output text file"]),
p("C19","Borehole samples the profile from the surface down",
 "geomodelgrids_borehole writes 1+floor(max_depth/dz) rows (the quotient taken within roundoff) at elevations ground - i*dz, i = 0,1,..., each with its depth i*dz and the requested values at that elevation, starting at (just below) the top surface at the location. A location outside all models produces a message and a nonzero status; a missing argument, a spacing that is not positive and a negative maximum depth are errors (exit status other than 0).",
 ["inputs","configurations"],"every location, max depth, spacing and list of values",
 "Tests run one location with default spacing.",
 [A+"Borehole.cc"],[("loop over points",A+"Borehole.cc:run")],["output text file","exit status"]),
p("C20","Model verification accepts exactly consistent models",
 "geomodelgrids_info --verify reports failure for a model if and only if its metadata is incomplete, the x and y units of its CRS differ, a surface or block does not span the model horizontally (uniform or variable spacing), the top surface and topography have different uniform resolutions, a block's uniform resolution is not a multiple of the top surface's, it has no blocks, or the blocks do not join top to bottom over the model's depth; every check that fails is reported, for every model given. Errors end the program with an exit status other than 0.",
 ["inputs","configurations"],"every model, uniform or variable spacing",
 "Tests verify two or three known good/bad files.",
 [A+"Info.cc"],[("_verify* functions",A+"Info.cc")],["stdout of geomodelgrids_info --verify"]),
p("C21","Batch generators tile the grid",
 "The batches generated for a block (or surface) of any size are pairwise disjoint boxes that together cover every grid point exactly once, and each stays inside the grid.",
 ["inputs","configurations"],"every grid size per axis, number of values and maximum batch size",
 "Tests try four or five sizes; the partition branches have more combinations than that.",
 [P+"utils/batch.py"],[("BatchGenerator2D/3D",P+"utils/batch.py")],["sequence of batches"]),
p("C22","Model builder grid points are the inverse of the reader's mapping",
 "The points generated for block vertex (i,j,k) or surface vertex (i,j) are the CRS coordinates whose model coordinates, under the reader's origin, azimuth and depth stretch, are that vertex's coordinates; generating in batches gives exactly the corresponding sub-arrays of generating the whole. The computed number of points per axis is floor(extent/resolution)+1 (rounded against floating-point error), or the number of supplied coordinates.",
 ["inputs","configurations"],"every domain, azimuth, resolution or coordinate list, topography and batch",
 "Tests use one small domain per case and few batches.",
 [P+"core/model.py"],[("generate_points, get_dims, get_batches",P+"core/model.py")],["Block.generate_points","Surface.generate_points"]),
p("C23","Model files written in batches equal the intended arrays and metadata",
 "After saving any complete set of batches in any order, the stored dataset equals the array those batches were cut from, and every stored attribute equals the configured one; later batches never alter points outside their own box. Loading a surface slice returns exactly the stored values of that slice.",
 ["inputs","histories","configurations"],"every dataset shape, batch tiling and order, every metadata content",
 "Tests write one or two batches of one shape.",
 [P+"io/hdf5.py"],[("save_block/save_top_surface/load_*",P+"io/hdf5.py")],["HDF5 file contents"]),
p("C24","GeoTiff round trip",
 "Writing a raster and reading it back gives the same number of rows, columns and bands, the same bounding box, band labels and cell values, and the file carries the NODATA value and CRS, whatever files and objects were used before; a file that cannot be used is an error and leaves nothing open.",
 ["inputs","configurations"],"every raster size, number of bands, bounding box and content",
 "One square raster is tested.",
 [U+"GeoTiff.cc"],[("create/write/read/getBBox",U+"GeoTiff.cc")],["GeoTiff getters"]),
p("C25","Python bindings return the library's results in array shape",
 "The Python query of an array of N points returns an N x V array and a status array whose row i is the C++ result for point i, and the elevation queries an array of N elevations in point order, for any N and any accepted array layout. Wrong shapes raise an error rather than reading out of bounds.",
 ["inputs","configurations"],"every number of points, values and array layout (strided, Fortran, integer)",
 "Tests pass one contiguous array.",
 ["modulesrc/Query_wrap.cc","modulesrc/Model_wrap.cc"],[("array wrappers","modulesrc/Query_wrap.cc")],["geomodelgrids.serial.Query"]),
p("C26","CRS units and transforms refer to the right axis and direction",
 "The reported x, y and z units of a CRS are those of its first, second and third axis (metre spelled meter, kilometre spelled kilometer; 'unknown', and 'meter (assumed)' for z, where there is no such axis; a compound CRS takes z from its vertical part, a bound CRS its units from the CRS it is based on), for any text, and transform maps source to destination coordinates while inverse_transform maps back.",
 ["inputs","configurations"],"every CRS known to PROJ and every point in its domain",
 "Tests use CRSs whose axes share one unit.",
 [U+"CRSTransformer.cc"],[("getAxisUnit, getUnits",U+"CRSTransformer.cc"),("transform/inverse_transform",U+"CRSTransformer.cc")],["CRSTransformer"]),
p("C27","Data sources give every grid point of a block or surface its own value",
 "A data source's array for a block, or a batch of it, holds at (i,j,k,v) the value v (in the order of the configured value names) of grid point (i,j,k) of that block or batch: for a CSV file of the block's points that of the (last) row whose model coordinates are that point's, NODATA where there is no row (batches are refused); for an EMC NetCDF file the sample at that longitude, latitude and depth (NODATA where the file has none), with domain and block configured to span the file's grid in metres; for an EarthVision model the rule evaluated for the point's own fault block, zone, coordinates and depth below the surface (z_top_offset taken into account for the top slice of the block only), followed by its fault block and zone ids. EarthVision surfaces are the highest of the configured grids at each point, and lengths are converted from the configured units to metres.",
 ["inputs","configurations"],"every block, batch, file content, column order, unit and rule",
 "Only the test data source with analytic values is tested; the file based ones have no test.",
 [P+"data_srcs/csv/datasrc.py",P+"data_srcs/iris_emc/datasrc.py",P+"data_srcs/earthvision/datasrc.py",P+"utils/units.py"],[("get_values",P+"data_srcs/*/datasrc.py"),("get_top_surface, get_topography_bathymetry",P+"data_srcs/earthvision/datasrc.py")],["array returned by get_values"]),
p("C28","geomodelgrids_info describes what is stored",
 "For every model given, in that order, geomodelgrids_info prints the model's name and exactly the sections asked for (all of them with --all), each with the stored content: --description every text property, the lists in their stored order, the model's dimensions and the latitude and longitude of its four corners (origin, end of x, far corner, end of y); --coordsys the CRS, the units of its axes, origin and azimuth; --values each value's name with its own unit in storage order; --blocks the number of points and resolution of each surface (None when there is none) and, for every block from top to bottom, its name, resolution, top, number of points and extents, whether an axis has uniform or variable spacing. Incomplete metadata does not stop the description of the models.",
 ["inputs","configurations"],"every model content, list of models and combination of sections",
 "Tests compare the output of a few known files with uniform spacing.",
 [A+"Info.cc"],[("_printDescription, _printCoordSys, _printValues, _printBlocks, run",A+"Info.cc"),("join, computeBoundingBox",A+"Info.cc")],["stdout of geomodelgrids_info"]),
]
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for x in L:
            assert len(x["title"])<=80,x["title"]
            f.write(json.dumps(x)+"\n")
