"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
sg = "simplegrid/"

prop("C01", "Grid files are written in the documented binary layout",
 "For every grid and every size ni x nj, a written grid file is exactly sixteen consecutive records in the order XC, YC, DXF, DYF, RAC, XG, YG, DXV, DYU, RAZ, DXC, DYC, RAW, RAS, DXG, DYG, each of (ni+1)*(nj+1) big-endian 8-byte floats in column-major (first index fastest) order. Each field occupies the leading block of its own staggered size (ni or ni+1 rows by nj or nj+1 columns) and every other position of its record is zero. A field that the dictionary leaves empty (None) is written as NaN over its whole leading block. When the write returns, the file has been closed.",
 ["inputs"], "every grid dictionary and every ni, nj >= 1",
 "Tests never write a grid file; they read a few committed ones of sizes 1x1 to 30x20.",
 [sg+"gridio.py", sg+"mitgridfilefields.py"],
 [("one (ni+1)x(nj+1) zero array per field, flattened in Fortran order, cast to >f8, appended", sg+"gridio.py:write_mitgridfile"), ("table of names and paddings", sg+"mitgridfilefields.py")],
 [("names/ni_delta_sizes/nj_delta_sizes", "field order and staggering", sg+"mitgridfilefields.py")],
 ["bytes of the file written by gridio.write_mitgridfile"])

prop("C02", "Reading a grid file is the inverse of writing it",
 "For every grid file and every ni x nj, reading returns all sixteen fields by name, each with its own staggered size, and every entry comes from exactly the file position, byte order and precision at which the writer stores that entry of that field. So a grid that is written and read back is unchanged.",
 ["inputs"], "every file content, every ni, nj >= 1, every field and entry",
 "Tests read square and nearly square tiny grids and compare them with other results of the same reader; they cannot cover every size, and a transposition or slot mistake shared by both sides would cancel.",
 [sg+"gridio.py", sg+"mitgridfilefields.py"],
 [("slice by field index, Fortran reshape, trim to staggered size", sg+"gridio.py:read_mitgridfile")], (), ["return value of gridio.read_mitgridfile"])

prop("C03", "Strict mode rejects data in the padding, everywhere it is offered",
 "With strict on, reading a grid file raises RuntimeError whenever any entry that trimming would discard (last row and/or last column of a field that is not staggered in that direction) is nonzero, for each of the sixteen fields; with strict off, padding never causes an error, and with strict on clean padding never does. Every operation and command that accepts strict applies it to every grid file it reads.",
 ["inputs", "configurations"], "every file content and size; every operation and command-line tool with a strict option",
 "No test has a file with dirty padding, so the check could be missing, partial or not forwarded and every test would still pass.",
 [sg+"gridio.py", sg+"addfringe.py", sg+"stitch.py", sg+"regrid.py", sg+"getobcs.py"],
 [("nonzero test on the trimmed row and column before trimming", sg+"gridio.py:read_mitgridfile"), ("strict parameter forwarded at each read", sg+"addfringe.py, stitch.py, regrid.py, getobcs.py")], (), ["RuntimeError from gridio.read_mitgridfile, addfringe, stitch, regrid, getobcs"])

prop("C04", "Every produced grid is complete and consistently sized",
 "Creating, refining, fringe-augmenting or joining grids always returns all sixteen fields, each with the staggered size that the file format defines for it (ni or ni+1 by nj or nj+1), for every size and subdivision level. The cell counts returned with a new grid equal its tracer-cell dimensions: the subdivision levels for a created grid, region cells times subdivision level for a refined one, and the sum along the joined direction for a joined one.",
 ["inputs"], "every subdivision level >= 1, region size and tile size, all four join directions",
 "Tests try 1x1, 2x2, 10x10 and 30x20 only, ignore the returned counts, and compare values that would agree for square grids even with the two dimensions confused.",
 [sg+"computegrid.py", sg+"mkgrid.py", sg+"regrid.py", sg+"addfringe.py", sg+"stitch.py", sg+"mitgridfilefields.py"],
 [("dimension of each output array", sg+"computegrid.py:tomitgrid"), ("concatenation rules", sg+"stitch.py:stitch")], (), ["returned dictionaries and counts"])

prop("C05", "A created grid spans exactly the requested box, correctly oriented",
 "For every pair of corners, the grid created between (lon1,lat1) and (lon2,lat2) has its four corner points exactly at those longitudes and latitudes: (lon1,lat1) at minimum i and maximum j, (lon2,lat2) at maximum i and minimum j, (lon1,lat2) at minimum i and j, (lon2,lat1) at maximum i and j. lon_subscale divides the first (i) direction and lat_subscale the second (j) direction.",
 ["inputs"], "every pair of corner coordinates and every pair of subdivision levels",
 "The two creation tests fail here already and use a square box with equal subdivision.",
 [sg+"mkgrid.py", sg+"computegrid.py"],
 [("corner assignment in the compute grid", sg+"mkgrid.py:mkgrid")], (), ["XG, YG of the created grid"])

prop("C06", "New points are equal great-circle subdivisions of their neighbours",
 "In every created or refined grid, the points between two consecutive defining corner points in the x direction are the equally spaced points of the great-circle arc joining them, and then, for every x position, the points between consecutive defining rows in the y direction are the equally spaced points of the great-circle arc joining the points already found. Each point's longitude and latitude come from the same arc position, no point of the region is left unset, and the defining corner points keep their exact values.",
 ["inputs"], "every set of defining points, every number of defining cells and both subdivision levels",
 "Tests use single-cell regions, so errors that appear only with several cells in either direction, or with different x and y levels, are invisible.",
 [sg+"computegrid.py"],
 [("x-edge pass then y pass over all columns, 2*subscale-1 intermediate points", sg+"computegrid.py:fill")], (), ["XG, YG, XC, YC of mkgrid and regrid results"])

prop("C07", "Longitudes of new points follow the convention of the input region",
 "If none of the defining corner longitudes of a region is negative, then no longitude in the resulting grid is negative: computed longitudes are shifted by 360 degrees into the 0..360 range. If any defining corner longitude is negative, computed longitudes are kept in the -180..180 range unshifted, in both subdivision passes.",
 ["inputs"], "every region, both subdivision directions",
 "Every test region is either entirely in negative longitudes or in small positive ones, where no shift is ever needed.",
 [sg+"computegrid.py"],
 [("0..360 test on the input and shift after each great-circle subdivision", sg+"computegrid.py:fill")], (), ["XG, XC of mkgrid and regrid results"])

prop("C08", "Refining a grid preserves its existing corner points exactly",
 "In a refined grid, every corner point of the original grid inside the selected region reappears with exactly its original longitude and latitude, at every lon_subscale-th row and lat_subscale-th column, in the original order. The selected region is exactly the index rectangle spanned by the two located corners, inclusive.",
 ["inputs"], "every source grid, region, and pair of subdivision levels",
 "The refinement tests select one cell (two rows and columns), so misplacement of interior points or an off-by-one in the region cannot show.",
 [sg+"regrid.py", sg+"computegrid.py"],
 [("mapping of source indices to compute-grid indices", sg+"regrid.py:regrid")], (), ["XG, YG of the refined grid"])

prop("C09", "A refined region is rotated as a whole so that NW is at min i, max j",
 "The two user-given corners are each located as the nearest corner point of the source grid; if they share a row or a column, ValueError is raised. Otherwise longitudes and latitudes are rotated together, by the same quarter turns, with both corners located again after every turn, until the first corner has the smaller i and larger j index, so the result always has 'northwest' at minimum i and maximum j.",
 ["inputs"], "every source grid orientation and every pair of diagonal corners",
 "Only two of the four possible relative orientations occur in the tests, on one tile.",
 [sg+"regrid.py", sg+"util.py"],
 [("rotation loop", sg+"regrid.py:regrid")], (), ["XG/YG orientation of the refined grid; ValueError"])

prop("C10", "Refinement accepts its three grid sources on equal terms and validates them",
 "Refinement takes its corner points from a grid file, from a pair of corner files, or from in-memory matrices, in that order of precedence: corner files both named .csv are read as comma-separated text, any other pair as big-endian doubles in column-major order of size (ni+1) x (nj+1), longitudes from the first file and latitudes from the second. ValueError is raised when no complete source is given or when a file source comes without ni and nj.",
 ["inputs", "configurations"], "every combination of given and missing sources, every size",
 "Tests use each source once, on one tile, and never an incomplete combination; the csv test fails here already.",
 [sg+"regrid.py"],
 [("source selection", sg+"regrid.py:regrid")], (), ["regrid result or ValueError"])

prop("C11", "Cell centres and corners sit at their staggered positions",
 "In every produced grid, corner points (XG,YG) are the even-even points and cell centres (XC,YC) the odd-odd points of the doubled-resolution grid of the region, longitude and latitude taken at the same point, first index along i and second along j.",
 ["inputs"], "every size and every cell",
 "Tests compare a few stored results to a tolerance, on tiny grids.",
 [sg+"computegrid.py"], [("strided partition of the compute grid", sg+"computegrid.py:tomitgrid")], (), ["XC, YC, XG, YG"])

prop("C12", "Every length field measures its own staggered segment",
 "In every produced grid, each of the eight length fields (DXG, DYG, DXC, DYC, DXV, DYU, DXF, DYF) at index (i,j) is the sum of the two geodesic half-segments, in metres on the sphere, that meet at that field's own staggered location and run along its own direction (x for DX*, y for DY*), computed from (longitude, latitude) of adjacent doubled-resolution points.",
 ["inputs"], "every size, every field and every cell",
 "Tests compare stored results on grids so small or regular that neighbouring segments have almost the same length, and never at generic interior indices of non-square grids.",
 [sg+"computegrid.py"], [("edge lengths", sg+"computegrid.py:edges"), ("pairwise sums per field", sg+"computegrid.py:tomitgrid")], (), ["the eight DX*/DY* fields"])

prop("C13", "Every area field covers its own staggered cell",
 "In every produced grid, each of the four area fields (RAC, RAZ, RAW, RAS) at index (i,j) is the sum of the areas of exactly the four doubled-resolution sub-cells around that field's own staggered location, each sub-cell being the quadrilateral of its four adjacent points.",
 ["inputs"], "every size, every field and every cell",
 "On the tiny nearly uniform test grids, summing a wrong neighbouring sub-cell changes little, and most staggered areas are zero there.",
 [sg+"computegrid.py"], [("sub-area array", sg+"computegrid.py:areas"), ("sums of four per field", sg+"computegrid.py:tomitgrid")], (), ["RAC, RAZ, RAW, RAS"])

prop("C14", "Boundary quantities that would need data outside the grid are exactly zero",
 "In every created or refined grid, entries of staggered fields whose segment or cell extends beyond the region (first and last rows of DXC, DXV, RAW, RAZ; first and last columns of DYC, DYU, RAS, RAZ) are exactly zero, never a partial sum; every other entry is computed.",
 ["inputs"], "every size and every boundary entry",
 "Tests look at a few sizes; a partial sum at one boundary of one field for larger sizes would go unnoticed.",
 [sg+"computegrid.py"], [("all-contributors-nonzero guard around each sum", sg+"computegrid.py:tomitgrid")], (), ["boundary rows and columns of the eight fringe fields"])

prop("C15", "Sub-cell areas use the right formula on the right sphere",
 "A grid's sub-cell areas come from flat facets (half the norm of the summed cross products of the two triangles of the quadrilateral) when the mean nonzero x-edge and the mean nonzero y-edge are both below 10 km, and otherwise from spherical excess of the same two triangles; either way from unit-sphere Cartesian corners derived from degrees of longitude and latitude, scaled by the squared radius of the sphere used for distances. A result therefore is in square metres for every grid.",
 ["inputs"], "every set of corner points and mean edge length on either side of the threshold",
 "Tests touch each branch with one or two geometries and cannot separate 'both' from 'either' or a wrong corner in a nearly square cell.",
 [sg+"computegrid.py", sg+"util.py", sg+"config.py"],
 [("branch on mean edges", sg+"computegrid.py:areas"), ("area formulas", sg+"util.py:squad_uarea, pquad_uarea"), ("lon/lat to Cartesian", sg+"util.py:lonlat2cart")], (), ["RAC and the other area fields"])

prop("C16", "Nearest-point search returns the true nearest point of the matrix",
 "For every query point and every pair of longitude/latitude matrices, the nearest-point search examines every matrix entry, measures the geodesic distance from the query to the point whose longitude and latitude share the same index, and returns the row, column and distance of one single entry, the one with the smallest distance.",
 ["inputs"], "every query point and matrix shape",
 "Three query points on one matrix.",
 [sg+"util.py"], [("exhaustive scan with running minimum", sg+"util.py:nearest")], (), ["util.nearest result"])

prop("C17", "Mismatched coordinate matrices are refused before use",
 "Nearest-point search and longitude/latitude-to-Cartesian conversion raise ValueError, before computing anything, whenever the two coordinate matrices are not both two-dimensional and of the same shape, and never for two equal two-dimensional shapes.",
 ["inputs"], "every pair of array shapes",
 "No test passes mismatched matrices.",
 [sg+"util.py"], [("shape guard", sg+"util.py:nearest, lonlat2cart")], (), ["ValueError"])

prop("C18", "Edge matching accepts exactly the complementary coincident edges",
 "Edge matching reports W, E, S or N for a tile exactly when both corners of that edge (rows i=0, i=last; columns j=0, j=last) coincide with corners of the other tile to within 1e-6 of the mean diagonal of the two tiles. It returns only the pairs N-S, S-N, E-W, W-E, and raises ValueError when the tiles do not touch, when either has no fully matching edge, when the pair is not complementary, or when the two edges have different numbers of points.",
 ["inputs"], "every pair of tiles, all sixteen edge combinations",
 "Tests only present correctly matching tiles of sizes 1 and 2 in the four valid combinations.",
 [sg+"matchedges.py", sg+"config.py", sg+"util.py"], [("corner distance matrices and edge cascade", sg+"matchedges.py:matchedges")], (), ["matchedges result or ValueError"])

prop("C19", "Edge matching interpolates the boundary ring from the adjoining cells",
 "For each of the four edge pairs, edge matching returns the slices of the two coincident edges, and ring points that are the midline of the cells of the second tile next to the shared edge: built from the first tile's shared edge and the second tile's adjacent line of points, in the right order, together with the position (first or last row or column of the first tile's extended doubled grid, between its corners) where that ring belongs.",
 ["inputs"], "every pair of matching tiles of any size, all four edge pairs",
 "The returned slices and ring are never asserted; nothing in the tests depends on them.",
 [sg+"matchedges.py"], [("per-edge assembly of a 3-line compute grid", sg+"matchedges.py:matchedges")], (), ["matchedges result"])

prop("C20", "Adding a fringe never changes data the tile already has",
 "In the grid returned by fringe augmentation, every entry of every one of the sixteen fields that is nonzero in the input tile has exactly the input value; only entries that were zero may differ. The edge indicators returned are those of the first and second tile, in that order.",
 ["inputs"], "every pair of matching tiles",
 "Tests compare values that are recomputed identically, so replacing instead of keeping data would not show.",
 [sg+"addfringe.py"], [("merge loop over all fields", sg+"addfringe.py:addfringe")], (), ["addfringe result"])

prop("C21", "Adding a fringe fills the boundary quantities from the adjacent tile",
 "For each of the four matching edges, the entries of the first tile's staggered fields on the shared edge (DXC, DXV, RAW for E/W; DYC, DYU, RAS for N/S; and RAZ away from the tile corners) are computed from the first tile's points and the adjacent cells of the second tile, so they are no longer the undefined zeros of the input.",
 ["inputs"], "every pair of matching tiles, all four edges",
 "The stored reference results of the tests contain zeros at these entries, so the tests assert the opposite.",
 [sg+"addfringe.py", sg+"computegrid.py", sg+"matchedges.py"], [("second tile's ring written to the compute grid, then recomputation", sg+"addfringe.py:addfringe"), ("edge lengths and areas over the index range given", sg+"computegrid.py:edges, tomitgrid")], (), ["addfringe result on the shared edge"])

prop("C22", "Joining two tiles keeps every cell once, in order, in every field",
 "For each of the four edge pairs, the joined grid is, in each of the sixteen fields, the two tiles side by side along the joined direction with the western/southern tile first; where a field has points on the shared edge, that line appears exactly once and is the first tile's (fringe-augmented) one. All other rows and columns of both tiles appear unchanged and in order, and any value of the second tile comes from its file.",
 ["inputs"], "every pair of matching tiles of any size, all four edge pairs",
 "Tests use equal square tiles of 1x1 and 2x2 cells; reading the wrong size or the wrong tile's shared line is invisible there.",
 [sg+"stitch.py", sg+"addfringe.py"], [("per-edge concatenation table", sg+"stitch.py:stitch")], (), ["stitch result"])

prop("C23", "Each command-line tool does exactly what its Python function does",
 "sgmkgrid, sgregrid, sgaddfringe and sgstitch pass every option to the like-named argument of the Python operation (strict and verbose included), numeric options parsed as the number type the operation needs, and write the returned grid to the output file with the returned (for fringe augmentation: the first tile's) cell counts. sggetobcs likewise passes every option on, accepts whole boundary index vectors, and requires no option documented as having a default. Nothing is written if the operation fails.",
 ["inputs", "configurations"], "every combination of command-line options",
 "No test runs a command.",
 [sg+"mkgrid.py", sg+"regrid.py", sg+"addfringe.py", sg+"stitch.py", sg+"getobcs.py", "setup.py"], [("create_parser and main of each tool", sg+"{mkgrid,regrid,addfringe,stitch,getobcs}.py"), ("console_scripts", "setup.py")], (), ["command behaviour and output file"])

prop("C24", "Library calls never modify their caller's data or the process's global state",
 "No grid operation, converter, search or file function changes an array or dictionary the caller passed in, or alters interpreter-wide settings such as warning filters, floating-point error modes, the working directory or package configuration. Calling an operation twice with the same arguments therefore gives the same result.",
 ["inputs", "histories"], "every public operation, every input, every sequence of calls",
 "Each test makes one call on fresh files and never looks at its inputs or the global state afterwards.",
 [sg+"computegrid.py", sg+"regrid.py", sg+"addfringe.py", sg+"stitch.py", sg+"matchedges.py", sg+"util.py", sg+"gridio.py", sg+"getobcs.py", sg+"mds2mitgrid.py"], [("explicit copies", sg+"computegrid.py:fill"), ("reads only elsewhere", "all modules")], (), ["caller's arrays and dictionaries; warnings.filters"])

prop("C25", "Verbose output never changes results, and quiet means quiet",
 "For every operation, the result (values, shapes, counts, files and errors) is the same with verbose on and off. With verbose off nothing is written to standard output.",
 ["inputs", "configurations"], "every operation and input",
 "Tests never turn verbose on and never capture output.",
 [sg+"computegrid.py", sg+"mkgrid.py", sg+"regrid.py", sg+"addfringe.py", sg+"stitch.py", sg+"matchedges.py", sg+"gridio.py", sg+"mds2mitgrid.py", sg+"getobcs.py"], [("if verbose: guards", "all modules")], (), ["stdout and results"])

prop("C26", "Only the documented writers touch files, and they close what they write",
 "Grid operations in Python write no files at all; only the grid writer, the open-boundary generator and the MITgcm meta/data writer create or change files, and only at the path or directory the caller named; input files are never opened for writing. Every file opened for writing has been closed when the call returns.",
 ["inputs", "configurations"], "every public operation and every option (including memory-mapped reading)",
 "Tests do not observe file-system effects or open handles.",
 [sg+"gridio.py", sg+"getobcs.py", sg+"mds.py"], [("open/tofile/close sequences", sg+"gridio.py:write_mitgridfile, getobcs.py:getobcs, mds.py:wrmds"), ("file reads", sg+"gridio.py, regrid.py, mds.py")], (), ["file system, open handles"])

prop("C27", "Model output grids are converted with correct shape, placement and padding",
 "Converting an MITgcm run directory yields every standard field found there, transposed to (i,j) order, placed at the leading corner of a zero array larger by that field's own staggering in each direction, together with the tracer counts; a field whose files are absent is left empty (None). Any other failure to read a present field is reported, not silently turned into a missing field.",
 ["inputs", "fault_sequences"], "every run directory, every subset of present fields, damaged files",
 "There is no test of the conversion at all.",
 [sg+"mds2mitgrid.py", sg+"mitgridfilefields.py"], [("per-field read, transpose, pad", sg+"mds2mitgrid.py:mds2mitgrid")], (), ["mds2mitgrid result or exception"])

prop("C28", "Open-boundary index vectors follow the MITgcm convention on all four edges",
 "For north, south, east and west alike: an omitted vector selects the edge tracer cells; an identically zero vector (of any length) disables that boundary; otherwise entries are one-based positions along the other direction, and negative entries count back from the far end (-1 is the last cell). A vector with one entry per boundary cell is accepted whatever that number is.",
 ["inputs"], "every index vector on every edge",
 "The open-boundary generator has no test and cannot even be imported in the test environment.",
 [sg+"getobcs.py"], [("defaults and conversion to zero-based indices", sg+"getobcs.py:getobcs")], (), ["cells selected for each boundary file"])

prop("C29", "Open-boundary files hold every depth and time of every requested edge",
 "For each enabled edge and each response present in the results directory, one file OB<edge><response in lower case> is written, containing a big-endian double matrix in column-major order of (points on the edge, depths, times); its slot for depth d and time t is filled from that response's results at depth d and the t-th time in increasing order, interpolated to the regional grid. Disabled edges produce no file, and every distinct time appears once.",
 ["inputs"], "every results directory, number of depths and times, and set of enabled edges",
 "There is no test of the open-boundary generator.",
 [sg+"getobcs.py"], [("loops over responses, times, depths and edges", sg+"getobcs.py:getobcs")], (), ["OB* files"])

prop("C30", "Each response is interpolated between matching staggered points",
 "Tracer responses (T, S, Eta, W) are interpolated between cell centres, U and UICE between the midpoints of the western cell faces, and V and VICE between the midpoints of the southern cell faces, with the same kind of points in parent and regional grid, and boundary values are taken at the index set of the response's own kind, on the interior side of the western (U) and southern (V) boundary cells. Interpolation weights of the three kinds are cached under different names in the results directory.",
 ["inputs"], "every parent and regional grid, every response and edge",
 "There is no test of the open-boundary generator.",
 [sg+"getobcs.py"], [("three regridders and per-edge partitions", sg+"getobcs.py:getobcs")], (), ["values in the OB* files"])

prop("C31", "Missing open-boundary inputs are refused up front",
 "Open-boundary generation raises ValueError, before creating any directory or file, when the results directory is missing, when no regional grid is given, or when a parent or regional grid file is named without its cell counts; a parent grid that is not given at all is taken from the results directory.",
 ["inputs", "configurations"], "every combination of given and missing arguments",
 "There is no test of the open-boundary generator.",
 [sg+"getobcs.py"], [("argument checks", sg+"getobcs.py:getobcs")], (), ["ValueError"])

prop("C32", "MITgcm data files written by the package can be read back by it",
 "The meta/data writer and reader agree on everything the format encodes: ten-digit iteration numbers in file names, byte-order and precision names and their types, the metadata keys and bracket styles, the order of dimensions, and the record count; unknown byte-order names are rejected by the reader with ValueError and unknown precisions by the writer with ValueError.",
 ["inputs"], "every array, iteration number, byte order and precision",
 "The reader and writer have no tests.",
 [sg+"mds.py"], [("format tables, file names and metadata text", sg+"mds.py:rdmds, wrmds, scanforfiles, readmeta, parsemeta")], (), ["files of wrmds, results of rdmds"])

prop("C33", "Malformed MITgcm metadata is reported as a parse error",
 "Parsing a metadata file either returns a value for every key or raises the package's parse error (a ValueError): a line that is not an assignment, a value without an opening bracket, a missing closing bracket, a missing semicolon and an unparsable item are each rejected, never skipped.",
 ["inputs"], "every metadata text",
 "There is no test of metadata parsing.",
 [sg+"mds.py"], [("parsemeta, parse1", sg+"mds.py")], (), ["ParseError"])

prop("C34", "Tiled model output is read as the global array, with the selections asked for",
 "Reading MITgcm output returns the global array: each file of equal-sized tiles fills its own index range and missing tiles hold the fill value; iterations come in the order asked for (all of them in ascending order when asked with NaN, the highest one with Inf), and records, levels and a horizontal region select exactly the named entries in the named order, negative record and level numbers and region bounds counting from the end. A memory-mapped read gives the same array. Without any file IOError is raised, and metadata files that disagree with each other raise ValueError.",
 ["inputs", "configurations"], "every tiling, field size and selection",
 "The reader has no tests.",
 [sg+"mds.py"], [("tile placement and selection", sg+"mds.py:rdmds, readmeta, scanforfiles")], (), ["result of rdmds", "IOError", "ValueError"])

prop("C35", "Mapped tiles are read into the right places of the global array",
 "When the files of a field are tiles mapped to the global array by strides (cube-sphere or multi-face output: map2glob in the metadata), point (j, i) of a tile whose metadata give the first position (y0, x0) is found at flat position (y0 + j*map2glob[1])*nx + x0 + i + j*map2glob[0] of the horizontal array, for every tile, record, level and iteration selected, with or without a memory map and in whatever order the files are found; points of no tile hold the fill value. Selecting a horizontal region of mapped tiles is refused with an error rather than read from the wrong places, and metadata files that disagree raise ValueError.",
 ["inputs", "configurations"], "every tiling, face layout, field size and selection",
 "The reader has no tests.",
 [sg+"mds.py"], [("placement of mapped tiles", sg+"mds.py:rdmds, readmeta")], (), ["result of rdmds", "NotImplementedError", "ValueError"])

# --- stated, not claimed -----------------------------------------------------
prop("N01", "Computed areas and lengths are numerically accurate",
 "For every grid, lengths and areas agree with the exact spherical geometry to within rounding appropriate to the cell size, no entry is NaN for non-degenerate cells, and the sub-cell areas add up to the area of the region.",
 ["inputs"], "every grid geometry", "Tests compare with stored results of the same code.",
 [sg+"util.py", sg+"computegrid.py"], [("area formulas", sg+"util.py")])
prop("N02", "Locating and rotating the region always terminates",
 "For every source grid and pair of diagonal corners, refinement finishes: at most three quarter turns are needed.",
 ["inputs"], "every source grid, including grids with coincident points (poles, periodic seams)", "A few regions on one tile.",
 [sg+"regrid.py"], [("rotation loop", sg+"regrid.py:regrid")])
prop("N03", "Joining two refined halves equals refining the whole",
 "Splitting a region along a grid line, refining both halves and joining them gives the same grid as refining the whole region, including the cross-border quantities.",
 ["inputs"], "every region and split line", "No test compares the two ways.",
 [sg+"stitch.py", sg+"regrid.py"], [("stitch, addfringe, regrid", sg+"stitch.py")])
prop("N04", "Interpolated boundary values are accurate",
 "Open-boundary values approximate the parent fields at the regional points to the accuracy of bilinear interpolation, with no contamination from land or padding values.",
 ["inputs"], "every parent field", "No test.", [sg+"getobcs.py"], [("xESMF regridders", sg+"getobcs.py:getobcs")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
