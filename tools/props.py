import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
G="geotiepoints/"
p("C01","Tie-point grids are interpolated by the spline of the requested orders",
"For any data given on strictly increasing tie rows and columns, interpolating to fine positions inside the tie-point hull returns the tensor-product interpolating spline of the requested orders (first order down the rows, second order across the columns): tie values are reproduced where fine and tie positions coincide, data that is polynomial of degree up to the order in each direction is reproduced everywhere, and order one is plain bilinear interpolation. When the fine rows are the tie rows, interpolation only acts across the columns and gives the same values. Every data field is interpolated independently of the others, and the geographic variant does the same with the cartesian coordinates of its longitudes and latitudes.",
["inputs","configurations"],"all tie data, all strictly increasing (also uneven) tie row/column positions, all fine positions inside the hull, orders 1 to 3 in each direction, one or several fields, lon/lat or plain data",
"The tests interpolate a handful of fixed 2x3 to 10x10 grids (evenly placed, one order pair) and compare with stored numbers; swapped orders or axes, uneven grids, several fields or the one-dimensional path with other orders are not reached.",
[G+"interpolator.py",G+"geointerpolator.py"],
[("2-D spline through the tie points","Interpolator._interp"),("1-D shortcut when fine rows equal tie rows","Interpolator._interp1d"),("cartesian conversion around the interpolation","GeoInterpolator.__init__/interpolate")],
["Interpolator(...).interpolate()","GeoInterpolator(...).interpolate()"],
[("tie_data","values on the current tie points","Interpolator"),("row_indices/col_indices","current tie positions","Interpolator")])
p("C02","Filling borders extends the tie points linearly within each chunk of lines",
"Filling the borders makes the tie points of every chunk of lines reach the first and last line of that chunk (and the first and last column) by linear extrapolation from the two nearest tie points of the same chunk, so that affine data is reproduced on the whole fine grid; existing tie points and their values are kept, and nothing changes on a side that the tie points already reach. The result does not depend on the order in which the two directions are filled, nor on filling a direction again. With order one down the rows, the lines of a chunk depend on the tie points of that chunk only.",
["inputs","configurations","histories"],"all tie data, tie positions (two or more per chunk and direction, on, inside or beyond the border), fine positions, chunk sizes dividing the number of lines, and all sequences of fill operations followed by interpolations",
"The tests fill two fixed grids, once, with chunks that divide evenly; tie points already on the border, grids not in units of tie points, repeated or reordered fills are not reached.",
[G+"interpolator.py"],
[("column extrapolation","Interpolator._fill_col_borders"),("chunk-wise row extrapolation","Interpolator._fill_row_borders"),("linear extrapolation","_linear_extrapolate")],
["interpolate() after fill_borders()"],
[("chunk_size","lines per chunk, 0 for all","Interpolator"),("row_indices/col_indices","tie positions including filled borders","Interpolator")])
p("C03","Every MODIS scan is interpolated from its own tie points only",
"In all the MODIS interpolations (with or without zenith angles, and the legacy helpers for 1km to 500m/250m and 5km to 1km) the fine lines of a scan depend on the coarse lines of that scan only: changing the data of one scan never changes the fine lines of another one. Interpolating several scans at once gives, scan by scan, the same as interpolating each of them alone, in any order and however many times a scan is repeated.",
["inputs","histories"],"all numbers and contents of scans, all permutations, repetitions and replacements of scans (including missing data) in a swath",
"The tests interpolate one fixed swath per resolution and compare with stored or 1km data within tens of metres; leaks of one scan into the next are only visible with discontinuous scans.",
[G+"_modis_interpolator.pyx",G+"_simple_modis_interpolator.pyx",G+"__init__.py",G+"interpolator.py"],
[("one scan at a time with reused scratch buffers","MODISInterpolator._interpolate_lons_lats"),("one scan at a time","interpolate_geolocation_cartesian"),("chunk_size of a scan in the legacy helpers","modis1kmto500m/modis1kmto250m/modis5kmto1km")],
["returned longitudes and latitudes per scan"],
[("tmp_fine_a..d, a_track, a_scan, xyz buffers","scratch reused for each scan","MODISInterpolator.interpolate")])
p("C04","MODIS results do not depend on container, chunking or block execution order",
"Interpolating dask arrays or DataArrays (backed by numpy or dask, or mixed with each other) gives exactly what interpolating the equivalent numpy arrays gives, whatever the chunks of the input and whatever order or parallelism the blocks are computed in. Nothing is computed before it is asked for, the declared shape, chunks and dtype are those of the computed blocks, the output keeps the floating point type of the input, and DataArrays come back with the dimensions of the input. Lazy results that are computed together, of whatever functions, data, resolutions and chunks, never get mixed up.",
["schedules","configurations","inputs"],"all row and column chunkings of the inputs (also different for each input and not aligned on scans), all containers, all block execution orders and thread schedules, float32 and float64",
"The tests use two chunkings per resolution and compare within tolerances; misaligned chunks, mixed chunkings or containers, and block orders are not enumerated.",
[G+"_modis_utils.pyx",G+"modisinterpolator.py",G+"simple_modis_interpolator.py"],
[("rechunking to whole scans and full width","_rechunk_dask_arrays_if_needed"),("block-wise call and declared chunks","_call_map_blocks_interp"),("container recognition and rebuilding","scanline_mapblocks")],
["modis_*_to_*() results: type, dims, shape, chunks, dtype, values"])
p("C05","Parallel legacy interpolation equals the serial one and splits at scan edges",
"The legacy 1km to 500m and 250m helpers return the same longitudes and latitudes for any number of cores as with one core. Scene splits always fall on scan edges strictly inside the swath, in increasing order, so that no line is lost, repeated or moved; with at least as many scans as processors there are at least as many pieces as processors, and otherwise every scan is its own piece.",
["schedules","configurations","inputs"],"all numbers of scans, lines per scan and processors, all completion orders of the workers",
"The tests have no case with more than one core that compares with the serial result for swaths not dividing evenly, and check the splits of a few sizes.",
[G+"__init__.py"],[("splitting at scan edges","get_scene_splits"),("pool of workers, results gathered in order","_multi")],
["modis1kmto500m/modis1kmto250m(cores=n)","get_scene_splits()"])
p("C06","Simple MODIS interpolation is bilinear at the true sub-pixel positions",
"Interpolating 1km MODIS longitudes and latitudes to 500m or 250m without angles gives, for each scan of 10 lines, the cartesian tie points interpolated linearly in both directions at sub-pixel positions: fine column i is at coarse column i/f, fine line j at coarse line (j-(f-1)/2)/f (f = 2 or 4), with linear extrapolation beyond the first and last line and the last column. The output has f times the lines and columns of the input, for any number of columns from 2 and any number of scans.",
["inputs","configurations"],"all longitudes/latitudes, swath widths from 2, numbers of scans, both factors, both floating point types",
"The test compares one real granule with its 250m geolocation within tens of metres, which hides shifts of a fraction of a fine pixel, and does not look at the edges of the scans separately.",
[G+"_simple_modis_interpolator.pyx",G+"simple_modis_interpolator.py"],
[("sub-pixel coordinates","_compute_yx_coordinate_arrays"),("bilinear interpolation","_call_map_coordinates"),("edge extrapolation","_extrapolate_xyz_rightmost_columns, _interpolate_xyz_250/_500")],
["modis_1km_to_500m/250m(lon, lat)"])
p("C07","Zenith-angle MODIS interpolation follows the compact VIIRS scheme",
"For every pair of resolutions (1km or 5km to 1km, 500m, 250m) each fine pixel is the combination of the four tie points of its tie-point zone given by the compact VIIRS scheme (alignment and expansion corrections from the zenith angles of that zone's upper tie points), at the sub-pixel position of the fine pixel and extrapolating from the nearest zone at the edges. 1km tie points are at fine columns f*c and between fine lines, 5km tie points 2km into the scan and every 5km, with 270 or 271 columns; 5km tie points are reproduced at 1km, and when the angles vanish the scheme is bilinear.",
["inputs","configurations"],"all longitudes, latitudes and zenith angles (equal, symmetric, zero and large ones), numbers of scans, 5 resolution pairs, 270/271 columns, both floating point types",
"The tests compare one granule with the operational geolocation within loose distances (hundreds of metres for 5km inputs), with smooth angles; wrong zones, corrections or sub-pixel shifts below these are not seen.",
[G+"_modis_interpolator.pyx",G+"modisinterpolator.py"],
[("sub-pixel coordinates","MODISInterpolator._get_coords"),("zone expansion","_expand_tiepoint_array_*"),("corrections","_compute_expansion_alignment"),("combination","_calculate_atrack_ascan, _compute_fine_xyz")],
["modis_{1km,5km}_to_{1km,500m,250m}(lon, lat, satz)"])
p("C08","VII tie points are interpolated bilinearly inside each scan",
"For every number of scans, tie points per scan (two or more) and sub-sampling factor, the pixel values are the bilinear interpolation of the tie points of the pixel's own scan, the tie points at multiples of the factor being reproduced; no pixel is made between two scans, giving (ties per scan - 1)*factor lines per scan and (tie columns - 1)*factor columns, for every array of the list and keeping its dimensions. Geolocation is interpolated in cartesian coordinates when a latitude is beyond the threshold or the longitudes span more than 180 degrees, and directly otherwise.",
["inputs","configurations"],"all tie data, numbers of scans, ties per scan, factors, thresholds, dimension names and orders, numpy and dask backed arrays",
"The tests use one 2-scan grid with factor 4/2 and compare with stored numbers.",
[G+"viiinterpolator.py"],[("tie and pixel grids","tie_points_interpolation"),("choice of the coordinates","tie_points_geo_interpolation")],
["tie_points_interpolation()","tie_points_geo_interpolation()"])
p("C09","Multilinear interpolation is exact for multilinear data in 1 to 4 dimensions",
"On a regular grid of two or more points per dimension (1 to 4 dimensions), each interpolated value is the multilinear combination of the corners of the cell holding the point, whatever the order in which points are given; grid points give back their values and points outside are extrapolated linearly from the nearest cell. Every line of values is interpolated independently, values enumerate the grid with the last dimension varying fastest, results only depend on the last values set, and the enumerated grid lists the points in that same order.",
["inputs","configurations","histories"],"all grid bounds, orders, values, points inside and outside, both floating point types, and all histories of setting values and interpolating",
"The tests check one function per dimension on random points inside the grid, with the same order in each dimension.",
[G+"multilinear.py",G+"multilinear_cython.pyx"],[("cell search and combination","multilinear_interpolation_{1,2,3,4}d"),("dispatch on type and dimension","multilinear_interpolation"),("grid enumeration","mlinspace")],
["MultilinearInterpolator(...)(points)","MultilinearInterpolator.grid"],[("values","current values","MultilinearInterpolator")])
p("C10","Interpolated geolocation is valid everywhere, also at poles and antimeridian",
"For finite longitudes and latitudes, within cells smaller than a hemisphere and beyond the outer tie points of cells of at most 15 degrees, all the interpolations made in cartesian coordinates return finite longitudes within [-180, 180] and latitudes within [-90, 90] that point in the direction of the interpolated cartesian position, with latitude taken from z below 0.8 radius and from the distance to the axis above. This holds across and exactly on the antimeridian, at and around both poles, at the equator, and whatever multiple of 360 degrees the input longitudes carry.",
["inputs"],"all tie point cells including ones touching or containing a pole, the antimeridian, the equator, the Greenwich meridian and the switch of the latitude formula, for all the geographic interpolators (VII: when it uses cartesian coordinates)",
"The tests have a few fixed cases on the antimeridian and near a pole for some of the interpolators.",
[G+"geointerpolator.py",G+"_modis_utils.pyx",G+"viiinterpolator.py"],[("conversions","lonlat2xyz, xyz2lonlat (numpy, cython and xarray versions)")],
["returned longitudes and latitudes"])
p("C11","Lazy grid interpolation equals eager interpolation for any chunking",
"For the grid and spline interpolators (single or multiple data fields, or geographic), asking for chunks at fine points (strictly increasing for splines) gives a dask array with exactly these chunks whose values equal the eager result for the same fine points, whichever these are and in whatever order blocks are computed. Nothing is computed before it is asked for, and interpolations that differ in data, tie points, fine points, method or options never get mixed up when they are computed together.",
["schedules","configurations","inputs"],"all fine points (not only 0..n-1), all chunkings, block orders, interpolator kinds and options, and sets of interpolations computed in one graph",
"The tests use fine points 0..n-1 with one chunking and compute each result alone.",
[G+"interpolator.py",G+"geointerpolator.py"],[("graph of chunk interpolations","AbstractSingleInterpolator.interpolate_dask"),("chunk slices","_enumerate_chunk_slices"),("graph keys","tokenize in interpolate_dask")],
["interpolate(fine_points, chunks=...)","interpolate_to_shape(shape, chunks=...)"])
p("C12","Interpolations are pure: inputs stay untouched and results repeatable",
"No interpolation modifies the arrays it is given, and calling it again with equal arguments gives equal results whatever other interpolations ran before or run at the same time. Results depend on the values of the inputs only, not on their memory layout (contiguity, order, byte strides) nor on results handed out earlier being modified by the caller.",
["histories","schedules","inputs"],"all histories of calls to the interpolation functions on shared, read-only, strided or transposed arrays, sequential or concurrent",
"The tests call each function once on fresh contiguous arrays.",
[G+"_modis_interpolator.pyx",G+"_simple_modis_interpolator.pyx",G+"_modis_utils.pyx",G+"interpolator.py",G+"viiinterpolator.py",G+"multilinear.py",G+"__init__.py",G+"basic_interpolator.py"],
[("contiguous copies and fresh output buffers","interpolate (cython)"),("no module level state","all modules")],
["digests of inputs and outputs at each call"])
p("C13","Malformed MODIS, VII, multilinear and border requests are refused, never guessed",
"Arrays that are not two dimensional, have different shapes, do not hold whole scans, have a width or resolutions that the scheme does not support or an undeclared width are refused with an exception by the MODIS interpolations for every container (at the latest when computed), never giving a result. So are VII tie points that are not a whole number of scans or arrays of inconsistent shape or dimensions, multilinear limits, orders (2 or more), values and points of sizes that do not belong together, border directions that do not exist (the whole request, leaving the interpolator as it was), geographic data that is neither lon/lat nor a geometry, and requests without resolutions.",
["inputs","configurations"],"all shapes, container kinds and resolution pairs, well formed or not",
"The tests cover two malformed shapes of one function.",
[G+"_modis_utils.pyx",G+"_modis_interpolator.pyx",G+"viiinterpolator.py",G+"interpolator.py",G+"geointerpolator.py",G+"multilinear.py"],
[("shape validation","scanline_mapblocks"),("width validation","interpolate in _modis_interpolator"),("consistency checks","tie_points_interpolation, tie_points_geo_interpolation, fill_borders, to_xyz")],
["exception or result of each call"])
p("C14","Legacy swath helpers place fine pixels at the documented positions",
"The legacy helpers interpolate cartesian positions linearly down the lines and with cubic splines across the columns, at fixed geometries: 1km to 500m/250m at lines (j-(f-1)/2)/f and columns i/f of each scan, 5km to 1km with tie points at line and column 2+5k, AVHRR 20km to 1km with tie columns 0, 4, 24, ..., 2044, 2047 of 2048 on unchanged lines, extrapolating linearly to the edges. Tie points are reproduced where they coincide with fine pixels, and the generic 5km to 1km helper does the same with plain data.",
["inputs","configurations"],"all tie data and numbers of scans or lines, for the five helpers",
"The tests compare one granule within loose tolerances, and the generic helper is not tested.",
[G+"__init__.py",G+"interpolator.py"],[("grids of each helper","modis1kmto500m, modis1kmto250m, modis5kmto1km, metop20kmto1km, generic_modis5kmto1km")],
["returned arrays"])
p("C15","The basic satellite interpolator is bilinear and reproduces tie points",
"Given tie rows and columns that start at 0, the basic interpolator returns latitudes then longitudes on the grid from 0 to the last tie row and column, each the bilinear interpolation of its own tie data, with the tie values reproduced at the tie positions. It holds for any (uneven) strictly increasing integer positions and repeated calls.",
["inputs","configurations","histories"],"all tie positions starting at 0, data and numbers of calls",
"The tests compare one fixed grid with stored numbers.",
[G+"basic_interpolator.py"],[("interpolation along each axis","BasicSatelliteInterpolator._interp_axis")],["interpolate()"])
p("C16","Geographic interpolation commutes with rotations about the axis and mirrors",
"Turning all the tie points about the earth axis by any angle, mirroring them north/south or east/west, or (for the schemes that are symmetric in it) reversing the direction in which a grid is stored, turns, mirrors or reverses the interpolated positions and changes nothing else. In particular no longitude, hemisphere or antimeridian crossing is treated differently from any other.",
["inputs"],"all tie point grids, rotation angles, mirrors, and all the geographic interpolators (VII: when both sides use the same coordinates)",
"The tests look at fixed positions only; none relates the results at two positions of the earth.",
[G+"geointerpolator.py",G+"_modis_utils.pyx",G+"_simple_modis_interpolator.pyx",G+"_modis_interpolator.pyx",G+"viiinterpolator.py",G+"__init__.py"],
[("interpolation in cartesian coordinates","all geographic interpolators")],["returned longitudes and latitudes"])
p("C17","Missing tie points only affect the pixels interpolated from them",
"In the MODIS (with and without angles) and VII interpolations, a missing (NaN) tie point makes missing all the fine pixels that are interpolated from it with a non zero weight, and none but those of the four point cells around it (for a zenith angle: the zones it is an upper tie point of). In cartesian coordinates a missing latitude makes both missing and a missing longitude at least the longitude; in direct ones each only itself. All other pixels, in particular of other scans, are the same as if it had not been missing, and restoring the value restores all.",
["inputs","fault_sequences"],"all sets and histories of missing tie points, in longitude, latitude, zenith angle or plain data, all resolutions and containers (VII: not changing the choice of coordinates)",
"No test has missing data.",
[G+"_modis_interpolator.pyx",G+"_simple_modis_interpolator.pyx",G+"viiinterpolator.py"],
[("local four point interpolation","_compute_fine_xyz, _call_map_coordinates, DataArray.interp")],["returned longitudes and latitudes"])
p("C18","Geographic and cartesian coordinates convert back and forth",
"The conversions of the geographic interpolators (lonlat2xyz and xyz2lonlat) are inverse of each other everywhere on the sphere, poles, equator and antimeridian included, for any radius, any threshold between 0 and 1 and either way of finding latitudes, whatever turns of 360 degrees longitudes carry, and keep the shape and floating point type. For points off the sphere, the latitude comes from z when |z| is below the threshold (if asked to use it) and from the distance to the axis otherwise.",
["inputs","configurations","histories"],"all places, radii, thresholds, sequences of conversions",
"The tests convert a few round numbers once, with the default radius and threshold.",
[G+"geointerpolator.py"],[("conversions","lonlat2xyz, xyz2lonlat")],["returned coordinates"])
p("C19","Grid and spline interpolators give the interpolation asked for by each call",
"For the single, multiple and geographic grid interpolators, the value at a pair of fine positions is made of the tie points of its cell by the method asked for by the call, or else by the one given when the interpolator was made (bilinear by default, or the nearest tie point): tie values are reproduced, positions outside of the ties are refused by default, get the fill value when asked not to raise, and are extrapolated linearly from the cells of the border with fill_value None. The spline interpolators give the tensor-product interpolating spline of orders kx down the rows and ky across the columns (3 by default). Results have one row and one column per fine position in the order given and keep the floating point type of their field, every field is independent of the others, and an answer never depends on earlier calls. The geographic ones do the same with cartesian positions, from longitudes and latitudes or from a geometry.",
["inputs","configurations","histories"],"all tie rows and columns (uneven too), data, fine positions in any order (increasing for splines), methods, policies for positions outside, orders, and sequences of calls on one object, eager or lazy",
"The tests call each class once or twice on one even grid; other methods, policies, uneven or unordered positions, several fields of different types and repeated calls with other options are not reached.",
[G+"interpolator.py",G+"geointerpolator.py"],
[("grid interpolation","SingleGridInterpolator"),("spline interpolation","SingleSplineInterpolator"),("several fields","AbstractMultipleInterpolator"),("geographic variants","_work_with_lonlats, to_xyz")],
["interpolate(fine_points, chunks=None, **kwargs)"],
[("interpolator","scipy interpolator with method and policy","AbstractSingleInterpolator"),("interpolators","one for each field","AbstractMultipleInterpolator")])
for d in P:
    assert d["statement"].count(". ")<=3,(d["id"],d["statement"].count(". "))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
