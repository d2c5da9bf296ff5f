import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=False):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if observe: a['observe_at']=[observe]
    if state: a['state']=state
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p('C01','Every ortho pixel is right, under every schedule and tile layout',
 'When orthorectification succeeds, each ortho pixel away from the edge of the valid area holds, in every band, the source image value at the place where the camera and DEM put that ground position, and pixels that no source or DEM data reaches are marked as no-data (by value, or by internal mask when one is written). '
 'The georeferencing, size, band count, data type and colour interpretation are the ones the inputs and options ask for, and overviews, when asked for, show the finished image. '
 'For given inputs and options the pixels and mask are identical for every thread interleaving and number of worker threads, and do not depend on tile shape, strip layout, output driver or band-by-band processing.',
 ['schedules','inputs','configurations'],
 'for all thread interleavings, worker counts, tile layouts, camera models, data types, interpolation methods, band counts, drivers and mask settings',
 'tests run one interleaving per machine on a handful of images that mostly fit one tile, and compare against the same code rather than an independent projection',
 ['orthority/ortho.py','orthority/camera.py','orthority/common.py'],
 [('tile thread pool and write lock','orthority/ortho.py:Ortho._remap/_remap_tile'),('tile windows','orthority/common.py:block_windows'),('remap','orthority/camera.py:Camera.remap')],
 observe='output raster opened with rasterio')
p('C02','A raster handle is never used by two threads at once, nor after closing',
 'While an image is being orthorectified or pan-sharpened, no two threads are ever inside a pixel read, pixel write, mask write, overview build or close of the same underlying raster dataset at the same time, and no pixel operation starts on a dataset after it has been closed. '
 'This holds for files the library opens itself and for open datasets supplied by the caller, including one dataset supplied in two roles, and also when some tile fails.',
 ['schedules','fault_sequences','configurations'],
 'for all interleavings of the tile workers and the calling thread, with and without failing tiles',
 'an overlap needs a precise interleaving and usually corrupts nothing visible on the run where it happens; tests do not observe handle use at all',
 ['orthority/ortho.py','orthority/pan_sharp.py'],
 [('ortho write lock','orthority/ortho.py:Ortho._remap_tile'),('pan, multispectral and output locks','orthority/pan_sharp.py:PanSharpen'),('pool shutdown before datasets close','orthority/ortho.py:Ortho._remap')],
 observe='entry to and exit from rasterio dataset methods')
p('C03','Pan-sharpened pixels are right whatever order tiles complete in',
 'When pan-sharpening succeeds, each output pixel where both images have data, in all bands, equals, to within rounding, the Gram-Schmidt result computed from the statistics of the whole shared area (or from the given weights), and other pixels are marked as no-data; overviews, when asked for, show the finished image. '
 'The result does not depend on the order in which tiles are read, finish or are merged, on the number of worker threads, or on the output tile layout.',
 ['schedules','inputs','configurations'],
 'for all completion orders, worker counts, tile layouts, band selections, weights, data types and no-data patterns',
 'statistics are merged in completion order and only images larger than 1024 pixels have more than one statistics tile; tests fix one order and compare loosely',
 ['orthority/pan_sharp.py','orthority/common.py'],
 [('statistics merge','orthority/pan_sharp.py:PanSharpen._get_stats'),('tile sharpening','orthority/pan_sharp.py:PanSharpen._process_tile'),('dtype conversion','orthority/common.py:convert_array_dtype')],
 observe='output raster opened with rasterio')
p('C04','A failure anywhere in the work is raised, never a silent success',
 'If any read, computation, allocation or write needed for an output fails while an ortho, pan-sharpened image, parameter file or parameter reading is being produced, the call raises an exception whose cause chain contains the original failure; it never returns normally with part of the result missing. '
 'This holds for a failure in any tile, band, file or thread, at any moment, including while the output is being flushed or closed.',
 ['fault_sequences','schedules'],
 'for all single and multiple failures at any I/O call or line of worker code, under all interleavings',
 'the existing tests inject no I/O faults; a swallowed failure only shows when a specific tile or close fails',
 ['orthority/ortho.py','orthority/pan_sharp.py','orthority/common.py','orthority/param_io.py','orthority/exif.py'],
 [('future result propagation','orthority/ortho.py:Ortho._remap; orthority/pan_sharp.py:PanSharpen; orthority/param_io.py:read_im_rpc_param'),('file closing','orthority/common.py:OpenRaster.__exit__, Open.__exit__')],
 observe='return value or exception of the public call')
p('C05','Every call finishes and leaves no thread, file or dataset behind',
 'Under every interleaving, and with any failure at any point or an interrupt while it waits for its workers, every public call returns or raises (it never hangs), and by the time it does no worker thread it started is still running and every file and dataset it opened is closed. '
 'Datasets and file objects supplied by the caller are still open and usable afterwards.',
 ['schedules','fault_sequences'],
 'for all interleavings, worker counts, failures at any I/O call or line, and interrupts while waiting',
 'deadlocks, stray workers and leaked handles need a failure at a particular moment; tests check only successful results',
 ['orthority/ortho.py','orthority/pan_sharp.py','orthority/common.py','orthority/param_io.py','orthority/exif.py','orthority/factory.py'],
 [('pool and exit-stack teardown','orthority/ortho.py:Ortho.process; orthority/pan_sharp.py:PanSharpen.process'),('raster and file context managers','orthority/common.py:OpenRaster, Open')],
 observe='scheduler thread table, open file descriptors, dataset and file object state after the call')
p('C06','With overwrite off, existing files are never touched',
 'When overwriting is not requested and an output file already exists, whether a valid image, a damaged one or an unrelated file, the operation fails with a file-exists error (a usage error on the command line) and the existing file keeps exactly its bytes, for ortho images, pan-sharpened images and each exported parameter file, on local and on other file systems. '
 'This also holds when any other failure occurs during the same operation.',
 ['configurations','fault_sequences','histories'],
 'for all output kinds, drivers, storage back ends, pre-existing contents and fault points',
 'tests check one local file per command; the guarantee must survive every driver, storage type and fault point',
 ['orthority/common.py','orthority/ortho.py','orthority/pan_sharp.py','orthority/param_io.py','orthority/factory.py','orthority/cli.py'],
 [('existence check before opening','orthority/common.py:OpenRaster.__init__, Open.__init__'),('overwrite plumbing','orthority/param_io.py:write_*; orthority/factory.py:*.write_param; orthority/cli.py')],
 observe='bytes of pre-existing files before and after')
p('C07','A run can always be repeated after a failure or crash',
 'After a run fails or the process is killed at any point, repeating it with overwriting on, whatever partial or damaged output was left behind, succeeds and produces the same output as an undisturbed run. '
 'The same ortho or pan-sharpening object can be reused after success or failure, any number of times and with any mix of options, and each run gives what a new object would give.',
 ['crash_points','fault_sequences','histories'],
 'for all crash points, torn or truncated leftovers, failure points and sequences of runs on one object',
 'needs crashes and torn writes at arbitrary points, and histories longer than one call',
 ['orthority/common.py','orthority/ortho.py','orthority/pan_sharp.py'],
 [('opening the output for writing','orthority/common.py:OpenRaster.__init__'),('state held between runs','orthority/ortho.py:Ortho._dem_array; orthority/pan_sharp.py:PanSharpen._profiles')],
 observe='output raster of the repeated run against that of an undisturbed run')
p('C08','Batch readers give each file its own data, in file order, and name failures',
 'Reading RPC, GCP or EXIF parameters from a list of images gives, for every file, exactly the parameters stored in that file, in the order the files were given, whatever order the reads finish in. '
 'If some files cannot be read or lack the parameters, the call fails with the error of the first such file in list order, and the message names that file.',
 ['schedules','fault_sequences','inputs'],
 'for all completion orders, file lists and subsets of failing files',
 'completion order is chosen by the OS in tests and is nearly always the submission order',
 ['orthority/param_io.py','orthority/exif.py'],
 [('thread pool readers','orthority/param_io.py:read_im_rpc_param, read_im_gcps, ExifReader._read_exif'),('tag parsing','orthority/exif.py:Exif')],
 observe='returned dictionaries and raised exceptions')
p('C09','A camera obtained for one image stays the camera of that image',
 'A camera returned by a camera factory for an image describes that image with the parameters of that image, and goes on doing so whatever other cameras are requested, refined, exported or used afterwards, in any order and from any thread. '
 'Factories and readers never change the dictionaries, lists and options passed to them, so these can be reused for another factory with the same result.',
 ['histories','schedules'],
 'for all sequences and interleavings of requests, refinements, exports and uses over any set of images',
 'needs multi-step histories mixing images; tests request one camera at a time',
 ['orthority/factory.py','orthority/camera.py'],
 [('camera cache','orthority/factory.py:FrameCameras.get, RpcCameras.get'),('refinement','orthority/factory.py:RpcCameras.refine'),('keyword dictionaries','orthority/factory.py:FrameCameras.from_images')],
 observe='pixel and world coordinates computed by earlier returned cameras; argument dictionaries')
p('C10','Camera results depend only on current settings, not on past or concurrent use',
 'Reading, projecting and remapping with a camera gives what a new camera with the same parameters gives, after any sequence of pose updates, distortion and scaling changes, reads and projections. '
 'One camera can be used by several threads at once and each gets the result it would get alone, and the arrays passed in are never modified.',
 ['histories','schedules'],
 'for all operation sequences and interleavings, over all camera models',
 'cached undistortion data and settings interact over sequences; tests set a camera up once and use it once',
 ['orthority/camera.py'],
 [('undistortion cache and setters','orthority/camera.py:FrameCamera.alpha, distort, update, _undistort_im'),('undistorted intrinsics','orthority/camera.py:FrameCamera._get_undistort_intrinsic')],
 observe='return values of public camera methods')
p('C11','Process-wide settings come back exactly as they were',
 'After any library call returns or raises, under any interleaving of its worker threads and of calls made from several threads, the Python warning filters and warning display hook, the GDAL configuration options, the working directory and process environment, and the other settings shared by the process (logging levels and handlers, the number of OpenCV threads, NumPy error handling, random number state, signal handlers) are what they were before the call.',
 ['schedules','fault_sequences'],
 'for all interleavings of worker threads and concurrent callers, and all fault points',
 'save and restore of global state from several threads goes wrong only for particular interleavings, and nothing fails visibly when it does',
 ['orthority/common.py','orthority/ortho.py','orthority/pan_sharp.py','orthority/param_io.py','orthority/exif.py','orthority/camera.py'],
 [('warning suppression','orthority/common.py:suppress_no_georef'),('GDAL environments','rasterio.Env uses in ortho.py, pan_sharp.py, camera.py, param_io.py')],
 observe='warnings.filters, warnings.showwarning, GDAL options, cwd, os.environ, logger levels, OpenCV thread count, NumPy error state etc. before and after')
p('C12','Inputs are never modified, and nothing but the requested outputs is written',
 'Source images, DEMs, panchromatic and multispectral images, parameter files and CRS files, and everything beside them, keep exactly their bytes, whether the operation succeeds, fails or is killed. '
 'The only files created or changed are the outputs asked for, and no temporary or sidecar file remains after a successful run. '
 'Dictionaries and lists that the caller passes in (parameters, creation options, band indexes, weights, progress settings, lists of files) are not changed either.',
 ['fault_sequences','crash_points','configurations'],
 'for all operations, input forms, options, fault and crash points',
 'tests look at the output only',
 ['orthority/common.py','orthority/ortho.py','orthority/pan_sharp.py','orthority/param_io.py','orthority/cli.py'],
 [('read-only opening','orthority/common.py:OpenRaster, Open'),('output naming','orthority/cli.py:_ortho; orthority/common.py:join_ofile')],
 observe='directory trees and simulated storage before and after')
p('C13','A command-line batch treats each image alone and reports failure',
 'Processing several images in one command gives, for each image, the same ortho as processing that image by itself with the same options, whatever the other images are and whatever their order. '
 'If an image fails, the command exits with a non-zero status, orthos already completed remain complete and valid, and exit status zero means that every requested output was written completely.',
 ['histories','fault_sequences','inputs'],
 'for all batches and orders of images, and faults at any point of the batch',
 'tests run batches of like images once and without faults; state carried from image to image shows only for particular mixes',
 ['orthority/cli.py','orthority/factory.py','orthority/ortho.py'],
 [('batch loop','orthority/cli.py:_ortho'),('sub-commands','orthority/cli.py:frame, rpc, exif, odm, sharpen')],
 observe='exit status and output files of the command')
p('C14','Exported parameters read back the same, or the export fails',
 'When exporting camera parameters or ground control points returns, reading the files back gives the exported parameters without loss, on any storage. '
 'If any open, write, flush or close involved fails, the export raises, and repeating it with overwriting on after any failure or crash gives complete files.',
 ['fault_sequences','crash_points','inputs'],
 'for all parameter sets of all camera kinds and all storage fault and crash points',
 'tests write one parameter set to a healthy disk',
 ['orthority/param_io.py','orthority/factory.py','orthority/common.py'],
 [('writers','orthority/param_io.py:write_int_param, write_ext_param, write_rpc_param, write_gcps'),('readers','orthority/param_io.py:read_oty_int_param, read_oty_rpc_param, read_oty_gcps, OtyReader'),('text file context manager','orthority/common.py:Open')],
 observe='dictionaries read back; exceptions; storage contents')
p('C15','Progress never runs ahead of the work and ends at the total',
 'At every moment the progress reported for an ortho, pan-sharpening or batch reading counts no more tiles or files than have really been completed, and it never goes back. '
 'It reaches its total exactly when the call succeeds, and a call that fails because of a tile or file never reports completion.',
 ['schedules','fault_sequences'],
 'for all interleavings, worker counts, tile layouts and failing tiles or files',
 'needs observation of progress against work done at every step of many interleavings',
 ['orthority/ortho.py','orthority/pan_sharp.py','orthority/param_io.py'],
 [('progress updates','orthority/ortho.py:Ortho._remap; orthority/pan_sharp.py:PanSharpen.process, _get_stats; orthority/param_io.py readers')],
 observe='progress bar counter against completed writes and reads')
p('C16','Results do not depend on how inputs and outputs are stored or supplied',
 'An input gives the same result whether supplied as a path, a URI, a file-system object or an already open dataset or file, and an output written to any supported storage holds the same image or parameters as one written to a local path. '
 'On storage other than local disk, the existence check, the file-not-found error and overwriting behave as they do locally.',
 ['configurations','inputs','fault_sequences'],
 'for all ways of supplying each input and output and all operations',
 'the combinations of input and output forms over all operations are far more than the tests sample',
 ['orthority/common.py','orthority/ortho.py','orthority/pan_sharp.py','orthority/param_io.py','orthority/factory.py','orthority/exif.py'],
 [('raster and file opening','orthority/common.py:OpenRaster, Open, get_filename, join_ofile')],
 observe='results and errors of the same operation over different storage')
p('C20','Calls do not affect one another',
 'What a call produces depends on its own arguments and on what its files hold when it is called, and on nothing else the process does: not on earlier calls, successful or failed, for the same files (whose contents may have been replaced since), for files of the same names elsewhere, or with other options; and not on calls made at the same time from other threads, including ones that read the same input files. '
 'When one of several calls made at the same time fails, that call alone raises, and the others complete with the results they would have had by themselves.',
 ['schedules','histories','fault_sequences','inputs'],
 'for all sequences and interleavings of calls, inputs, and failures of some of them',
 'tests call one thing at a time with fixed inputs and mostly look at one result; state carried from call to call (a cache, a default that is modified, a shared pool or lock) shows only with a second call that differs in the right way',
 ['orthority/ortho.py','orthority/pan_sharp.py','orthority/param_io.py','orthority/factory.py','orthority/camera.py','orthority/fit.py','orthority/exif.py','orthority/common.py'],
 [('work of a call','orthority/ortho.py:Ortho.process; orthority/pan_sharp.py:PanSharpen.process; orthority/param_io.py readers and writers; orthority/fit.py'),
  ('shared constants and defaults','module and class attributes of orthority/common.py, ortho.py, pan_sharp.py, param_io.py, camera.py')],
 observe='result of each call against the same call alone in a new process')
# not applicable
p('C17','Pixel and world coordinates convert back and forth consistently',
 'Projecting a ground position to pixel coordinates and back to the same height returns the same position, for every camera model and pose that sees it.',
 ['inputs'],'for all cameras, poses and positions','round trips are sampled on a few cameras',
 ['orthority/camera.py'],[('projection','orthority/camera.py:world_to_pixel, pixel_to_world_z')])
p('C18','RPC refinement and exterior fitting return the least-squares optimum',
 'Refining an RPC model with ground control points minimises the squared pixel error over the chosen correction, and fitting exterior parameters minimises the reprojection error.',
 ['inputs'],'for all models and control points','optimality is sampled on synthetic sets',
 ['orthority/fit.py'],[('fitting','orthority/fit.py:refine_rpc, fit_frame_exterior')])
p('C19','Orientation and position conversions keep their conventions',
 'Converting roll-pitch-yaw and geographic positions, or structure-from-motion poses, to world coordinates and omega-phi-kappa angles describes the same physical pose for all angles, positions and reference systems.',
 ['inputs'],'for all angles, positions and reference systems','a few poses are sampled',
 ['orthority/param_io.py'],[('conversions','orthority/param_io.py:_rpy_to_opk, _cv_ext_to_oty_ext, _aa_to_opk')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
