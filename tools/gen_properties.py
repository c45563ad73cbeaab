"""Writes /verif/properties.jsonl from the table below (source of truth for titles and statements)."""
import json, os

P = []
S = 'src/emva1288/'


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': [S + f for f in files],
                    'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
                    **({'observe_at': list(observe)} if observe else {}),
                    'hook_needed': None}})


p('C01', 'Image stacks are reduced to exact integer sum and pseudo-variance',
  'For any stack of same-shaped images of any integer pixel type and any length L>=1, the reduction reports L, the pixel-wise integer sum and the pixel-wise integer pseudo-variance L*(L*sum(x^2)-(sum x)^2) with no overflow, wrap or rounding whenever the results fit 64 bits, and the mean difference equals mean(last)-mean(first). '
  'Sum and pseudo-variance do not depend on the order of the images, masked pixels stay masked, and the input images are left untouched.',
  ['inputs'], 'every stack: 1..400 images, 1x1..large shapes (also 1-D and 3-D arrays), uint8/uint16/uint32/int* dtypes, extreme pixel values, any order, with or without a mask',
  'The loader test sums a handful of one synthetic 8-bit dataset; overflow, L-dependence, dtype and order only show for extreme values and long stacks.',
  ['process/routines.py'], [('int64 accumulation in get_int_imgs', 'process/routines.py')])
p('C02', 'A well-formed descriptor file is parsed into exactly the images it lists',
  'Parsing a well-formed descriptor yields its version, bit depth, width and height, and, for every measuring block, exactly the listed images in order under the block\'s exposure time and photon count (dark blocks at 0 photons), two-image blocks classified as temporal and longer ones as spatial. '
  'Comments, blank lines, surrounding or repeated white space, line-ending style, decimal commas and the order of blocks do not change the result, and unknown commands are skipped. '
  'Image names are resolved with backslash-separated components below the given base folder or, by default, below the descriptor\'s own folder.',
  ['inputs', 'programs'], 'every well-formed descriptor text: any number and order of blocks, any images per block >=2, any numeric spelling, any white space/comment/line-ending noise, with and without explicit base path',
  'The parser test reads one descriptor written by the package\'s own generator in one fixed spelling and order.',
  ['process/parser.py'], [('line splitting and block grammar', 'process/parser.py'), ('temporal/spatial classification by block size', 'process/parser.py')])
p('C03', 'A malformed descriptor is rejected, never silently misread',
  'A descriptor with a one-token line, a wrong field count in a header, block or image line, a block with fewer than two images, a second geometry line or a duplicated (kind, exposure, photons) block is rejected with a syntax error, a non-numeric number or a fractional geometry with a value error and undecodable text with a decoding error. '
  'Any other text is either rejected with one of these errors or parsed into exactly what the descriptor grammar says.',
  ['inputs', 'fault_sequences'], 'every text reachable by corrupting a valid descriptor (dropping, duplicating, splitting, merging, retyping lines or tokens, inserting invalid bytes) and every sequence of grammar tokens',
  'No existing test feeds the parser a malformed file; the error branches are marked "no cover".',
  ['process/parser.py'], [('field-count, duplicate and minimum-images checks', 'process/parser.py')])
p('C04', 'Images loaded from disk carry every pixel value into the data unchanged',
  'Loading the images a descriptor lists gives, for each exposure and photon count, the full sum and pseudo-variance images and image count of spatial stacks, and the pixel totals of sum and pseudo-variance plus the mean difference of temporal pairs, computed from the exact pixel values in the files, together with the common height and width. '
  'This holds for 8- and 16-bit gray files, for multi-band files (whose first band is used), for a base path, and for a caller-supplied image reader and its extra arguments.',
  ['inputs', 'configurations'], 'all sets of images (sizes, bit depths, file formats, stack lengths, exposures and photon counts), base paths and custom readers',
  'The loader test checks only the presence and types of keys on one generated data set.',
  ['process/loader.py', 'process/routines.py'], [('reduction of each point', 'process/loader.py'), ('load_image first band', 'process/routines.py')])
p('C05', 'Incomplete or inconsistent data sets are refused, not processed',
  'Data in which an exposure time has no dark measurement or no bright measurement, in which images differ in shape, or in which an image file is missing, and spatial data that do not consist of exactly one exposure time with exactly one dark and one bright point, are refused with an error (a value error; a file error for missing files). '
  'The refusal happens wherever the fault is: in any exposure time, kind, point or image position; the same data without the fault are accepted.',
  ['inputs', 'fault_sequences'], 'all valid data sets with one injected fault at any position, at the loading stage and at the data-conversion stage',
  'The tests inject each fault once into a minimal one-exposure data set.',
  ['process/loader.py', 'process/data.py'], [('completeness checks', 'process/loader.py'), ('completeness checks', 'process/data.py')])
p('C06', 'Temporal means and variances equal the EMVA pair statistics of the images',
  'For every exposure time and photon count, the reported mean is the mean gray value over both images and all pixels (the unmasked ones when images are masked and their number is given), and the reported variance is half the mean squared pixel difference minus half the squared difference of the two image means, so it is non-negative and unchanged by adding a constant to either image of a pair. '
  'Bright points are listed once each, by increasing exposure time and then photon count, with one exposure time and one dark mean and variance per exposure (repeated for every bright point when there is a single exposure time).',
  ['inputs'], 'all image pairs, sizes, numbers of exposure times and photon counts per exposure, in any insertion order',
  'The data test uses one hand-made data dictionary with one or two exposures and no real images.',
  ['process/data.py', 'process/routines.py', 'process/loader.py'], [('pair statistics and ordering', 'process/data.py')])
p('C07', 'Spatial statistics equal those of the averaged image stack',
  'For the dark and the bright stack alike, the spatial data report the sum image and stack length, the frame height and width, the mean of the averaged image, its unbiased spatial variance, the mean over pixels of the unbiased temporal variance, and the variances of the column averages and of the row averages each corrected by the residual temporal noise of that average. '
  'They do not depend on the order of the images in the stack, and the dark and bright stacks are never mixed up even when their lengths differ.',
  ['inputs'], 'all stacks (shapes including one row or column, non-square, lengths >=2, equal or different for dark and bright, structured and noisy contents up to 16 bit)',
  'The data test checks one artificial square stack; transposition, dark/bright mix-up and length dependence are invisible there.',
  ['process/data.py'], [('spatial statistics', 'process/data.py')])
p('C08', 'Nonuniformity splits exactly into row, column and pixel parts',
  'The spatial variance of the dark and of the bright image is the measured variance minus the residual temporal noise, and its row, column and pixel components satisfy: their sum is the spatial variance, the column-average variance is column + pixel/rows, and the row-average variance is row + pixel/columns, for every frame larger than 2x2; transposing all images swaps the row and column components. '
  'Overall, row, column and pixel dark nonuniformity is the root of the respective dark component divided by the gain (not-a-number when that component is negative), and photo-response nonuniformity is 100 times the root of the bright-minus-dark component divided by the bright-minus-dark mean. ',
  ['inputs'], 'all spatial data from image stacks of every shape with more than one row and column other than 2x2, structured (row, column, pixel patterns) or noisy, including components that come out negative',
  'The tests check a few of these formulas by recomputing them from one data set on which components are all positive.',
  ['process/results.py', 'process/data.py'], [('decomposition formulas', 'process/results.py')])
p('C09', 'The saturation point is the peak of the temporal noise, tolerant of outliers',
  'The saturation point is the brightest measuring point whose temporal variance exceeds that of both next darker points (of the one next darker point, if only one is left), or the first point if there is none; so a single-point dip does not hide the peak. '
  'It is therefore always a valid index, the position of the maximum for any single-peaked noise curve wherever the peak lies, and unchanged when the noise is rescaled or darker points change. A saturation index forced by the user is used as given, including the first point.',
  ['inputs'], 'all noise curves: single-peaked with the peak anywhere, plateaus, dips and spikes, lengths 1..200',
  'The tests use one simulated camera whose saturation lies well inside the curve.',
  ['process/results.py'], [('backward scan for saturation', 'process/results.py')])
p('C10', 'Responsivity, system gain and quantum efficiency are the fitted slopes',
  'Responsivity is the slope of the zero-intercept least-squares line of mean gray value minus dark versus photons and system gain that of variance minus dark variance versus mean minus dark, both over exactly the points from the first one through the last one not above 70% of the saturation signal; quantum efficiency is 100 times their quotient and inverse gain the reciprocal. '
  'Points beyond the fit range have no influence, scaling photons by c divides responsivity by c and leaves the gain unchanged, and scaling gray values by c (variances by c^2) scales both by c.',
  ['inputs'], 'all temporal data: any length, noise, curvature and saturation position, one or many exposure times, physical units spanning many orders of magnitude',
  'The tests only compare the results to loose bounds for one simulated camera.',
  ['process/results.py', 'process/routines.py'], [('zero-intercept fits', 'process/routines.py'), ('fit range', 'process/results.py')])
p('C11', 'Sensitivity threshold, saturation, SNR and dynamic range follow the standard',
  'With gain K, quantum efficiency QE and temporal dark noise s (DN), the results obey: threshold photons = (100/QE)(s/K+1/2), threshold electrons = QE/100 times that, saturation photons = photon count at the saturation index, saturation electrons = QE/100 times that, maximum SNR = root of saturation electrons (also in dB = 20 log10, bits = log2 and inverse = 100/SNR), dynamic range = saturation photons / threshold photons (also in dB). '
  'Per-area variants are the value divided by the pixel area, or absent when no pixel area is given.',
  ['inputs'], 'all temporal data sets and pixel areas, forced or detected saturation',
  'The tests check these identities on one data set; unit or index slips that cancel on it stay hidden.',
  ['process/results.py'], [('performance figures', 'process/results.py')])
p('C12', 'Linearity is judged on the 5%-95% range with the relative-deviation fit',
  'The linearity fit is the straight line minimising the sum of squared deviations relative to the measured signal, over the points from the first at or above 5% through the last at or below 95% of the saturation signal; the relative deviation is 100*(signal-line)/line for every point and the minimum and maximum linearity errors are its extremes inside the range. '
  'Exactly linear data give that line and zero errors, and rescaling photon counts or gray values leaves the errors unchanged.',
  ['inputs'], 'all temporal data: any curvature, noise, offset, saturation position and length',
  'Only one simulated data set is used and linearity values are not checked.',
  ['process/results.py'], [('weighted fit and deviation', 'process/results.py')])
p('C13', 'Dark noise and dark current are derived from the dark series as specified',
  'With at most two exposure times the temporal dark variance is the first dark variance, otherwise the zero-exposure intercept of the line through dark variance versus exposure; it is never below 0.24 DN^2, and the noise in electrons is the root of it less 1/12, divided by the gain. '
  'With three or more exposure times the dark current from the mean (from the variance) is the slope of dark mean (dark variance divided by the gain) versus exposure per second, also given in electrons after dividing by the gain; it is not-a-number with fewer exposure times or, for the variance, with a negative slope.',
  ['inputs'], 'all dark series: 1..100 exposure times, any slopes (negative included) and offsets, exposure times from ns to s',
  'The tests look at one many-exposure and one single-exposure simulated data set with loose bounds.',
  ['process/results.py', 'process/routines.py'], [('dark fits', 'process/results.py'), ('LinearB', 'process/routines.py')])
p('C14', 'Defect-pixel histograms count every pixel exactly once in equal integer bins',
  'A histogram of an integer image has at most 256 equal-width bins whose width is the smallest integer that allows that, starts at the image minimum, counts each unmasked pixel in exactly the bin containing its value, and carries the Gaussian model of the image\'s mean and standard deviation. '
  'The dark histogram is of the dark average relative to its mean and the bright one of the high-pass filtered bright-minus-dark average, both with bins in gray values; their accumulated variants give, per bin, the percentage of pixels deviating from the mean by at least the bin\'s value, starting at 100 and never increasing.',
  ['inputs'], 'all integer images (any range from constant to far beyond 256 values, boundary widths, negative values, with masks) and all spatial stacks',
  'The tests histogram one random image and only the bin count of one data set.',
  ['process/routines.py', 'process/results.py'], [('Histogram1288 binning', 'process/routines.py'), ('histogram scaling and accumulation', 'process/results.py')])
p('C15', 'The high-pass filter is exactly pixel minus neighbourhood mean, in integers',
  'For an odd size d, the filtered image (edges of d//2 pixels removed) equals N*pixel minus the sum of the N valid pixels of its d x d neighbourhood, where N is the reported multiplier: d^2 for plain images and the number of same-colour pixels for a regularly masked one, whose mask is kept. '
  'It is zero for constant images, linear in the image, unaffected by added constants; even sizes and irregular masks are refused, and the input is not changed.',
  ['inputs'], 'all integer images larger than the filter, odd sizes 3..9, Bayer-like periodic masks, irregular masks, even sizes',
  'The tests compare two fixed small arrays.',
  ['process/routines.py'], [('convolution and re-masking', 'process/routines.py')])
p('C16', 'Spectrograms are per-line averaged power spectra on the right frequency axis',
  'The spectrogram of an image is the power spectrum of each line of the mean-subtracted image, divided by the line length and averaged over lines, for frequencies zero to Nyquist; rotating gives columns instead of lines, and a stack sum of n images gives the spectrum of the average image (1/n^2). '
  'A sinusoidal pattern appears at its own frequency on the reported axis, which runs from 0 to 0.5 cycles per pixel, the spectrum integrates to the image variance, and masked pixels are removed line by line (fully masked lines dropped, lines cut to the shortest).',
  ['inputs'], 'all images of any even or odd width/height, any frequency and orientation, any n, any mask',
  'The tests check one sinusoid at Nyquist and one mask.',
  ['process/routines.py'], [('FFT1288, GetFrecs, row-wise compression', 'process/routines.py')])
p('C17', 'Results and their XML export are complete, labelled and lossless',
  'The results list every EMVA1288 quantity with its section, description, symbol and unit and with exactly the value obtained by asking for it individually, grouped by section without loss or duplication. '
  'Exporting to XML (returned or written to a file) and reading it back, from text or from a file, reproduces every section, quantity, numeric value and data array exactly, absent values as absent; numbers written with a decimal comma are read as such.',
  ['inputs', 'configurations'], 'all data sets, with and without pixel area, values of any magnitude including not-a-number and absent, and arbitrary section/quantity/array dictionaries',
  'Export and import are not covered by any test ("no cover"); reading from text never worked.',
  ['process/results.py', 'process/routines.py'], [('docstring catalogue', 'process/routines.py'), ('dict_to_xml / xml_to_dict', 'process/routines.py')])
p('C18', 'Comparing two result files reports OK exactly for equal quantities',
  'Comparing two exported result files lists every quantity of their common sections exactly once, under its section, and marks it OK if and only if both files have it and its values, or all its data arrays, agree to seven significant digits (absent equals absent, not-a-number equals not-a-number) and FAIL otherwise; a section missing from one file is a FAIL. '
  'A file compared with itself is all OK, swapping the files does not change the verdicts, an unreadable file never compares as equal, and the report can be written to a file, replacing what it held.',
  ['inputs'], 'all pairs of result files: identical, differing in any single value or array element, missing any section or quantity',
  'No test compares result files; the comparison reported FAIL for everything.',
  ['process/routines.py'], [('compare_xml, round_significant', 'process/routines.py')])
p('C19', 'Simulated images obey the EMVA camera model in range, mean and variance',
  'Every image a simulated camera produces has its frame size, an unsigned pixel type for its bit depth (the smallest one up to 16 bits) and values within its range, clipped at the full well and at the largest gray value. '
  'Below saturation the expected gray value of each pixel is black offset + gain*(light electrons*response + dark signal + dark current electrons + pixel offset), where light electrons are the photons of all wavelengths weighted by that pixel\'s quantum efficiency, and the temporal variance is gain^2*(light electrons + dark current electrons + electronics variance) plus quantisation noise of at most 1/4; images are independent of one another.',
  ['inputs', 'configurations'], 'all camera parameter sets (gain, offset, bit depth 1..16, temperature, exposure, quantum efficiency per pixel and wavelength, nonuniformities, full well) and all illumination levels from dark to far beyond saturation',
  'Camera tests check shape/dtype of one camera and that nonuniformity "shows"; the noise model itself is never tested.',
  ['camera/camera.py'], [('grab', 'camera/camera.py')])
p('C20', 'Camera settings snap to offered values and grabs have no side effects',
  'At any time the gain and black offset of a simulated camera are the offered values nearest to the last value set, the offered values are equally spaced between the given limits, and exposure, temperature and aperture are the last ones set. '
  'A per-image temperature or aperture applies to that image only, and taking images or querying never changes settings, arrays passed in or the environment; two cameras built with the same seed and driven by the same calls produce identical images, different seeds different ones.',
  ['histories', 'configurations'], 'all sequences of setting, querying and grabbing calls on cameras of any configuration',
  'The tests set a couple of values once; state leaks need call sequences.',
  ['camera/camera.py', 'camera/routines.py'], [('setters and nearest_value', 'camera/camera.py'), ('per-instance random generator', 'camera/camera.py')])
p('C21', 'Photon and radiance conversions are exact inverses with the right scaling',
  'Converting radiance to photons and back is the identity for every exposure time, pixel area, aperture and wavelength set; the photon number equals radiance*pi/(1+4f^2)*area*time*wavelength^2/(h*c), hence is proportional to radiance, exposure and area and, per wavelength, to its square. '
  'The radiance a camera reports for a target mean gray value at the current or any given exposure time is the one for which gain times (light electrons averaged over the frame plus dark-current electrons of that exposure) equals the target, which defaults to full range.',
  ['inputs', 'configurations'], 'all exposures, areas, apertures, wavelength sets, radiance images, and all cameras and target levels',
  'The tests check one photon/radiance round trip for one camera.',
  ['camera/routines.py', 'camera/camera.py'], [('get_photons/get_radiance', 'camera/routines.py'), ('get_radiance_for', 'camera/camera.py')])
p('C22', 'Generated data sets contain exactly the measuring points of their plan',
  'A plan for an exposure series spaces the requested number of exposure times evenly over the requested or camera limits, each with saturation-level and zero radiance; a plan for an illumination series uses one exposure and evenly spaced radiances between the requested or default limits plus dark; the spatial point is the middle one, bright and dark. Requested gain and black offset apply to the plan. '
  'The generated data set has, for every planned point, two (temporal) or L (spatial) images of the camera\'s size and depth, distinct files that all exist, and a descriptor (given by its absolute path) with exposure, photon count and geometry of that plan; it is accepted by the parser and loader and yields as many points as planned, and its temporary folder disappears with the generator.',
  ['configurations', 'inputs'], 'all numbers of steps, image counts, formats, bit depths, camera sizes, exposure and illumination series and limits',
  'The test fixture generates one exposure-series data set and checks nothing about the plan.',
  ['camera/points_generator.py', 'camera/dataset_generator.py'], [('operation points', 'camera/points_generator.py'), ('descriptor and image writing', 'camera/dataset_generator.py')])
p('C23', 'Characterising simulated camera images recovers the camera\'s parameters',
  'Running the whole chain on images of a simulated camera with known parameters recovers, within statistical uncertainty, its system gain, quantum efficiency, responsivity, temporal dark noise, dark current, saturation capacity, dark nonuniformity and photo-response nonuniformity, including their row, column and pixel parts. '
  'With a perfectly linear camera the linearity error is consistent with zero.',
  ['inputs', 'configurations'], 'all realistic camera parameter sets within the standard\'s assumptions (noise above quantisation, black offset avoiding clipping)',
  'Tests check gross bounds for one parameter set, so a systematic error of tens of percent or a wrong dependence on a parameter passes.',
  ['camera/camera.py', 'process/data.py', 'process/results.py', 'process/loader.py', 'process/parser.py'], [('entire chain', 'process/__init__.py')])
p('C24', 'A report contains every operation point with its own values and plots',
  'A generated report directory contains the report source, style file and auxiliary files, every operation point that was added, in order and numbered, with its name (its number when unnamed), camera settings, test parameters, its own result values rounded as displayed (a dash for per-area and dark-current figures that are not available), and only references to files that exist; summary-only points omit the extra plots. '
  'Setup, vendor and marketing information, logo, watermark and cover page given by the user appear, only the name of a point is mandatory, and the dictionaries of the caller can be reused and changed for further points and reports without affecting those already added.',
  ['inputs', 'histories', 'configurations'], 'all sequences of added operation points (results, names, summary flags, parameters) and all information dictionaries',
  'The report test generates one report and only checks that it does not crash.',
  ['report/report.py'], [('template rendering and file layout', 'report/report.py'), ('templates', 'report/templates/op.tex')])
p('C25', 'Plots show the measured data and fitted results of every test given',
  'Every plot draws, for each of the tests given to it, that test\'s data on the documented axes: photon transfer, SNR, sensitivity, dark mean, linearity, deviation, spectrograms, histograms and profiles, with fit lines, fit range and saturation markers agreeing with the test\'s reported results, and leaves the results unchanged; where a plot sets the limits of its axes, they leave the levels of every test visible. '
  'Spectrogram curves and their nonuniformity reference lines are in the same unit (percent for bright, gray values for dark).',
  ['inputs', 'histories'], 'all data sets, any selection of plots and any number of tests in one figure',
  'Plots are only exercised through the report smoke test, which looks at no drawn value.',
  ['process/plotting.py'], [('plot classes', 'process/plotting.py'), ('multi-test driver', 'process/plotting.py')])
p('C26', 'Results are a pure function of the data, whatever is asked in which order',
  'Asking for results, histograms, exports and plots in any order and any number of times always gives the same answers as asking a fresh evaluation of the same data for just that result, and never modifies the data; independent evaluations do not influence each other. '
  'Likewise repeated loading or conversion of the same inputs gives identical data and leaves the inputs unchanged.',
  ['histories'], 'all sequences of result queries (any order, repetition, interleaving over several evaluations) on all data sets',
  'Each test asks for a few values once, so caching or aliasing mistakes cannot surface.',
  ['process/results.py', 'process/data.py'], [('lazy properties and the cached saturation index', 'process/results.py')])
p('C27', 'Pattern tiling, colour filters and quantum efficiencies have requested shapes',
  'Repeating a 1-D or 2-D pattern, or a colour-filter pattern, over a frame of any height and width gives exactly that shape with every pixel equal to the pattern at its position modulo the pattern size. '
  'A colour filter assigns each of the four positions of its 2x2 cell a transmission curve over wavelength that lies between 0 and 1 and peaks at the requested wavelength; a quantum efficiency has the requested frame size, is the simulated or supplied one multiplied by the filter without altering the supplied arrays (a simulated one is the same for every pixel and depends on its wavelength alone), and one of wrong dimensions is refused with a value error.',
  ['inputs', 'configurations'], 'all pattern shapes, frame sizes (odd, even, smaller than the pattern), peak wavelengths and wavelength grids',
  'The tests check a few even sizes.',
  ['camera/routines.py'], [('get_tile, array_tile, get_bayer_filter, Qe', 'camera/routines.py')])
p('C28', 'Injected bad pixels are as many and as strong as requested and nothing else',
  'Adding n bad pixels to a simulated camera sets exactly n distinct pixels of its dark nonuniformity to the requested fraction of the full well (the full well if none is given) and leaves all others unchanged; every pixel of the frame can become bad. Neither the array the nonuniformity was given as nor other cameras built from it change. '
  'Those and only those pixels then stand out in images by the corresponding signal.',
  ['inputs', 'configurations'], 'all frame sizes, all n from 0 to the number of pixels, all fractions',
  'No test covers bad-pixel injection; collisions appear only for larger n.',
  ['camera/bad_images.py'], [('position choice', 'camera/bad_images.py')])
p('C29', 'Results do not depend on how the same images are packaged',
  'Two data sets holding the same pixel data for the same exposure times and photon counts give identical exported results regardless of descriptor block order, image names, folders and lossless file formats, the number spelling, the order of images inside a spatial stack, or whether equal images are stored once or several times. '
  'The one-call interface on a descriptor file gives the same results, export and printed table as running the individual stages.',
  ['inputs', 'configurations'], 'all data sets and all repackagings of them (block permutations, renamed or relocated files, other lossless formats, other number spellings, spatial image permutations)',
  'The tests use one packaging only.',
  ['process/__init__.py', 'process/parser.py', 'process/loader.py', 'process/data.py'], [('sorting by exposure and photons', 'process/data.py'), ('one-call chain', 'process/__init__.py')])
p('C30', 'Automatic camera settings of a data set are the smallest that suffice',
  'A data set generated without a black offset uses the smallest offered black offset at which more than 99.5% of the dark pixels at the shortest exposure are above zero, at the gain the camera starts with (the given one, else the offered one nearest 0.1); without a gain, the smallest offered gain at which, with that black offset, the difference of two dark images has a standard deviation above 0.5 gray values. If none suffices it is the largest offered one. '
  'A gain or black offset that is given, zero included, is used (snapped to the nearest offered one), and nothing else of the camera\'s configuration changes.',
  ['inputs', 'configurations'], 'all camera configurations with any number of offered gains and black offsets, either setting given or not',
  'The tests generate data sets with both settings fixed or accept whatever is chosen.',
  ['camera/dataset_generator.py', 'camera/camera.py'], [('_get_emva_gain, _get_emva_blackoffset', 'camera/dataset_generator.py')])
p('C31', 'Quantities documented with the emva1288 directive are listed as documented',
  'For any class, the information dictionary lists exactly the methods and properties of that class whose docstring holds an emva1288 directive, in alphabetical order, each with all tags of the directive block (tag names in lower case, values verbatim, colons included; the block ends at a blank line; other docstring text and untagged lines are ignored) and section "other" when none is given. '
  'The results of an object of the class are that information plus, for each quantity, its value, or its data when it is a dictionary, each call starting afresh.',
  ['inputs'], 'all classes with any mixture of methods, properties, plain attributes and docstrings',
  'No test reads the documentation tags; the results test only looks up names.',
  ['process/routines.py'], [('cls_1288_info, obj_to_dict', 'process/routines.py')])
p('C32', 'Results follow units, orientation and fixed background as they must',
  'For any data set, adding one gray value to every pixel of all images changes no result, and adding one fixed pattern to all images changes only the spatial nonuniformity results and dark histograms. Transposing all images exchanges the row and column results and changes nothing else; mirroring all images or exchanging the images of the pairs changes nothing; permuting the pixels of all images alike, or a sensor that shows everything twice, leaves all temporal results unchanged. '
  'Multiplying all photon counts, all exposure times, the pixel area or all gray values by a factor multiplies each result by the power of it that its unit has and changes nothing else (apart from the quantisation noise and lower noise limit, which are in gray values).',
  ['inputs', 'configurations'], 'all data sets with defined fit ranges, from the images to every listed quantity, and all factors, offsets, patterns and permutations',
  'The tests characterise one data set once; a result that depends on the black level, the orientation or the unit looks right for a single data set.',
  ['process/results.py', 'process/data.py', 'process/loader.py', 'process/routines.py'], [('fits on dark-corrected means', 'process/results.py'), ('pair and stack statistics', 'process/data.py')])
p('C33', 'Masked pixels have no influence on anything, valid ones have all of it',
  'When the images carry a mask (one for all images, such as one colour of a mosaic or any set of pixels) and the number of valid pixels is given, the temporal data, every result fitted to them, the overall dark and photo-response nonuniformity with their variances and the dark histograms are those of the valid pixels alone; where the valid pixels are whole rows and columns of a smaller frame, the row, column and pixel parts are those of that frame. '
  'No listed quantity, histogram, spectrogram, profile or other plot depends on the values under the mask, and images in which nothing is masked give the same as plain images.',
  ['inputs', 'configurations'], 'all data sets, masks and values under the mask; histograms of the bright image only for the regular masks the high-pass filter accepts',
  'The tests mask single arrays for the filter and the spectrum; no masked data set is ever characterised.',
  ['process/data.py', 'process/results.py', 'process/routines.py', 'process/plotting.py', 'process/loader.py'], [('masked sums and means', 'process/data.py'), ('histograms, filter and spectra of masked arrays', 'process/routines.py'), ('profiles of masked arrays', 'process/plotting.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        d['statement'] = d['statement'].strip()
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
