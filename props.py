SMC = "stateless model checking of the real library: exhaustive enumeration of executions within bounds, against a reference model"
ENV = "exhaustive enumeration of environment faults on the real library (fault-injecting explorer)"

prop("C01", "Result lists are ordered, complete and bounded",
"""Every successful detection returns, for each requested dimension, a non-empty list sorted by descending confidence whose last entry is the full size of that dimension with confidence -1;
all other entries have distinct sizes not below the range and smaller than the full size minus the range (a dimension too short for any candidate yields only the full size), and a confidence from the threshold up to 1.
The list at a threshold is exactly the list at threshold 0 without the entries below it, and does not depend on whether the other dimension was requested.""",
["inputs", "configurations"], "every image size, content, number of frames, method, range and threshold",
"The tests look at a handful of images with default options; list shape depends on size, range and threshold together.",
["lib/analysis.c", "lib/resdetect.c"], [("generate_dimension_results", "lib/analysis.c"), ("setup_dimension", "lib/analysis.c")],
SMC, "exploration", """All sizes from a 19x19 (thorough 23x23) grid that straddles every boundary with the range, 4 methods, 10 ranges, 6 contents, 1 and 2 frames, 12 thresholds and those one representable step below and above a confidence that occurs, and that confidence; the oracle is structural and self-consistent, so it trusts no model of the scores.""", ["resdet_analysis_results", "resdetect"])

prop("C02", "Sign and zero-crossing confidences follow the methods' definition",
"""With the sign method the confidence of a candidate size is the fraction of coefficient pairs mirrored around it, over all lines and all distances up to the range, whose signs differ;
with the zero-crossing method it is the fraction of lines in which the coefficient lies strictly between neighbours of opposite signs, whatever range is set.
Coefficients are those of the two-dimensional DCT-II of the image; sizes are reported if and only if that confidence reaches the threshold.""",
["inputs", "configurations"], "every image, size and range", "Tests compare a few real images with expected best guesses; they do not determine any single confidence.",
["lib/methods.c", "lib/analysis.c"], [("detect_method_sign", "lib/methods.c"), ("detect_method_zerocrossing", "lib/methods.c")],
SMC, "exploration", """Every spectrum over small alphabets up to 10 (thorough 13) coefficients, every binary image up to 15 pixels, grids of sizes and ranges; pictures of ordinary brightness and times 2^-100 to 2^80; compared with a double precision reference as intervals, so rounding of the single precision transform never decides a verdict.""", ["resdet_analysis_results"])

prop("C03", "Magnitude and original-method confidences follow the methods' definition",
"""With the magnitude method the confidence of a candidate size is the fraction of mirrored coefficient pairs with opposite signs and similar magnitude.
With the original method a candidate has the sign method's confidence if the summed magnitudes on both sides dominate the middle and are closer to each other than to it, and 0 otherwise.
Sizes are reported if and only if that confidence reaches the threshold.""",
["inputs", "configurations"], "every image, size and range", "Tests compare a few real images with expected best guesses; they do not determine any single confidence.",
["lib/methods.c"], [("detect_method_magnitude", "lib/methods.c"), ("detect_method_original", "lib/methods.c")],
SMC, "exploration", "As C02.", ["resdet_analysis_results"])

prop("C04", "Analysis is correct at every image size and with either transform",
"""For images of any width and height, including 1, primes, powers of two and extreme aspect ratios, both transform backends yield the confidences that follow from the exact DCT-II of the image.
Transposing the image exchanges the results for width and height.""",
["inputs", "configurations"], "every width and height, both backends", "Tests use a few sizes; FFT code paths are chosen by the factorisation of the size.",
["lib/transform/fftw.c", "lib/transform/kiss_fft.c", "lib/kissfft", "lib/analysis.c"], [("resdet_transform", "lib/transform"), ("resdet_create_plan", "lib/transform")],
SMC, "exploration", """All lengths 1..512 (thorough 2500) as one long dimension, all sizes up to 40x40 (72x72), and selected large lengths, by both backends; interval comparison with a direct double precision DCT.""", ["resdet_analysis_results"])

prop("C05", "Upscaled images are detected with their source size",
"""An image obtained by upscaling in the frequency domain, or by ordinary linear, cubic or Lanczos resampling of detailed content, has its source size as the best guess in each upscaled dimension that is large enough for the range.
A dimension that was not upscaled has no confident guess other than its own size.""",
["inputs"], "every pair of source and upscaled size, every method and range", "Tests contain a few upscaled images.",
["lib/methods.c", "lib/analysis.c"], [("detection methods", "lib/methods.c")],
SMC, "exploration", """Every pair (source, upscaled) with the upscaled size up to 76 (thorough 120), width, height or both, 4 methods, and ratios of real resampling kernels; both backends. Noise and synthetic photographs of 11 sizes up to 1280x720 (thorough 12 up to 2592x1944), 3 kernels, 4 methods, 1 or 3 frames. Ideal images are judged strictly, resampled ones by the best guess.""", ["resdet_analysis_results"])

prop("C06", "A multi-frame analysis is the average of its accepted frames",
"""At any time the results of an analysis are, for every size, the mean of the confidences each frame accepted so far has alone, in whatever order and number the frames came, and asking for results at any point or repeatedly changes nothing.
A rejected frame (containing NaN or infinity) or a failed call leaves no trace; separate analyses do not affect one another; the caller's pixels and parameters are never modified or referenced later.
With no accepted frame the results are refused with the no-images error.""",
["histories", "inputs"], "every sequence of operations on one or two handles", "The tests run two or three fixed sequences; state left behind by an operation shows only in particular orders.",
["lib/analysis.c"], [("resdet_analyze_image", "lib/analysis.c"), ("resdet_analysis_results", "lib/analysis.c")],
SMC, "model_checking", """The model (multiset of accepted frames) is run side by side with real handles on every operation sequence up to 4 (thorough 5) of 13 operations, two handles interleaved to depth 5 (6), and long histories to 131073 and once 1000003 (16777300) frames; every model trace is executed on the implementation.""", ["resdet_analysis_results"],
[("accumulated result and frame count", "sum of per-frame scores", "lib/analysis.c RDAnalysis")])

prop("C07", "All entry points agree",
"""For the same frames and options, sequential analysis, the one-call function, file detection by extension, by type, by MIME type or from standard input, and reading an image then analysing it give identical lists or the same error.
Omitting the method or parameters means the documented defaults.""",
["inputs", "configurations"], "every combination of frames, options, format, defect and entry point", "Tests exercise each entry point on its own.",
["lib/resdetect.c", "lib/analysis.c", "lib/image.c"], [("resdetect", "lib/resdetect.c"), ("resdetect_file", "lib/resdetect.c"), ("resdet_read_image", "lib/image.c")],
SMC, "exploration", "Differential: no expected value is written by hand. All combinations of 6 (7) sizes, up to 4 (6) frames, 5 methods, 6 option sets, 3 formats, frames that differ, repeat or alternate and 4 defects through every entry point; up to 131073 frames, both backends.", ["resdetect", "resdetect_file", "resdet_read_image"])

prop("C08", "Parameters accept exactly their documented domain and take effect once set",
"""The range accepts every positive value, the threshold every number from 0 to 1 and nothing else (no NaN), the compression filter every value up to 31; anything else is refused with the parameter error and changes nothing.
An accepted value governs every analysis created afterwards and no analysis created before; parameters not set keep their defaults: range 12, the method's own threshold, no filter.""",
["inputs", "histories"], "every value of every setter and every sequence of setter calls and creations", "Tests try a few values each and never combine them.",
["lib/util.c", "lib/analysis.c"], [("resdet_parameters_set_*", "lib/util.c"), ("resdet_create_analysis", "lib/analysis.c")],
SMC, "model_checking", "All 2^32 float thresholds, all 256 filter values, 192 ranges; all sequences of 3 (4) setter calls out of 26 with an analysis created before each and after; effects observed through results only.", ["resdet_analysis_results"])

prop("C09", "Errors are reported faithfully and outputs are never left set",
"""Every failing call reports the error that fits its cause (missing parameter, invalid image, too big, unsupported, no images, or the negated system error), clears every output it was given and returns no handle; every successful call sets exactly the outputs it was given.
Null is accepted wherever an argument is optional and refused with the parameter error elsewhere; every error value has a distinct description and every method and reader can be looked up by its name.""",
["inputs"], "every combination of given and omitted outputs with every cause of failure, in every public function", "Tests check error codes for single causes with all outputs given.",
["lib/analysis.c", "lib/resdetect.c", "lib/image.c", "lib/util.c"], [("error paths", "lib/*.c"), ("RDErrStr", "lib/util.c")],
SMC, "exploration", "All masks of outputs x all causes x all functions, both backends and under AddressSanitizer; sizes around every integer limit.", ["every public function"])

prop("C10", "Well-formed PGM, PFM and Y4M files decode to what was encoded",
"""For every well-formed binary PGM (any maximum value up to 255), gray or colour PFM (either byte order, several images in a file) and YUV4MPEG2 stream (any listed chroma subsampling, 8 to 16 bits, any number of frames), the library reports the right dimensions and number of frames and returns every pixel as encoded: luma or gray scaled to 0..1, colour averaged, rows top to bottom.
This does not depend on header spelling (white space, comments, parameter order) nor on how the bytes arrive: file, seekable stream or pipe.""",
["inputs", "configurations"], "every image of every format variant and size through every kind of source", "Tests read one file per format.",
["lib/image/pgm.c", "lib/image/pfm.c", "lib/image/y4m.c", "lib/image.c"], [("read_frame", "lib/image/*.c"), ("open", "lib/image/*.c")],
SMC, "exploration", "Encoders written from the format definitions; all maximum values, first data bytes, colour spaces, depths, byte order masks, sample values at every depth, sizes up to 20x20, and header spellings, 19 sizes up to 131073 wide or high, comments, white space and parameters of 0 to 300 (thorough 700) and 33 greater lengths up to 100000, 0 to 300 frames, 5 (thorough 15) formats of frames or files beyond 2^31 pixels or bytes (thorough: 2^32), through up to 7 kinds of source.", ["resdet_read_image_frame", "resdet_read_image"])

prop("C11", "Reading and seeking behave as a cursor over the frames of a file",
"""After opening, any sequence of reads and seeks behaves like a cursor over the list of frames: a read returns the frame at the cursor and advances by one, a seek advances by its offset and reports progress 1, 2, ... once per frame passed.
Reading at the end, or seeking past it, returns false without an error and leaves the cursor at the end; seeking by 0 changes nothing; handles do not affect one another.""",
["histories", "inputs"], "every sequence of reads and seeks on every format from files, seekable streams and pipes", "Tests seek once or twice in one file per format.",
["lib/image/pgm.c", "lib/image/pfm.c", "lib/image/y4m.c", "lib/image.c"], [("seek_frame", "lib/image/*.c"), ("resdet_fskip", "lib/image.c")],
SMC, "model_checking", "The cursor model is run side by side with real handles on all sequences up to 4 (5) operations of 7, then drained, over 9 format variants of up to 4 frames and 4 sources; interleavings of two handles to depth 4 (6); one seek by 0 to 302 frames and more from four places in files of 257 and 300 frames, each followed by reads.", ["resdet_read_image_frame", "resdet_seek_frame"])

prop("C12", "Malformed and truncated image files are reported, never misread or unsafe",
"""A file whose header is cut short or malformed, or whose dimensions, maximum value, depth or colour space are out of range, is refused; a file truncated inside a frame yields the complete frames before it and then an error, also when that frame is skipped, and never looks like a normal end.
The outcome is the same from a file, a seekable stream or a pipe, frame by frame or as a whole, and no input makes the library access memory outside its buffers or run without end.""",
["inputs"], "every prefix, every byte substitution in headers, every combination of malformed header fields", "Tests contain two or three broken files.",
["lib/image/pgm.c", "lib/image/pfm.c", "lib/image/y4m.c", "lib/image.c"], [("header parsing", "lib/image/*.c"), ("resdet_fskip", "lib/image.c")],
SMC, "exploration", "Every strict prefix of files of all formats, all 256 values of every header byte of first and second frames, all token combinations, frames larger than buffers cut at 27 places from either end, 20 formats of 2 to 14 GB a frame cut at 23 places, under AddressSanitizer and UBSan; verdicts only on inputs whose status is beyond doubt, the rest is compared between sources.", ["resdet_open_image", "resdet_read_image_frame", "resdet_read_image"])

prop("C13", "Running out of memory or files is reported and leaves everything consistent",
"""If any request for memory or any opening of a file fails during any call, the call either reports it with a fitting error and cleared outputs or returns the same result as without the failure.
A handle on which a call failed this way remains usable: repeating the call gives what it would have given.
Nothing is leaked, freed twice or left open, and standard input is never closed.""",
["fault_sequences"], "every allocation of every entry point failing alone, in pairs, or from some point on", "No test makes an allocation fail.",
["lib/analysis.c", "lib/image.c", "lib/image", "lib/transform", "lib/methods.c"], [("error paths", "lib")],
ENV, "fault_enumeration", "All single failures, all pairs, and all suffixes, for 6 scenarios over all methods, formats, sources and both backends; allocation calls are intercepted at link time; libraries' internal allocations (FFTW, stdio) are not. Two known findings.", ["every public function"])

prop("C14", "I/O errors are reported as errors, and partial reads are harmless",
"""However the system cuts up reads, decoding gives the same frames. If reading fails at any offset, or a seek fails, every frame returned before is correct and complete and the failure is reported as an error, never as a normal end of the file or as a frame.""",
["fault_sequences"], "every offset of every file at which a read can fail, every failing seek, every piece size", "Tests read from healthy files only.",
["lib/image/pgm.c", "lib/image/pfm.c", "lib/image/y4m.c", "lib/image.c"], [("read_frame_header, read_header", "lib/image"), ("resdet_fskip", "lib/image.c")],
ENV, "fault_enumeration", "All offsets x 4 piece sizes x 9 format variants x all masks of skipped frames, file and pipe, through streams whose read and seek answers are chosen by the explorer.", ["resdet_read_image_frame", "resdet_seek_frame"])

prop("C20", "PNG and JPEG images decode to what was encoded, damage is safe",
"""Every PNG (gray, colour or palette, every bit depth, with or without transparency, interlaced or not) and every JPEG (gray or colour, baseline or progressive, with restarts, subsampled) is read as one frame of the encoded size whose pixels are the encoded ones: gray or luma scaled to 0..1, PNG colour averaged.
It behaves as a file of one frame for every sequence of reads and seeks. A damaged or truncated PNG is refused or reads unchanged, never as something else; damage, failing reads and failing allocations never crash the library or leak, and give the same outcome from a file and a pipe.""",
["inputs", "fault_sequences", "histories"], "every PNG and JPEG variant, size, damaged byte, failing read and failing allocation", "Tests read one PNG and one JPEG.",
["lib/image/libpng.c", "lib/image/libjpeg.c"], [("libpng_reader_*", "lib/image/libpng.c"), ("libjpeg_reader_*", "lib/image/libjpeg.c")],
SMC, "exploration", "Encoders driven variant by variant: 22 PNG kinds with and without interlacing and 24 JPEG kinds over all sizes up to 11x11 (PNG) and 18x18 (JPEG) and large ones up to 65500; every prefix and several substitutions of every byte; every offset of a read error; failing requests; chunks, markers, scan orders and colour spaces that must not matter. JPEG pixels are compared within the tolerance of the coder.", ["resdet_read_image_frame", "resdet_read_image"])

prop("C15", "Files are read by the reader their type calls for",
"""The reader of a file is chosen by the declared type, an extension or a MIME type, and without one by what follows the last dot of its name; upper and lower case of extensions do not matter, the content does not count.
A specific reader takes precedence over a general one; a type no built-in reader supports is refused as unsupported; content that is not what the chosen reader expects is refused as an invalid image.
A reader can be asked for by its name in any case, the list of readers names exactly those that were built, and every entry point makes the same choice.""",
["inputs", "configurations"], "every name, declared type, spelling and content, on every set of readers built in", "Tests open well-named files on one build.",
["lib/image.c", "lib/image_readers.c", "lib/image"], [("resdet_open_image", "lib/image.c"), ("resdet_open_image_with_reader", "lib/image.c"), ("resdet_image_readers", "lib/image_readers.c")],
SMC, "exploration", "All combinations of 8 contents, 21 file names, 21 declared types, all case spellings of 17 extensions and 21 reader names, every string that differs in one character or is cut from a type or name there is, 72 types of the same families, the same contents from standard input, on 21 (thorough 56) builds with different readers; general readers (FFmpeg, MagickWand) are compared with themselves asked for by name.", ["resdet_open_image", "resdet_open_image_with_reader", "resdet_list_image_readers"])

prop("C16", "Concurrent calls on separate handles do not affect one another",
"""Whatever two threads do at the same time with analyses, images and parameters of their own, or with shared pixels and parameters that neither modifies, each gets exactly the results it would get alone, under every interleaving;
no memory is accessed by both threads without synchronisation while one of them writes it.""",
["schedules"], "every interleaving of two operations, for every pair of operations", "Tests are single-threaded.",
["lib/analysis.c", "lib/methods.c", "lib/image.c", "lib/image", "lib/transform", "lib/kissfft", "lib/util.c", "lib/image_readers.c"], [("absence of shared mutable state", "lib")],
"stateless model checking of the real library under a controlled scheduler, with conflict detection over all memory accesses (partial-order argument: executions without conflicting accesses stand for all their interleavings)",
"model_checking", "27 x 27 operations; all single and bounded double interruptions at calls out of the library and accesses to memory not private to the thread; accesses inside FFTW, libpng, libjpeg and libc are not seen, only their effect on results. negative error numbers (strerror) are excluded as documented.", ["every public function"])

prop("C17", "The resdet program reports what the library finds, and errors as errors",
"""For every command line, the resdet program prints in the requested form exactly the sizes and confidences the library finds in the frames selected by -o and -n with the parameters given by -m, -x, -r, -f, -t and -R, reading the file or standard input.
Its exit status is 0 on success and 1 on any error, which is described on standard error with nothing printed as a result; with -v0 it is 0 only if an enlargement was detected in some dimension.
Invalid option values, negative numbers among them, are refused, -f auto chooses by the file's extension, and progress names every frame analysed or skipped once, in order.""",
["inputs", "configurations"], "every combination of options and values, on films and pictures, whole, damaged, empty and missing", "No test runs the program with more than a few options.",
["src/resdet.c"], [("main", "src/resdet.c")],
"stateless model checking of the real program: exhaustive enumeration of command lines within bounds, each judged against the library's own answer for the same frames", "exploration",
"All combinations of 4 methods, 6 verbosities, 3 thresholds, 3 ranges, 2 filters, 3 limits, 3 offsets (thorough: 5, 6, 3, 3, 2, 3, 4) on 3 inputs; every pair of options with every valid and invalid value; 12 inputs x verbosities x file/standard input x spellings of the command line; KISS build with built-in readers.", ["standard output, standard error, exit status"])

prop("C18", "Size limits and default range set at build time hold everywhere",
"""In a build with a size limit, images whose width times height is at most the limit are accepted by every entry point and reader, and larger ones are refused with RDETOOBIG and cleared outputs, including sizes whose product overflows; several images that fit one by one are analysed whatever their number. Dimensions beyond what the transform can count are refused with RDETOOBIG too, whatever memory there is.
Reading all frames at once succeeds if they fit together, and otherwise gives all of them or RDETOOBIG. In a build with another default range, analyses without parameters, with default parameters, and with that range set explicitly agree, and the library names that range.""",
["inputs", "configurations"], "every size on either side of the limit, every reader and entry point, every limit", "Tests run on builds without a limit.",
["lib/resdet_internal.h", "lib/analysis.c", "lib/image.c", "lib/image/y4m.c", "lib/image/pgm.c", "lib/image/pfm.c", "lib/util.c"], [("resdet_dims_exceed_limit", "lib/resdet_internal.h"), ("resdet_read_image", "lib/image.c")],
SMC, "exploration", "15 (thorough 42) limits from 1 to none, with 10 default ranges and both backends; all sizes up to 33x33 (69x69), 22 x 22 sizes up to the largest number, 9 file formats in all sizes up to 9x8 (20x20), and headers announcing 18 x 18 sizes; analyses of 10 (KISS 15) dimensions beyond the transform's count while memory for them can be had; 67174400 images (more than 2^32 samples) in one call. Analyses of more than a few MB are not tried.", ["resdet_create_analysis", "resdetect", "resdet_open_image", "resdet_read_image", "resdetect_file", "resdet_default_range"])

prop("C19", "The compression filter only removes results, and those at its intervals",
"""With a compression filter the result list is the list without it minus some sizes, with the same confidences and order and still ending in the full size; 0 removes nothing, and higher values remove at least as many results.
Which sizes are removed follows from the dimension's length, the range and the value alone: it does not depend on the image, the threshold, the number of frames, the other dimension or how often results are asked for. Those removed are the sizes at intervals of the length divided by 2^value.""",
["inputs", "configurations"], "every length, range, filter value, method, threshold and content", "Tests try one value on a 4 pixel image.",
["lib/analysis.c"], [("generate_dimension_results", "lib/analysis.c")],
SMC, "exploration", "All lengths up to 72 (thorough 130) and 15 larger ones, in both orientations with 1 or 5 lines across, 7 ranges, 4 methods, 3 thresholds, all 32 values. Known finding: the sizes removed are others than documented; anything but the documented and the recorded sets is a violation.", ["resdet_analysis_results", "resdet_parameters_set_compression_filter"])

prop("C23", "Every precision the library can be built with detects the same",
"""With coefficients and intermediate values in single, double or extended precision, either transform backend and either way of taking a sign, every confidence follows the methods' definition as exactly as the precision allows: a build of higher precision decides coefficients that single precision cannot.""",
["inputs", "configurations"], "every image, method and range on every combination of precisions", "Tests run on single precision builds.",
["lib/precision.h", "lib/methods.c", "lib/transform/fftw.c", "lib/transform/kiss_fft.c", "lib/resdet_internal.h"], [("mc, mi, fftwp", "lib/precision.h")],
SMC, "exploration", "8 (thorough 14) builds; spectra over small alphabets, all lengths up to 140 (600), pictures of few frequencies whose other coefficients are nothing but the rounding of their pixels, grids of sizes, ranges and contents, compared with the reference as in C02-C04 with the tolerance of the precision (a millionth of single precision's for double).", ["resdet_analysis_results"])

prop("C21", "Files read through FFmpeg and ImageMagick keep the contract of an image",
"""A file opened through the FFmpeg or MagickWand reader, by name or from standard input, whatever its container, codec, other streams and however its decoder delays or groups frames, yields the frames that its codec defines: in order, each exactly once under any sequence of reads and seeks, then its end, which stays the end.
Frames have the size the image was opened with, and a frame of another size is an error, not a frame; one of another pixel format is converted as if it were alone in the file. Grey files, of integers or floating point, give the same pixels as the built-in readers give, and frames of any pixel format the picture that is in them but for a linear scale.
Every failure of the libraries underneath or of reading the file is reported with its cause (errno codes negated, RDENOMEM or -ENOMEM for memory, RDEINVAL otherwise) by the call in which it happens: opening gives no image, frames are never silently lost, and nothing remains allocated after closing. Damaged files give errors or frames of the image's size.""",
["inputs", "histories", "schedules", "fault_sequences"], "every file, operation sequence, decoder schedule and failing library call or file read", "Tests only open one still image through these readers, if they are built in.",
["lib/image/ffmpeg.c", "lib/image/magickwand.c"], [("resdet_image_reader_ffmpeg", "lib/image/ffmpeg.c"), ("read_frame", "lib/image/ffmpeg.c"), ("resdet_image_reader_magickwand", "lib/image/magickwand.c")],
"stateless model checking of the real readers on the real libraries behind a wrapper layer: exhaustive enumeration of operation sequences, decoder schedules, frame mixtures, failing calls and reads, and byte damage within bounds",
"fault_enumeration", "12 files (PGM, GIF, TIFF, MIFF, APNG, NUT with sound, FFV1, MPEG-2, MPEG-4, H.264, MJPEG; 1 to 7 frames); all sequences of up to 4 (thorough 5) of 8 operations; all hold/release choices at the first 9 (16) opportunities of the decoder; all sequences of 2-3 (4) images of 9 sizes and formats; each library call failing with 3 errors (thorough: and another of the 8 after it) and each file read failing, in two scripts run 6 times; damage at every (quick: most) byte of each file in 3 (5) ways; every pixel format raw video can have and libswscale can make, of 5 bits or more, in 3 (6) sizes; pictures in which one component of colour or all vary, in 4 (6) sizes; pixel formats and pictures that change within a file; 16 sizes up to 100000, up to 300 frames, up to 1000 packets of another stream between two frames.", ["resdet_open_image_with_reader", "resdet_read_image_frame", "resdet_seek_frame", "resdet_close_image"])

prop("C22", "The Python bindings give what the library gives",
"""For images given as a pointer, list, array, ImageBuffer, numpy array of any element type and memory layout with shape (height, width) or (images, height, width), PIL image of any mode and number of frames, or path (str or PathLike),
resdetect and Analysis return exactly the resolutions the library returns for the same rows of floats, method and parameters, or raise the exception that stands for the library's error; parameters the library rejects, or that do not fit their type, raise.
Frames read as ImageBuffer, numpy array or PIL image have the frame's shape and exactly its pixels, and stay as they are when later frames are read; every index of an ImageBuffer within its shape gives that pixel and every other one raises IndexError.
In any order of opening, reading, seeking, analysing, closing and deleting, with any allocation failing, nothing is read or written outside the memory allocated for it or after its release, and everything allocated is released exactly once.""",
["inputs", "histories", "fault_sequences"], "every form of image, size, layout, index, argument, order of operations and failing allocation", "Tests use one square 2x2 image, for which width, height and layout cannot be told apart.",
["bindings/python/resdet.py", "bindings/python/resdet_numpy.py", "bindings/python/resdet_PIL.py", "bindings/python/libresdet_api.py"], [("resdetect", "bindings/python/resdet.py"), ("ImageBuffer", "bindings/python/resdet.py"), ("Analysis", "bindings/python/resdet.py")],
"stateless model checking of the real bindings on a fenced allocator: exhaustive enumeration of inputs, operation sequences and refused allocations within bounds, against the library called directly",
"exploration", "10 (thorough 14) sizes x 1-2 (3) images x 3 (4) contents x 5 methods x 9 parameter sets in 5 plain and up to 60 numpy forms and 4 kinds of path; 10 kinds of PIL image with 1-3 frames; all sequences of 3 (5) reads and seeks in 5 interfaces; all indices of 27 (48) buffer shapes; all sequences of 3 (4) of 16 life cycle operations with each of 6 (9) allocations refused; 9 x 9 x 13 parameter values, 11 paths x 6 types. KISS build with built-in readers; Python 3.12.", ["resdet.resdetect", "resdet.Analysis", "resdet.Image", "resdet.ImageBuffer"])

prop("C24", "imgread writes exactly the frames it reads, or fails",
"""For every image the library can read, the imgread program writes a PFM file that holds its frames in order with exactly their size and pixels and nothing else, also onto an existing file.
If the image cannot be opened, a frame cannot be read, the output cannot be opened or written or an argument is missing, it says so on standard error and its exit status is not 0; frames before the failing one are written whole.""",
["inputs", "fault_sequences"], "every file, whole, truncated or damaged, and every kind of output", "No test runs the program.",
["src/imgread.c"], [("main", "src/imgread.c")],
"stateless model checking of the real program: exhaustive enumeration of files, truncations, damaged bytes and outputs within bounds, each judged against the frames the library reads", "exploration",
"All formats with built-in readers x 6 widths x 5 heights x 0-3 frames x new, longer and shorter existing files; 12 large sizes and 9 numbers of frames up to 300; every truncation and damage at the first 40 (thorough 120) bytes in two ways; 10 inputs x 5 outputs including a full disk. Thorough: also with AddressSanitizer.", ["standard error, exit status, the file written"])

prop("C25", "stat and profile tell of the library's results what their names say",
"""stat prints, for each dimension, the median and fences of the confidences of exactly the sizes the library detects there with the method asked for, and lists every size beyond the fences once, with its confidence, under the fence it is beyond; an unknown method or unreadable image is an error.
profile prints, for each readable image of its dictionary in order and each method, the number of sizes detected beyond and missing from the sizes known, in whatever order these are listed, and the time between its readings of the clock; the totals are the sums of what was printed. Unreadable images are named and left out; an incomplete dictionary is an error.""",
["inputs", "configurations"], "every image and method; every dictionary and course of time", "No test runs the programs.",
["src/stat.c", "src/profile.c"], [("main", "src/stat.c"), ("main", "src/profile.c")],
"stateless model checking of the real programs under a controlled clock: exhaustive enumeration of images, methods, dictionaries and clock readings within bounds, each judged against the library's results", "exploration",
"stat: 14 x 14 (thorough 26 x 26) sizes x 5 contents x 7 methods x 1-2 frames (quick: every third). profile: 6 images x 7 x 7 lists of known sizes; dictionaries of 0-3 images, readable or not, x 4 kinds of gaps x 5 endings x 11 courses of time; dictionaries with images that can be read but not analysed, or lists that are none. Which quantile lies where between its neighbours, and outliers exactly at a fence, are left open. Thorough: also with AddressSanitizer.", ["standard output, standard error, exit status"])

prop("C26", "The JavaScript binding gives what the library gives",
"""resDetect and Analysis return exactly the sizes and confidences the library returns for the same floats, dimensions, method and parameters, whatever kind of array holds them, or throw an Error; an error of the library is thrown as RDError with its number and message.
Parameters that are unknown, out of range or no integers, sizes that are no sizes, and arrays too short for them throw; none is replaced by another value. Nothing is read or written outside the memory allocated for it, the arrays passed in stay as they are, and memory may move at any allocation.
Everything allocated is released exactly once, whether the call succeeds, fails or is refused memory, and an Analysis as long as it is reachable is kept and afterwards destroyed.""",
["inputs", "histories", "fault_sequences", "configurations"], "every image, parameters, order of operations, refused allocation and collection", "Tests detect one image with a few parameters and need a network to be built.",
["bindings/emscripten/resdet.mts", "bindings/emscripten/exported_functions.txt"], [("resDetect", "bindings/emscripten/resdet.mts"), ("Analysis", "bindings/emscripten/resdet.mts"), ("RDParameters.alloc", "bindings/emscripten/resdet.mts")],
"stateless model checking of the real binding on the real library compiled to WebAssembly over a fenced allocator: exhaustive enumeration of inputs, operation sequences, collections and refused allocations within bounds, against the library called directly", "exploration",
"8 x 8 (thorough 20 x 20) sizes x 4 contents x 0-2 (3) images x 6 methods x 11 parameters x 5 kinds of array x fixed or moving memory (quick: every fifth); 14 x 9 x 13 parameter values in every order; 21 x 21 sizes x 10 lengths; each of the first 40 allocations refused once or for good; all sequences of 4 (5) of 11 operations on two analyses with garbage collections. Emscripten itself is not installed: its run time (cwrap, getValue, HEAPF32) is stood in for by a strict implementation of its documentation.", ["resDetect", "Analysis", "Method", "methods", "RDError"])

prop("C27", "The programs do not pass off as a result what they could not compute",
"""When an allocation, the opening of a file, a seek in it, a read at any byte of a file or of standard input, or a write at any byte of imgread's output fails, resdet, imgread and stat end with a status other than 0 and say why on standard error; resdet then prints no result, and imgread's output is the beginning of what it would have written.
profile says so on standard error or ends with a status other than 0, always the latter if its dictionary cannot be read. No fault makes any of them crash, and one that does not come up changes nothing.""",
["fault_sequences", "inputs"], "every allocation, opening, byte read and byte written of every command line", "Tests run no program with a failing allocation or read.",
["src/resdet.c", "src/imgread.c", "src/stat.c", "src/profile.c"], [("main", "src/resdet.c"), ("main", "src/imgread.c"), ("main", "src/stat.c"), ("main", "src/profile.c")],
"stateless model checking of the real programs behind a fault injector: exhaustive enumeration of the single faults (and of running out of memory for good at every allocation) of each command line", "fault_enumeration",
"resdet: 12 sets of options x 5 files (whole, cut short, colour; 1 to 3 frames) x reader chosen or found; imgread: 5 files; stat: 5 files x 5 methods; profile: a dictionary of two images. Every allocation alone and from then on, every opening and seek, every byte of every file, of a pipe and of a seekable standard input. KISS build with built-in readers; thorough: also FFTW and AddressSanitizer.", ["standard output, standard error, exit status, the file written"])

prop("C28", "Every configuration builds the library it describes",
"""For every set of readers left out, transform backend, precisions the documentation allows, default range, size limit and choice of directories, configure, make and make install succeed and install exactly the program, library, header and pkg-config file, each where it was asked for; make uninstall removes them all.
A program built with the flags of that pkg-config file, statically or with the shared library, finds the readers, default range, size limit, precision and transform that were configured, and the version that pkg-config gives; it detects an upscaled image, and reads a file with the reader made for it, else by a general one, else reports it unsupported.
The shared library exports exactly what its header declares.""",
["configurations"], "every combination of configure's options", "Tests run on two configurations, of which nothing is installed.",
["configure", "Makefile", "lib/resdet.pc.in", "lib/image_readers.c", "lib/precision.h", "lib/resdet_internal.h", "include/resdet.h"], [("resdet_image_readers", "lib/image_readers.c"), ("resdet_libversion", "lib/resdetect.c"), ("expand", "configure")],
"exhaustive enumeration of configurations within bounds, each built by the real scripts and judged by what the installed library does", "exploration",
"Sets of 7 readers (quick: external ones with all or no built-in ones and the reverse; thorough: all 128) x backend x shared; 4 x 4 precisions x backend x sign test (thorough x shared); 4 ranges x 3 limits x backend x shared; 16 choices of directories x shared (thorough: also through the environment). gcc on this system, with all external libraries at hand; wasm, Windows and macOS are not covered.", ["configure", "make", "make install", "make uninstall", "pkg-config", "the installed library"])

prop("C29", "visualize.sh marks the size that resdet finds",
"""For every image and combination of options visualize.sh draws exactly two lines, in the colour and thickness asked for, at the detected height from the right edge and at the detected width from the bottom edge of the image, of the length asked for, over the spectrogram made with the options given, into the file named.
If one of the programs it needs is not installed, fails, or detects nothing because the image or an option is invalid, or its own arguments are incomplete, it ends with a status other than 0, draws nothing, and says so if a program or an argument is missing.""",
["inputs", "fault_sequences"], "every image, combination of options, missing or failing program", "No test runs the script.",
["src/visualize.sh", "src/resdet.c"], [("usage", "src/visualize.sh"), ("main", "src/resdet.c")],
"stateless model checking of the real script and the real resdet with recording stand-ins for spec and ImageMagick: exhaustive enumeration of images, options and failures within bounds", "exploration",
"6 images (upscaled in both, one or no dimension, 1 to 3 frames, names with spaces) x 4 lengths x 3 (thorough 4) colours x 2 (3) thicknesses x 4 sets of options to resdet x 2 to spec x 2 outputs (thorough: x order and spelling of options); each of the programs missing or failing; 9 incomplete command lines; 5 errors of resdet.", ["standard output, standard error, exit status, the arguments of spec and magick"])

prop("C30", "The library is indifferent to the program it is in, and leaves it as it was",
"""What a call gives depends only on its arguments, the handles it is given and the files it reads: not on the locale, errno, rounding of the processor, environment, working directory of an open file, umask, signals, size of the stack, contents of fresh memory, alignment of a buffer, standard files that are closed, calls that failed before or handles that are open beside it, whether they were so from the start or change between two calls. An image that is open can be read although its file is renamed.
When a handle is closed or a call without one returns, the process is as it was: locale, floating point state, signals, umask, working directory, environment, descriptors, threads, files, limits, the sequence of its random numbers and memory in use; nothing has been printed, a picture handed over is neither changed nor read beyond its end, and none is written beyond its own.""",
["configurations", "histories"], "every operation in every state of the process, entered before it or in the middle of it", "The tests run in the C locale, in one process of one state, and look only at results.",
["lib/image/pfm.c", "lib/image/pgm.c", "lib/image/y4m.c", "lib/image/libjpeg.c", "lib/image/libpng.c", "lib/image/ffmpeg.c", "lib/image/magickwand.c", "lib/image.c", "lib/analysis.c", "lib/methods.c", "lib/resdetect.c", "lib/util.c"], [("read_scale", "lib/image/pfm.c"), ("resdet_strieq", "lib/image.c"), ("open_image", "lib/image.c"), ("resdet_analyze_image", "lib/analysis.c")],
"stateless model checking of the library: exhaustive enumeration of operations and of process states that differ from the usual one in up to two (thorough: three) respects, compared with the usual state and with a snapshot of the process before", "exploration",
"14 respects of 2 to 8 values (7 locales, global or of the thread; 3 sets of closed standard files; 3 contents of fresh memory; 5 values of errno; rounding and subnormals; a thread of 128 KB; directory; environment; umask; blocked signals; 7 failures before; 2 states of other handles; file renamed; 4 alignments), up to 2 at once (thorough 3 for a seventh of the operations), from the first or the second call on; 37 files and, in a small thread, 35 of growing size read in 10 ways, 22 analyses, 12 other calls; the first use in a process in states that differ in 1 (thorough 2) respects. Under another rounding pixels and confidences may differ by 1e-5. For FFmpeg and ImageMagick, printing, memory, random numbers and renaming are left to them, as are closed standard files for ImageMagick, which aborts by itself then. Builds with FFTW and libjpeg and libpng, with KISS FFT, and with every reader.", ["results, error codes and pixels; setlocale, fegetround, MXCSR, sigaction, sigprocmask, umask, getcwd, environ, descriptors and their offsets, /proc/self/task, mallinfo2, rand, guard pages, bytes printed"])
