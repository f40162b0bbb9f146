import os
XRIT = ["facts", "hrit"]
GDAL = ["facts", "hrit", "gdal"]
MSAT = {"name": "msat", "harness": ["toolmain_gdal.cpp"], "groups": GDAL, "extra": ["tools/msat.cpp", "tools/image.cpp"], "magick": True}
IDS_TOOLS = [{"name": n, "harness": [], "groups": ["omtp"], "extra": ["tools/omtp-ids/OpenMTP-IDS_%s.cc" % f]} for n, f in (("idsdebug", "debug"), ("idswrite", "write"), ("idspgm", "to_pgm"), ("idssector", "sector"))]
C26_WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "gmtime localtime asctime ctime strtok mktime tzset getenv setenv unsetenv putenv setlocale".split())]
TSAN_SUPP = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tsan.supp")
PROPS = {
    "C01": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c01.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Synthetic products with random channel, segment size, scan direction, HRV windows, encoding and set of present segments; every compared row or window counts as an evaluation. Distinct situations: layouts, window limits, segment sets, kinds of line and window shapes actually read.",
        "assumptions": ["the external image codec is replaced by an identity codec", "uncompressed samples are 16 bit in host order"],
    },
    "C02": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c02.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Random histories of line reads, window reads and reopenings over one to three open products, with segments damaged, removed and restored in between; every read is compared with what the product's stored samples say. Distinct situations: histories, kinds of fault, and outcomes of reads by state of the segment read.",
        "assumptions": ["the external image codec is replaced by an identity codec"],
    },
    "C03": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c03.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Products holding every raw count, with calibrations around the real ones and beyond; each raster value times scale plus offset is compared with an independent evaluation of the published conversion. Distinct situations: channel, bit depth, presence of counts without a value, and metadata combinations.",
        "assumptions": ["the conversion published for the first satellite (effective radiance, central wavenumbers and band corrections) is the one meant for all of them, as in the code's own table"],
    },
    "C04": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c04.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Directories holding several products with confusable names and stray files, in directories whose own names hold special characters; every product is looked up through every form of its name, and malformed names of fourteen kinds are offered. Distinct situations: name forms by product, directory kinds, kinds of malformed name, products opened.",
        "assumptions": ["one platform field per product: two prologues that differ only there are ambiguous by design and refused"],
    },
    "C05": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c05.cpp", "newdel.cpp"], "groups": XRIT}],
        "rule": "Random well-formed headers: any subset of the nine record kinds in any order, some given twice, with boundary values; every decoded field, presence, the stream position and the printed form are compared with what was stored, in a fresh object and in one that held another header. Distinct situations: record kinds, record sequences, sizes of the line quality record, projections, key groups.",
        "assumptions": ["the line quality record follows the image structure it describes", "annotations hold 61 characters without NUL"],
    },
    "C08": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c08.cpp", "newdel.cpp"], "groups": XRIT}],
        "rule": "All 65536 day counts in the short, long and expanded form with eight times of day each, spread over seven time zones, checked against an independent calendar; pairs of times in order; unsegmented (CUC) times; generalized times over years 1 to 9999. Distinct situations: day ranges, zones, orders, months.",
        "assumptions": ["the printed form is compared when the microsecond and nanosecond fields are below 1000, as the format requires"],
    },
    "C06": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c06.cpp", "newdel.cpp"], "groups": XRIT}],
        "rule": "Every section of prologue and epilogue with random values in every field, decoded from exactly sized blocks into memory with two different former contents; each field and the dump are compared with a field walk written from the format, alone, inside whole files, in objects used before, and with a few bytes exchanged. Distinct situations: sections, amounts of printed coefficients, kinds of file.",
        "assumptions": ["times hold a day count, milliseconds of one day and sub-millisecond parts below 1000, flags hold 0 or 1"],
    },
    "C07": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c07.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Well-formed files of nine kinds damaged in fifteen ways, one to four at a time, and products with one or two damaged, missing or misplaced files; each is read and dumped through the library, the segment reader and the GDAL driver (with and without derived values) under ASan and UBSan with a time limit, twice with different contents of unwritten heap and stack memory. Distinct situations: damages by kind of file, and what became of each read.",
        "assumptions": ["the external image codec is replaced by an identity codec", "a request for more than 1 GB of memory fails with std::bad_alloc"],
    },
    "C09": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c09.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Every spacecraft number from 0 to 69999 and random others, every channel number from -2 to 299 of all known and many unknown spacecraft, every wavelength from -1 to 30 um in steps of a nanometre, every diameter from 1 to 24000, names with one change, products of each channel and spacecraft, and GRIB files of each template made of them; compared with the published tables and among each other. Distinct situations: spacecraft, channels, products, GRIB templates by channel.",
        "assumptions": ["names of spacecraft are the library's own; published nominal wavelengths are matched to 0.06 um"],
    },
    "C10": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c10.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Every date of the first 4000 years (10000 in thorough), random instants of 2002 to 2041 and places with poles, equator and wrapped longitudes, compared with the sun's apparent place (Meeus), with the mean year the formula documents, and with the satellite's direction over a sphere by vectors; and whole lines of the three angle rasters of products of all channels and longitudes. Distinct situations: kinds of year, months by day and night, satellite zenith angles, products.",
        "assumptions": ["the documented approximation places the sun once a day in a mean year: within 0.28 degrees of that, and within 0.9 degrees of the truth", "the satellite angle is the one over a sphere, as documented; pixels within 0.05 % of the limb are not judged"],
    },
    "C11": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c11.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Products of every channel at fixed and random subsatellite longitudes, their derived rasters, crops of both grids and the GRIB files of each template made of them: random pixels, corners and the neighbourhood of the satellite's point go to latitude and longitude and back, places go to pixels, both compared with the CGMS normalised geostationary projection; pixels in space and hidden places must get nothing. Random affine matrices, singular ones, and rasters without georeference. Distinct situations: rasters by longitude and by what of the disk was hit.",
        "assumptions": ["pixel coordinates name pixel centres of the grid whose pixel 1856 (HRV 5568) is below the satellite, as in the code's own tests; the outermost 0.1 % of the limb is not judged"],
    },
    "C12": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c12.cpp", "newdel.cpp"], "groups": GDAL, "tools": [MSAT]}],
        "rule": "Random rasters of seven types with georeference (straight, rotated or none), no-data, scale, offset and metadata, cropped, resized and reordered through GDALTranslate, re-encoded by recode into several formats and reopened, calibrated (also in blocks of whole images), with windows, sizes and bands that do not exist mixed in; every combination of GDALTranslate's options (projected windows, types, scaling, bounds, systems, control points, metadata, no-data, colour expansion, lists of bands, the same object used twice) against what each says; and the msat command with --area, --Area, --around and --resize on products and GRIB files, whose outputs are compared with the source pixel by pixel and with the published projection. Distinct situations: kinds of window, output formats, types, kinds of request.",
        "assumptions": ["resizing takes the nearest pixel, one pixel more or less", "areas whose border grazes the limb are not judged", "what an output format of GDAL itself cannot keep is not judged"],
    },
    "C13": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c13.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Rasters of six types with ten kinds of content (counts, temperatures, wide, narrow, constant, integers around zero, NaN as no-data, values next to the channel's own no-data), random windows of both grids, longitudes, times, spacecraft and channels, written with each template, reopened, and written again from the GRIB file with another one; every pixel is compared with the source within the precision the file declares (read with ecCodes itself), windows with the whole image. Whole xRIT products. Ten kinds of images GRIB cannot hold. Distinct situations: template, content, amount of missing values and packing step.",
        "assumptions": ["GRIB edition 1 keeps minutes and thousandths of a degree", "SEVIRI images on their own grids"],
    },
    "C14": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c14.cpp", "newdel.cpp"], "groups": GDAL, "unjudged_reads_in": "libeccodes"}],
        "rule": "GRIB files of each template, and other GRIB messages, damaged in thirteen ways, one to three at a time, and random bytes with a GRIB signature; each is opened and read under ASan and UBSan with a time limit, several times, with different contents of unwritten memory, watching memory, descriptors, the directory and the file itself, and encoded again. Writes with too little room (any number of bytes), without directory or descriptors, and openings without descriptors. Distinct situations: damages by kind of file, what became of each, kinds of failing write.",
        "assumptions": ["ecCodes itself is not instrumented; what it leaks on its own for the same file, and reads that go wrong inside it on damaged files, are not counted"],
    },
    "C15": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c15.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Rasters of five types, any size, on both SEVIRI grids, rotated, in degrees, by lines or in blocks that do not divide the size, with random scale, offset, no-data and NaN, random times and longitudes, in memory and as GeoTIFF, and whole xRIT products and GRIB files; each derived product is asked for in every way there is (open option, file-name suffix, by segment name, by combining opened datasets) and read by random windows. Every pixel read is compared with the formula evaluated at the pixel's own position (CGMS projection, independent of PROJ), the pixels of each way of asking with those of the others bit by bit, georeference, projection, time, scale and no-data with the source's.",
        "assumptions": ["pixels within 0.01 % of the limb are not judged, nor 3.9 micron reflectances where the satellite is within 0.3 degrees of the horizon", "sun and satellite angles are the library's own (C10 judges them)"],
    },
    "C16": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c16.cpp", "newdel.cpp"], "groups": GDAL}],
        "rule": "Random histories of sources added to reflectance datasets of every channel: fitting ones in any order, together or apart, ones that differ in projection, longitude, georeference, time, width or height or lack one of them, unrelated, unnumbered and empty ones, given away or lent, without scale or offset, with lines that cannot be read. A model says which are to be refused and whether a raster results; the sources count their destructions, the heap is compared over repetitions. Angle and day rasters of incomplete sources, and products opened by name whose channels are missing, damaged, of another longitude or unsupported, or with unknown options.",
        "assumptions": ["of two accepted sources of the same channel either may be used"],
    },
    "C17": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c17.cpp", "newdel.cpp"], "groups": XRIT + ["native"]}],
        "rule": "Native files built byte by byte: every selection of bands, image windows of any number of lines and columns up to the full width, three ways of padding the texts, gaps and order of the sections, random header and trailer records. Every sample, line header, packet header, header and trailer field and text is compared with what was stored; copies are used after the file is closed; the dump is compared with the stored values and repeated over memory filled differently; the greyscale export is parsed and compared.",
        "assumptions": ["sizes and addresses in the file header are decimal numbers followed by a blank, a newline or the end of their field"],
    },
    "C18": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c18.cpp", "newdel.cpp"], "groups": XRIT + ["native"],
                  "tools": [{"name": "nativedump", "harness": [], "groups": XRIT + ["native"], "extra": ["tools/msg-native/nativedump.cpp"]}]}],
        "rule": "Well-formed native files damaged in one to four of sixteen ways: truncated anywhere, texts, numbers, band selections and addresses replaced by hostile ones, packet lengths, lines missing, repeated or longer than the image, random, zeroed and unterminated stretches; also random bytes, missing files and directories. Each is read twice over memory filled differently, looked at and dumped under AddressSanitizer; descriptors and heap are compared, and nativedump's exit status with the library's answer.",
        "assumptions": [],
    },
    "C19": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c19.cpp", "newdel.cpp"], "groups": ["omtp"], "tools": IDS_TOOLS}],
        "rule": "Random images of 0 to 400 records with lines of any length, written by an encoder made from the format guide: read, looked at through every accessor and every kind of line range, written, streamed, copied and rebuilt through the setters, with every byte compared; the 2 and 4 byte integer routines in both byte orders; and the four tools: rewriting, dumping, PGM export of interleaved channels and the sector of images that end with it or go on. Distinct situations: records, lines, ranges, sets of exported channels, sector placements.",
        "assumptions": ["header values fit their 16 bits", "the start field of sectored lines is not judged"],
    },
    "C20": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c20.cpp", "newdel.cpp"], "groups": ["omtp"], "tools": IDS_TOOLS}],
        "rule": "Images damaged in one to four of ten ways, random bytes, directories and missing files: an independent parser says whether the file is complete, and reading must accept exactly those, with that content, whatever unwritten memory holds, without leaking; images whose headers contradict their contents or that cannot be written must be reported; the four tools' exit status must agree, also for images that do not cover the sector. Distinct situations: damages, outcomes, tools by status, image sizes around the sector.",
        "assumptions": ["an image is complete when every counted record, line, sample and padding byte is there"],
    },
    "C21": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c21.cpp", "newdel.cpp"], "groups": ["hri"]}],
        "rule": "Files of eleven of the twelve formats, plain and Tecnavia, written by an encoder of its own with random pixels, label, identification, interpretation, keys and message, for every satellite and in six time zones: each image, accessor, calibration table, field and printed line is compared, in fresh objects and in one used before; the header parts alone in memory of exactly their size; and files damaged in one or two of twelve ways, read over memory filled differently, twice into the same object. Distinct situations: formats by encapsulation and satellite, calibrations, months, damages, outcomes.",
        "assumptions": ["the second half line follows the first without overlap", "format BIVH (reduced VIS lines in B format) is only read for robustness", "calibration formulas and the satellite tables are those the code documents"],
    },
    "C22": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c22.cpp"], "groups": ["utils"]}],
        "rule": "Random strings of bytes, text, escapes, separators and dots in memory that ends with them: base64, URL and C string encoders against references and back through their decoders, well-formed and malformed encodings into the decoders; splitting at separators of zero to four characters with and without empty tokens, every remainder, and joining back; strip, case, prefix and suffix; path functions against references, and in a real directory tree where the normalised path and directory plus file name must lead to the same file. Distinct situations: lengths modulo the block, kinds of tokens, shapes of paths.",
        "assumptions": ["after the last character, splitting at an empty separator may or may not give an empty token", "bytes outside the alphabets may decode to anything"],
    },
    "C24": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c24.cpp", "newdel.cpp"], "groups": ["ini"]}],
        "rule": "Files of 0 to 600 lines in every layout the parser knows (quotes, blanks, comments, both line ends, repeated sections and keys, mixed case), histories of up to 600 changes and removals, including values taken from the dictionary itself and keys of more than a kilobyte: every entry, type, default, section and absent key is compared with a model, the dump with it, and the written file read back; malformed files with over-long lines, NULs, stray symbols and noise read twice over memory filled differently, with descriptors and heap compared. Distinct situations: numbers of entries, lengths of histories, damages.",
        "assumptions": ["lines fit the 1024 characters of the parser, section names have no colon, keys no equal sign", "values with both kinds of quotes that need quoting, and keys of sections that are not entries, cannot be written", "an unquoted empty value is not judged"],
    },
    "C23": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c23.cpp"], "groups": ["utils"],
                  "libs": ["-Wl," + ",".join("--wrap=" + s for s in ("read write pread pwrite close open openat fcntl fstat fstatat fchmod mmap munmap rename unlinkat unlink mkstemp mkdtemp fdopendir readdir pipe dup2 fork waitpid nanosleep kill").split())],
                  "tools": [{"name": "CHILD", "config": "plain", "harness": ["h_c23_child.cpp"]}]}],
        "rule": "Random files and trees (links out of the tree, pipes, sockets, odd and long names) under reading, writing, atomic writing, walking, removal and temporaries, each with every system call failing in turn, with short transfers, with file systems that give no entry types and with directories replaced by links during removal: result, every other path, mode, umask, descriptors and double releases are compared; all queries against stat; histories of operations on descriptors against a model; and children with random arguments, environment, directory, session, redirections of every kind (also from standard and from closed descriptors), passed descriptors, exit codes and signals, which report what they got, with failing calls in parent and child, interrupting signals and time limits. Distinct situations: faults by outcome, kinds of files, operations, redirections, statuses, ways of waiting.",
        "assumptions": ["an operation under a fault may fail or succeed, but must do what it says", "rmtree of a link is not judged", "children that are never waited for stay zombies"],
    },
    "C28": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c28.cpp", "newdel.cpp"], "groups": ["openmtp"],
                  "tools": [{"name": "OMTPINFO", "config": "asan", "groups": ["openmtp"], "extra": ["tools/openmtp/OpenMTP_info.cc"]}]}],
        "rule": "Files of every channel, satellite and processing, from a few pixels to full A and B format, written by an encoder of its own with random contents: every header accessor, line header, pixel, calibration entry, name and time is compared, and the printed report of the library and of the tool; objects are used again for other files; damaged files (cut at any byte, hostile sizes, flipped and random bytes) are read twice over memory filled differently, and the object then for a good file; heap and descriptors are watched over repeated readings. Distinct situations: kinds of files, sizes, damages by outcome.",
        "assumptions": ["images have at most 5000 lines of 5000 pixels", "the offsets of the fields and the calibration formulas are those the code documents", "attitude vectors have three components"],
    },
    "C25": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c25.cpp", "newdel.cpp"], "groups": GDAL, "tools": [MSAT]}],
        "rule": "The msat command, instrumented, on lists of one to four files (rasters of eight types with one to four bands, pictures above the size limit, GRIB files, xRIT products, missing, empty and damaged files) with random combinations of action, format, area, size, bands by number and name, calibration, metadata template and stretch. Each file is first processed alone and judged: exit status, what is shown (size, projection, place, metadata, statistics), names of the files written, pixels, metadata and pictures against the source; then the list must show and write the same, up to the first file that fails. Inputs and templates must not change. Runs with a full standard output, little room for files and damaged rasters must fail or give the whole result. Distinct situations: kinds of request by kind of input, outcomes, faults.",
        "assumptions": ["GDAL's own formats keep what they are given", "viewmore may leave GDAL's statistics file beside the input", "grey levels are compared within one, JPEG pictures loosely", "output that GDAL itself says it wrote is taken as written"],
    },
    "C27": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c27.cpp", "newdel.cpp"], "groups": GDAL + ["native"],
                  "tools": [{"name": "xritdump", "harness": [], "groups": XRIT, "extra": ["tools/hrit/xritdump.cpp"]}, {"name": "XRIT2Image", "harness": [], "groups": XRIT, "extra": ["tools/hrit/XRIT2Image.cpp"], "magick": True},
                            {"name": "nativedump", "harness": [], "groups": XRIT + ["native"], "extra": ["tools/msg-native/nativedump.cpp"]}, {"name": "native2Image", "harness": [], "groups": XRIT + ["native"], "extra": ["tools/msg-native/native2Image.cpp"], "magick": True}]}],
        "rule": "Instrumented builds of xritdump, XRIT2Image, nativedump and native2Image. XRIT2Image: products of segments of any size with segments missing and other products beside them, all options; the printed headers, the name of the picture and every pixel of PGM, PNG and TIFF pictures (turned, overlaid, proportional after normalising, near their place after scaling) are compared with the generated samples. xritdump: the whole output is computed independently, for both grids, one or more files, up to the first bad one. nativedump prints what the library dumps; native2Image pictures are compared with the stored samples. Mismatched, damaged, truncated and missing segments, bad options, full output and little room must end in an error status. A second run gives the same. Distinct situations: options by format, faults, kinds of file.",
        "assumptions": ["segments are scanned from east and south, as MSG does, for XRIT2Image", "JPEG pictures are judged by size only", "a TIFF picture ImageMagick says it wrote is taken as written", "what the library dumps of a native file is judged in C17"],
    },
    "C26": {
        "runs": [{"name": "race", "config": "tsan", "harness": ["h_c26.cpp"], "groups": GDAL + ["native", "omtp", "hri", "openmtp"], "libs": C26_WRAP, "shards": 4,
                  "env": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:detect_deadlocks=0:report_signal_unsafe=0:history_size=4:suppressions=" + TSAN_SUPP}},
                 {"name": "main", "config": "asan", "harness": ["h_c26.cpp"], "groups": GDAL + ["native", "omtp", "hri", "openmtp"], "libs": C26_WRAP}],
        "rule": "Two to seven threads at once, each with datasets of its own (xRIT products whole and incomplete, derived products, GRIB files written and read, crops, resizes and re-encodings, calibration and georeferencing, native, HRI, OpenMTP and OpenMTP-IDS files, times and tables), on files of their own or on the same ones, with delays between steps, under ThreadSanitizer and again under AddressSanitizer; the C library's shared state (broken-down times, environment, locale, tokens) is watched as memory. Everything seen must equal what one thread sees alone afterwards. Histories of up to 30 repetitions of one to three of them must see the same each time and leave no descriptor or memory. Distinct situations: kinds of work that ran together, histories, outcomes.",
        "assumptions": ["GDAL, PROJ and ecCodes are not instrumented: races inside them are not judged", "drivers are registered before the threads start", "a dataset is used by one thread"],
    },
    "C29": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c29.cpp", "newdel.cpp"], "groups": GDAL + ["netcdf"]}],
        "rule": "Both NetCDF drivers over the NetCDF C library. Images of seven sample types, one to three bands, normal and HRV, of four satellites, with and without no data value, scale, unit and channel, are written and compared with the source (size, place, projection, time, satellite, bands, pixels, windows) and with the file as the C library shows it, in four time zones, and written again from what was written. Products the harness writes itself with the C library, with optional attributes present or not, open with what they hold. Requests that cannot be met are refused with an error; grids of latitudes and longitudes keep values and axes; files with attributes missing, of other types, out of range or cut never crash; with too little room nothing incomplete is reported as written. Distinct situations: images, products, refusals, kinds of damage by outcome, room.",
        "assumptions": ["the NetCDF C library is right; the legacy C++ interface over it is a stand-in written from its documentation (harness/stubs/netcdfcpp.h), as it is not installed"],
    },
    "C30": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c30.cpp", "newdel.cpp"], "groups": ["thornsds", "ini"], "libs": ["-lgdal"],
                  "tools": [{"name": "db1image", "harness": [], "groups": ["thornsds", "ini"], "extra": ["tools/thornsds_db1/db1_to_image.cpp"], "magick": True}]}],
        "rule": "Databases of up to eleven channels with any entry missing or quoted, in any order, of 1 to 12 bits, with calibration tables whole and partial, written by an encoder of its own: histories of openings, questions and channels with one object, over memory filled differently; every entry, default, calibrated value, count and printed line is compared. Damaged, cut, missing and misplaced files, hostile numbers of bits, names of any length; descriptors and heap over repetitions. db1_to_image: name, size, order and greys of the picture, overlays, and everything it cannot do. Distinct situations: channels by variable and bits, histories, damages by outcome, pictures.",
        "assumptions": ["the code of HRV radiances is not judged", "counts are stored in the order of the host"],
    },
    "C31": {
        "runs": [{"name": "main", "config": "asan", "harness": ["h_c31.cpp", "newdel.cpp"], "groups": XRIT + ["hri", "openmtp", "thornsds", "ini"], "libs": ["-lnetcdf", "-lgdal"],
                  "tools": [{"name": "XRITNC", "harness": [], "groups": XRIT, "extra": ["tools/hrit/XRIT2NetCDF.cpp"], "libs": ["-lnetcdf"]}, {"name": "HRINC", "harness": [], "groups": ["hri"], "extra": ["tools/hri/HRI2NetCDF.cpp"]},
                            {"name": "MTPNC", "harness": [], "groups": ["openmtp"], "extra": ["tools/openmtp/OpenMTP_to_NetCDF.cpp"], "libs": ["-lnetcdf"]}, {"name": "DB1NC", "harness": [], "groups": ["thornsds", "ini"], "extra": ["tools/thornsds_db1/db1_to_netcdf.cpp"], "libs": ["-lnetcdf"]}]}],
        "rule": "Instrumented builds of XRIT2NetCDF, HRI2NetCDF, OpenMTP_to_NetCDF and db1_to_netcdf, run in an empty directory under six time zones on files from independent encoders: xRIT products of segments of any size, some missing, other products beside them, whole or by area; HRI files of eleven formats; OpenMTP files of formats A and B; ThornSDS databases with entries missing. The files written are read with the NetCDF C library: name, time, satellite, place, scaling, calibration of every count and every pixel are compared with what was encoded. Areas outside the image, mismatched, damaged, truncated and missing inputs end in an error status and a message, without a file; with room for part of the file the status is an error. Distinct situations: channels and formats, refusals by reason, room.",
        "assumptions": ["the NetCDF C library is right; the legacy C++ interface over it is a stand-in (harness/stubs/netcdfcpp.h)", "HRI and OpenMTP pixels are those the library reads, which C21 and C28 judge"],
    },
}

NOT_APPLICABLE = {
}
