# Registry of the monitors: which harness decides which property, with how many cases.
CHECKS = {}
def chk(id, rule, parts, floors=None, technique='', note='', level='exploration', assumptions=None):
    CHECKS[id] = dict(rule=rule, parts=parts, floors=floors or {}, technique=technique, note=note, level=level, assumptions=assumptions or [])

chk('C11', 'random sequences of calls that raise one known error, calls that succeed, and error queries, checked online against a bounded LIFO model; non-trivial: more than one error pending at some point; distinct by operation sequence',
    [dict(name='c11', src=['c11.cpp'], cases=(40000, 3000000), batch=400)],
    floors={'sequences': 500, 'errors_raised': 5000, 'overflows': 500},
    technique='online trace monitor against a bounded LIFO model, ASan/UBSan build',
    note='Held on the generated call sequences; assumes each listed failing call raises exactly its documented error.')

chk('C12', 'random sequences of valid and invalid settings, pushes, pops and unrelated operations, every setting read back after every step and compared with a model of the settings and the attribute stack; distinct by operation sequence; non-trivial: more than 3 steps',
    [dict(name='c12', src=['c12.cpp'], cases=(6000, 400000), batch=200)],
    floors={'sequences': 500, 'valid_sets': 5000, 'invalid_sets': 1000, 'pops': 1000, 'overflows': 20, 'underflows': 100, 'full_depth_sequences': 5},
    technique='online state-machine monitor against a model, ASan/UBSan build',
    note='All 47 readable settings; hints cannot be read back and are only exercised.')

chk('C29', 'as for C12, over the ILUT flags and integers and the ILU parameters',
    [dict(name='c29', src=['c29.cpp'], cases=(10000, 600000), batch=200)],
    floors={'sequences': 500, 'valid_sets': 5000, 'invalid_sets': 1000, 'pops': 1000, 'overflows': 20, 'underflows': 100, 'full_depth_sequences': 5},
    technique='online state-machine monitor against a model, ASan/UBSan build',
    note='Only the state machine of ILUT is built on this platform; renderers are not.')

chk('C09', 'random sequences of generate, bind, delete, clone, edit, failing calls and calls short of memory, checked after every call against a map from live names to contents; all images re-read regularly; non-trivial: more than 4 live names; distinct by operation sequence',
    [dict(name='c09', src=['c09.cpp'], cases=(6000, 300000), batch=100)],
    floors={'sequences': 500, 'binds': 5000, 'deletes': 3000, 'modifications': 5000, 'name_checks': 100000, 'short_of_memory': 100},
    technique='online state-machine monitor against a model of names and contents, ASan/UBSan build',
    note='Names up to about 110000 and impossible ones; contents are small images of every format and type.')

chk('C13', 'random sequences of creating, selecting, editing and rebinding sub-images over three names, checked after every call against a linked model of the trees (selected contents, counts, active numbers, whole trees); non-trivial: something beyond the first sub-image was selected; distinct by operation sequence',
    [dict(name='c13', src=['c13.cpp'], cases=(8000, 500000), batch=200)],
    floors={'sequences': 500, 'selections': 5000, 'bad_selections': 1000, 'creates': 3000, 'edits': 3000},
    technique='online state-machine monitor against a model of the sub-image trees, ASan/UBSan build',
    note='Number 0 is only selected while the base image is selected.')

chk('C10', 'random image trees (palettes, frames, mipmaps, faces, layers, all types) copied into other images or cloned, the whole trees compared, then either side edited or deleted and both compared again; also short of memory; distinct by tree contents',
    [dict(name='c10', src=['c10.cpp'], cases=(8000, 500000), batch=200)],
    floors={'cases': 500, 'comparisons': 5000, 'mutations': 2000, 'trees': 500, 'short_of_memory': 100},
    technique='differential monitor over snapshots of whole image trees, ASan/UBSan build',
    note='')


chk('C07', 'random images of every direct format and type converted to every other by ilConvertImage, ilConvertBuffer, ilCopyPixels and as frame chains, each channel compared with the value computed in double precision, and widening conversions reversed exactly; distinct by image contents and target',
    [dict(name='c07', src=['c07.cpp'], cases=(40000, 3000000), batch=500)],
    floors={'cases': 5000, 'buffers': 500, 'reads': 500, 'frames': 500, 'images': 2000, 'round_trips': 1000, 'pixels': 1000000},
    technique='reference-model monitor on every converted channel, ASan/UBSan build',
    note='Signed types are taken as the library does, as the same bits unsigned. ALPHA to LUMINANCE does not exist.')


chk('C14', 'random boxes (inside, overlapping, outside, negative, huge offsets) read from and written to random images of every format and type in exactly sized heap buffers, every box position and every image pixel compared with the expected value; distinct by image and box',
    [dict(name='c14', src=['c14.cpp'], cases=(60000, 4000000), batch=500)],
    floors={'cases': 5000, 'reads': 2000, 'writes': 2000, 'clipped_reads': 500, 'clipped_writes': 500, 'outside_reads': 100, 'outside_writes': 100, 'bad_requests': 100},
    technique='reference-model monitor on every pixel of box and image, ASan/UBSan build', note='What a read leaves at positions outside the image is not checked.')

chk('C31', 'random source and destination images of every format, type and origin blitted and overlaid at random placements with and without blending; every destination pixel compared with the expected value, the source and a third image with what they were; distinct by the pair and the placement',
    [dict(name='c31', src=['c31.cpp'], cases=(40000, 3000000), batch=500)],
    floors={'cases': 5000, 'covered_pixels': 50000, 'blended_pixels': 5000, 'clipped': 1000, 'outside': 200, 'mixed_origins': 1000, 'bad_requests': 100},
    technique='reference-model monitor on every destination pixel, ASan/UBSan build', note='Blitting an image onto itself is only checked for memory safety and shape.')

chk('C28', 'random images of every format and type, their alpha read in every type and set to random values, and converted with a key colour taken from the image; every pixel compared; distinct by image contents and operation',
    [dict(name='c28', src=['c28.cpp'], cases=(40000, 3000000), batch=500)],
    floors={'cases': 5000, 'gets': 2000, 'sets': 2000, 'keys': 2000, 'keyed_pixels': 2000, 'values': 50000},
    technique='reference-model monitor on every pixel, ASan/UBSan build', note='The colour key applies to conversions of RGB, BGR and indexed images. ilModAlpha is not checked.')


chk('C08', 'random indexed images with every palette layout expanded to every format and type, layouts converted, palettes registered, queried, saved and loaded (JASC, COL, ACT, PLT), palettes applied, and direct images quantised by both quantisers to 2..256 colours; distinct by image, operation and settings',
    [dict(name='c08', src=['c08.cpp'], cases=(20000, 1000000), batch=200)],
    floors={'cases': 3000, 'expansions': 500, 'layouts': 500, 'registers': 200, 'wu': 500, 'neuquant': 300, 'exact': 100, 'identity': 30, 'palette_files': 300, 'applied': 50, 'queries': 1000, 'junk': 100},
    technique='reference-model monitor on every pixel and palette entry, ASan/UBSan build', note='Exactness of quantisation is required when the colours lie in different cells of 8 levels per channel; otherwise each used colour must be the mean of its pixels.')


chk('C21', 'random images of every format, type, origin and depth up to 4 flipped, mirrored, cropped, enlarged in every placement, rotated, waved and channel-swapped, and impossible requests; every output pixel compared byte for byte with the input pixel it is, or the clear colour; distinct by image contents and arguments',
    [dict(name='c21', src=['c21.cpp'], cases=(40000, 3000000), batch=500)],
    floors={'cases': 5000, 'pixels': 1000000, 'outside_pixels': 10000, 'refused': 1000, 'op_flip': 500, 'op_mirror': 500, 'op_crop': 500, 'op_canvas': 500, 'op_swap': 500, 'op_turn': 500, 'op_rotate': 500, 'op_wave': 500},
    technique='reference-model monitor on every output pixel, ASan/UBSan build', note='Rotations by other than right angles are only required to take each pixel from within three pixels of its place.')

chk('C22', 'random images of every format, type and palette layout put through negative, alpha inversion, gamma, contrast, saturation, alienify, sepia, alpha and colour scaling, both equalisers, colour replacement and noise with random parameters and polygonal regions; every channel of every pixel or palette entry compared with the definition; distinct by image contents and operation',
    [dict(name='c22', src=['c22.cpp'], cases=(200000, 6000000), batch=1000)],
    floors={'cases': 50000, 'pixels': 1000000, 'entries': 100000, 'outside': 50000, 'regions': 1000, 'refused': 1000, 'identities': 1000, 'replaced': 1000, 'equalize2': 100},
    technique='reference-model monitor on every channel, ASan/UBSan build', note='Noise is only bounded; region borders are left out within 1.6 pixels.')


chk('C24', 'random images of every format and type blurred, sharpened, embossed, edge-detected, pixelised and convolved with random kernels, iteration counts and polygonal regions; every channel of every pixel compared with the weighted sum computed by an independent model; distinct by image contents, operation and parameters',
    [dict(name='c24', src=['c24.cpp'], cases=(100000, 3000000), batch=1000)],
    floors={'cases': 30000, 'pixels': 1000000, 'regions': 1000, 'constants': 1000, 'op_pixelize': 1000, 'op_sharpen': 1000, 'op_convolve': 1000},
    technique='reference-model monitor on every pixel, ASan/UBSan build', note='Two known findings about which neighbours get a weight are modelled exactly; region borders are left out within 1.6 pixels.')


chk('C23', 'random images of every format, type and depth scaled by every filter to random sizes, by size and by ratio; every channel of every pixel compared with the sampled source pixel, the bilinear value, the separable resampling computed independently, or the range of its neighbours; distinct by image contents, size and filter',
    [dict(name='c23', src=['c23.cpp'], cases=(100000, 3000000), batch=1000)],
    floors={'cases': 30000, 'pixels': 1000000, 'resampled_pixels': 500000, 'constants': 1000, 'identities': 500, 'indexed_exact': 100, 'refused': 100, 'ratios': 500, 'op_nearest': 1000, 'op_bilinear': 1000, 'op_linear': 1000, 'op_lanczos': 500},
    technique='reference-model monitor on every pixel, ASan/UBSan build', note='The linear filter and volumes are only held to the range of the neighbouring pixels; indexed images are compared exactly when their colours can be told apart by the quantiser.')


chk('C30', 'random images of every format, type and depth, some with frames or old mipmaps, given mipmaps under several filters; number, size and kind of the levels checked and every channel of every level compared with the level above; also short of memory; distinct by image contents and filter',
    [dict(name='c30', src=['c30.cpp'], cases=(60000, 2000000), batch=500)],
    floors={'cases': 20000, 'levels': 20000, 'constant_levels': 2000, 'short_of_memory': 200, 'with_frames': 1000},
    technique='reference-model monitor on every pixel of every level, ASan/UBSan build', note='Exact values are required under bilinear filtering of flat images, otherwise the range of the pixels covered.')

chk('C32', 'random pairs of images, equal or differing in one bit, size, type, channel order, depth or origin, compared; distinct pixels of random images counted; the image information read with random frames and mipmaps; distinct by image contents',
    [dict(name='c32', src=['c32.cpp'], cases=(80000, 2000000), batch=500)],
    floors={'cases': 20000, 'equal': 2000, 'different': 5000, 'counted': 5000, 'infos': 5000, 'from_frame': 500},
    technique='reference-model monitor on the answers and the images, ASan/UBSan build', note='Palettes take no part in the comparison.')


chk('C33', 'random sequences of calls that make an image from data, replace its data, register its format, type, origin, palette, duration, offsets and sub-image counts, clear it, save and load it as raw bytes and apply colour profiles, valid and invalid; the image and every query about it compared with a model after each call; distinct by sequence and contents',
    [dict(name='c33', src=['c33.cpp'], cases=(60000, 2000000), batch=500)],
    floors={'cases': 20000, 'steps': 100000, 'made': 10000, 'data_set': 5000, 'registered': 10000, 'palettes': 3000, 'cleared': 3000, 'raw_saved': 3000, 'raw_loaded': 300, 'profiles': 500, 'refused': 10000, 'default_images': 2000, 'queries': 100000},
    technique='reference-model monitor after every call, ASan/UBSan build', note='Colour profiles are compared with lcms2 driven directly; the clear colour is held to two units of an integer type.')

chk('C06', 'random well-formed files of 16 formats made by independent encoders (every bit depth, compression, row order, header variant, palette and optional field the library supports), loaded and compared pixel by pixel with what the format defines; distinct by file contents',
    [dict(name='c06', src=['c06.cpp'], cases=(30000, 1500000), batch=250), dict(name='c06w', src=['c06.cpp'], args=['--wild=1'], cases=(20000, 800000), batch=250)],
    floors={'files': 10000, 'further_frames': 500},
    technique='reference encoders and pixel-exact comparison, ASan/UBSan build', note='JPEG is compared with the reference decoder.')

chk('C27', 'random sequences of registering and removing load and save handlers (several extensions, any case, also of built-in formats), loading and saving by name and by type, against a model of which handler is called with which name and what the call returns; distinct by operation sequence',
    [dict(name='c27', src=['c27.cpp'], cases=(20000, 600000), batch=100)],
    floors={'handler_calls': 10000, 'removals': 1000},
    technique='handlers that record their calls, model-based sequence checking, ASan/UBSan build', note='Save handlers are consulted only for extensions without a built-in writer; after a load handler reports an error the built-in loaders are still tried.')


chk('C15', 'random well-formed files of 16 formats, whole, cut short or with changed bytes, loaded from memory, by name, from a handle at an arbitrary offset behind other data, and through reading callbacks (which also record every open, close and use of a handle), with the type given or detected; success and the whole image tree compared with the load from memory; headerless data too; distinct by file contents',
    [dict(name='c15', src=['c15.cpp'], cases=(40000, 1500000), batch=200), dict(name='c15w', src=['c15.cpp'], args=['--wild=1'], cases=(20000, 800000), batch=200)],
    floors={'whole_loaded': 4000, 'damaged_loaded': 200, 'damaged_refused': 500, 'via_name': 2000, 'via_auto-name': 1000, 'via_handle': 2000, 'via_auto-handle': 1000, 'via_callback-name': 2000, 'via_callback-handle': 2000, 'raw': 200},
    technique='differential monitor between sources, recording callbacks, ASan/UBSan build', note='The automatic type is required for whole files that have a signature or an extension of their format.')


chk('C19', 'random well-formed files of 16 formats, whole and damaged, random and constant bytes and text, detected and validated (29 formats) from memory, by name, from a handle behind other data and through reading callbacks; the type, agreement of the sources, handle position, bound image and error queue checked; names with every extension in any case; distinct by contents',
    [dict(name='c19', src=['c19.cpp'], cases=(60000, 2000000), batch=250)],
    floors={'detected': 5000, 'unknown': 2000, 'via_handle': 10000, 'via_callback': 5000, 'via_name': 5000, 'valid': 5000, 'invalid': 10000, 'names': 1000},
    technique='specification monitor and differential comparison of sources, recording callbacks, ASan/UBSan build', note='Formats without a signature (TGA without footer, WBMP, ICO) are only required to be detected alike from every source.')

chk('C25', 'random well-formed files of 16 formats loaded plainly and again with random origin, format, type and palette-conversion modes from memory, file and handle: every frame, face and level compared with the plain load through an independent conversion oracle; random images held in both origins saved in 15 formats and loaded back; distinct by file, settings or image',
    [dict(name='c25', src=['c25.cpp'], cases=(30000, 1000000), batch=200)],
    floors={'origin_mode': 3000, 'format_mode': 2000, 'type_mode': 2000, 'palette_mode': 2000, 'sub_images': 2000, 'converted': 3000, 'same_format': 3000, 'saved': 2000, 'saved_reloaded': 1500},
    technique='differential monitor against the plain load with an independent conversion oracle, ASan/UBSan build', note='Loads asking for conversions the library does not have (to indices, ALPHA to LUMINANCE) may fail, with an error.')



chk('C26', 'random block data of seven DXT kinds (also volumes and partial blocks) fed through the API, inverted, flipped and decompressed, against an independent block decoder; random images compressed to a buffer, to stored data, to DDS and VTF files (mipmap chains, cube maps, volumes) with both compressors, every block decoded independently and compared with the source (blocks of two representable colours exactly); distinct by data or image',
    [dict(name='c26', src=['c26.cpp'], cases=(20000, 800000), batch=200)],
    floors={'decoded': 1000, 'compressed': 1000, 'dds_files': 900, 'vtf_files': 200, 'cube_maps': 200, 'mip_chains': 400, 'exact_blocks': 4000, 'partial_blocks': 10000, 'transparent_blocks': 2000, 'inverted': 60, 'flipped': 15, 'kept': 200, 'refused': 500, 'round_trips': 100, 'buffers': 200},
    technique='reference block decoder and exactness and error-bound monitor, ASan/UBSan build', note='API decoding covers DXT1/1A/3/5; the other kinds decode from DDS files only.')



chk('C05', 'random images (every format, type and origin; runs and noise; sizes to 4200) saved in 16 formats with random settings (run-length coding, interlacing, progressive, compression hint, quality, texts) and decoded by independent strict decoders written from the specifications, compared with what the file has to hold; DDS and compressed VTF files block by block; distinct by image, format and settings',
    [dict(name='c05', src=['c05.cpp'], cases=(100000, 3000000), batch=500), dict(name='c05-dxt', src=['c26.cpp'], cases=(4000, 150000), batch=200, args=['--op=files'])],
    floors={'pictures': 60000, 'exact': 30000, 'texts': 4000, 'two_colours': 1500, 'flat_jpg': 150, 'refused': 8000, 'dds_files': 1500, 'vtf_files': 300, 'as_bmp': 4000, 'as_tga': 4000, 'as_png': 4000, 'as_tif': 4000, 'as_sgi': 4000, 'as_pcx': 4000, 'as_ppm': 2000, 'as_pgm': 2000, 'as_pbm': 2000, 'as_psd': 4000, 'as_raw': 4000, 'as_hdr': 4000, 'as_jpg': 4000, 'as_wbmp': 4000, 'as_vtf': 3500, 'as_chead': 4000},
    technique='independent strict decoders as oracle over saved files, ASan/UBSan build', note='Pixel values of JPEG are bounded by C04; WBMP pictures are compared for two-colour images.')

chk('C03', 'random images (every format, type and origin; runs and noise; sizes to 4200) saved in 11 lossless formats with random settings to one of 7 sinks, loaded back by content or name, and compared with what that format holds of the image; what was loaded saved and loaded again; distinct by image, format, settings and sink',
    [dict(name='c03', src=['c03.cpp'], cases=(200000, 4000000), batch=500)],
    floors={'exact': 80000, 'again': 50000, 'refused': 15000, 'as_bmp': 12000, 'as_pcx': 12000, 'as_pgm': 5000, 'as_png': 12000, 'as_ppm': 5000, 'as_psd': 12000, 'as_raw': 12000, 'as_sgi': 12000, 'as_tga': 9000, 'as_tif': 12000, 'as_vtf': 11000},
    technique='round-trip monitor against an image model, ASan/UBSan build')


chk('C16', 'random images (every format, type and origin, some with mipmaps or frames) saved in 17 formats to 7 sinks whose bytes have to agree; buffers of every kind of size with guard bytes; existing files with and without permission to overwrite; sinks that run full or fail at a random operation; distinct by image, format and settings',
    [dict(name='c16', src=['c16.cpp'], cases=(15000, 600000), batch=200)],
    floors={'sinks': 60000, 'small_buffers': 40000, 'incomplete': 30000, 'kept_files': 6000, 'overwritten': 6000, 'null': 2000, 'as_bmp': 700, 'as_chead': 700, 'as_dds': 700, 'as_hdr': 700, 'as_jpg': 700, 'as_pbm': 300, 'as_pcx': 700, 'as_pgm': 300, 'as_png': 700, 'as_ppm': 300, 'as_psd': 700, 'as_raw': 700, 'as_sgi': 700, 'as_tga': 500, 'as_tif': 700, 'as_vtf': 500, 'as_wbmp': 700},
    technique='differential and fault-injection monitor over sinks, guard bytes, ASan/UBSan build')


chk('C04', 'random images saved as JPEG (flat, smooth, textured and noisy contents, every quality, sequential and progressive) and as HDR (120 powers of two, exact and inexact mantissas, negative and huge values), loaded back and compared within bounds derived from the quantisation tables and the shared exponent; DDS and VTF files block by block; distinct by image and settings',
    [dict(name='c04', src=['c04.cpp'], cases=(60000, 2000000), batch=200), dict(name='c04-dxt', src=['c26.cpp'], cases=(4000, 150000), batch=200, args=['--op=files'])],
    floors={'jpg': 30000, 'hdr': 18000, 'hdr_exact': 400, 'blocks': 500000, 'flat': 7000, 'modes': 14000, 'qualities': 15000, 'smooth': 1200, 'dds_files': 1500, 'vtf_files': 300},
    technique='error-bound monitor over lossy round trips, ASan/UBSan build')


chk('C02', 'random sequences of 4-40 calls of nearly all public functions (loads of 16 formats, damaged and whole, from 9 sources; saving to 7 sinks; conversions; palettes; DXTC; sub-images; copies; all filters; settings; names), valid and invalid, some with failing allocations; after every call every image reachable from the bound one is walked and read, regularly from every name; distinct by sequence of calls',
    [dict(name='c02', src=['c02.cpp'], cases=(80000, 2500000), batch=100)],
    floors={'ops': 1000000, 'images_checked': 4000000, 'failed_ops': 200000, 'fault_ops': 70000, 'op_load': 40000, 'op_convert': 90000, 'op_save-data': 8000},
    technique='invariant monitor after every call of random histories, fault injection, ASan/UBSan build')


chk('C20', 'one to four random operations (loads of 16 formats damaged and whole, saves, conversions, DXTC, palettes, filters, image calls) with random settings on three random images or trees, performed twice: fresh heap memory and stack hold other bytes, and other operations (failing ones, with failing allocations, under other settings) come in between; every pixel, palette, attribute, returned value, error and file byte has to agree; distinct by result',
    [dict(name='c20', src=['c20.cpp'], cases=(60000, 2500000), batch=100), dict(name='c20-pat', src=['c20.cpp'], config='pat', cases=(40000, 1000000), batch=100)],
    floors={'repeated': 60000, 'histories': 40000, 'ok': 40000, 'failed': 12000},
    technique='differential monitor: same operation over different memory contents and histories, ASan/UBSan build')



chk('C18', 'random sequences of 1-8 calls of nearly all public functions, successful and failing, many with failing allocations, on random image trees; every block of the registered allocator is tracked: none may remain when the images are deleted and the settings reset, none after ilShutDown, none may be released that was not obtained; the sequence is repeated and the rest of the heap and the open files must not grow; distinct by sequence',
    [dict(name='c18', src=['c18.cpp'], cases=(60000, 2000000), batch=100)],
    floors={'ops': 60000, 'failed': 8000, 'ok': 15000, 'shut_down': 5000, 'repeated': 30000, 'faults': 10000},
    technique='conservation monitor over tracked allocations, descriptors and heap growth, fault injection, ASan/UBSan build')



chk('C17', 'one random operation with the k-th allocation failing (once or from then on), compared with the same operation undisturbed; valid files of 16 formats cut at every byte or many, or with the k-th read, seek or open failing, from memory, names, handles and callbacks; headerless data and palette files cut short; saving to a device that refuses everything after some byte; afterwards the operation is repeated undisturbed; distinct by input and point of failure',
    [dict(name='c17', src=['c17.cpp'], cases=(60000, 1500000), batch=100)],
    floors={'alloc_faults': 30000, 'reported': 8000, 'completed': 300, 'cuts': 200000, 'read_faults': 50000, 'load_refused': 300000, 'load_complete': 8000, 'write_limits': 10000, 'headerless': 5000, 'palettes': 3000},
    technique='fault-injection monitor: differential against the undisturbed operation, well-formedness of every image, ASan/UBSan build')


chk('C01', 'files of 47 formats from generators of their own and from the savers, and plain bytes, damaged in 0-12 places (values that stand for sizes, counts and offsets in both byte orders, moved, repeated, missing, foreign and cut parts, numbers in texts; checksums of PNG and MNG repaired), loaded as their own or any other type from memory, handles, names and callbacks at offsets, determined, validated, as palettes, with random settings and failing allocations; after every call the bound image is well formed and can be read completely and worked with, failures are reported, nothing stays allocated, other files still load exactly; sanitizers and a limit of processor time watch all of it',
    [dict(name='c01', src=['c01.cpp'], cases=(60000, 4000000), batch=200)],
    floors={'loaded': 30000, 'refused': 60000, 'images_checked': 100000, 'afterwards': 4000, 'faults': 3000, 'via_auto-memory': 4000, 'via_other-type': 4000, 'via_callback-handle': 4000, 'palette_loaded': 1000},
    technique='ASan/UBSan build under generated hostile files, invariant monitor after every call')

NOT_APPLICABLE = {}
