#!/usr/bin/env python3
"""Writes properties.jsonl (run from /verif)."""
import json
IL='DevIL/src-IL/src/'; ILU='DevIL/src-ILU/src/'; ILUT='DevIL/src-ILUT/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
      'anchors':{'files':files,'mechanism':[{'name':a,'where':b} for a,b in mech],'observe_at':observe,'state':[{'name':a,'meaning':b,'where':c} for a,b,c in (state or [])],'hook_needed':None}})

p('C01','Loading hostile bytes is memory safe and terminates',
 'Loading or type-detecting any sequence of bytes, as any supported format and through any load entry point (memory, stream, file name), never reads or writes memory outside live objects, never divides by zero, aborts or loops without end. The call returns true with a usable image bound, or false, and the library stays usable afterwards.',
 ['inputs'],'every byte string of every length, every format constant, every load/validate entry point',
 'The tests load only well-formed 603x300 files in ten formats; hostile headers, truncated streams, and the ~35 other loaders are never reached.',
 [IL+'il_io.cpp',IL+'il_files.cpp',IL+'il_rle.cpp',IL+'il_bmp.cpp',IL+'il_targa.cpp',IL+'il_dds.cpp',IL+'il_psd.cpp',IL+'il_gif.cpp'],
 [('per-loader header validation','iCheck* and iLoad*Internal in each il_<format>.cpp'),('bounded lump reader','iReadLump/iGetcLump/iSeekRLump in il_files.cpp'),('allocation of the image before decoding','ilTexImage in il_devil.cpp')],
 ['ilLoadL','ilLoad','ilLoadF','ilLoadImage','ilIsValidL','ilDetermineTypeL'])

p('C02','The bound image is always a well-formed, fully accessible image chain',
 'After any sequence of public calls, successful or failing, every image reachable from the bound name (frames, mipmaps, faces, layers) has bytes-per-pixel equal to channels times bytes-per-channel of its reported type, a reported data size equal to width x height x depth x that, and a data buffer of at least that many readable and writable bytes. Its channel count matches its reported format, and an indexed image has a palette whose size is a whole number of entries covering every index used or safely converted.',
 ['histories','inputs'],'every interleaving of image creation, load, conversion, copy, resize, sub-image, filter and delete calls, including failing ones and allocation failure',
 'Unit tests call a handful of functions once each on valid arguments and never look at the whole chain after a failing call.',
 [IL+'il_devil.cpp',IL+'il_stack.cpp',IL+'il_convert.cpp',IL+'il_states.cpp',IL+'il_manip.cpp',ILU+'ilu_manip.cpp'],
 [('image (re)initialisation keeps sizes in step','ilTexImage_/ilInitImage/ilResizeImage in il_devil.cpp'),('image getters','ilGetIntegerImage/iGetIntegervImage in il_states.cpp')],
 ['ilGetInteger','ilGetData','ilGetPalette','ilActiveImage','ilActiveMipmap','ilActiveFace','ilActiveLayer'],
 [('current image','the image all calls act on','iCurImage in il_internal.cpp')])

p('C03','Saving in a lossless format and loading back returns the same image',
 'For each lossless format the library can write (BMP, TGA, PNG, TIFF, SGI, PCX, PNM, PSD, RAW), an image whose pixel format and type that format can represent comes back from a save followed by a load with the same dimensions and exactly the same pixel values, read in the same orientation. This holds for every size, content, origin and every compression, interlace or RLE setting of the format.',
 ['inputs','configurations'],'every image size (including 1-pixel and odd widths), pixel content, pixel format/type, origin, RLE/interlace/compression setting, per lossless writer',
 'The round-trip tests use one 603x300 picture per format with default settings and a loose comparison.',
 [IL+'il_bmp.cpp',IL+'il_targa.cpp',IL+'il_png.cpp',IL+'il_tiff.cpp',IL+'il_sgi.cpp',IL+'il_pcx.cpp',IL+'il_pnm.cpp',IL+'il_psd.cpp',IL+'il_rawdata.cpp',IL+'il_raw.cpp',IL+'il_dds-save.cpp',IL+'il_rle.cpp'],
 [('writer/loader pair of each format','iSave*Internal / iLoad*Internal'),('run-length compressor','ilRleCompressLine in il_rle.cpp')],
 ['ilSaveL','ilLoadL','ilSave','ilLoad','ilGetData'])

p('C04','Lossy formats reproduce the image within their error bound',
 'Saving as JPEG or Radiance HDR, or as block-compressed DDS, and loading back gives an image of the same dimensions whose pixel values differ from the original by no more than the format allows: relative error of one part in 128 of the brightest channel per pixel for HDR, and for JPEG and DXT an error consistent with the requested quality (smooth images stay within a small distance at high quality); images that HDR or DXT represents exactly come back exactly. A higher JPEG quality never yields a grossly worse picture.',
 ['inputs','configurations'],'every image size, smooth or flat content, quality setting, block format',
 'Tests load back one picture at default quality and compare loosely.',
 [IL+'il_jpeg.cpp',IL+'il_hdr.cpp',IL+'il_dds-save.cpp',IL+'il_dds.cpp'],
 [('JPEG writer with quality setting','iSaveJpegInternal'),('RGBE packing and RLE','il_hdr.cpp'),('block compressors','Compress in il_dds-save.cpp')],
 ['ilSaveL','ilLoadL','IL_JPG_QUALITY','IL_DXTC_FORMAT'])

p('C05','Files written are valid to independent decoders',
 'Every file the library writes in BMP, TGA, PNG, TIFF, SGI, PCX, PNM, PSD, HDR, JPEG, DDS or WBMP conforms to that format: a decoder written from the format specification alone accepts it and obtains the image that was saved, converted to the samples the format can hold (within the codec error for JPEG, HDR and DDS; black and white for WBMP and PBM).',
 ['inputs','configurations'],'every image size, format, type, origin and writer setting',
 'Tests only read files back with the same library, so symmetrical mistakes in writer and loader cancel out.',
 [IL+'il_bmp.cpp',IL+'il_targa.cpp',IL+'il_png.cpp',IL+'il_tiff.cpp',IL+'il_sgi.cpp',IL+'il_pcx.cpp',IL+'il_pnm.cpp',IL+'il_psd.cpp',IL+'il_hdr.cpp',IL+'il_wbmp.cpp',IL+'il_dds-save.cpp'],
 [('writers','iSave*Internal'),('little/big endian writers','SaveLittle*/SaveBig* in il_endian.h')],
 ['ilSaveL','ilSave'])

p('C06','Well-formed files decode to the image their specification defines',
 'A file that conforms to a supported format specification, produced by any encoder, loads with the dimensions and pixel values that the specification defines, whatever bit depth, compression, row order, header variant, palette or optional field it uses among those the format defines and the library supports.',
 ['inputs'],'every conforming file of each supported variant: BMP 1/4/8/16/24/32-bit, RLE4/8, top-down; TGA types 1,2,3,9,10,11 in all depths and origins; PCX; PNM P1-P6; PNG; GIF; SGI; PSD; DDS; ICO; SUN; XPM; WBMP and others',
 'Tests read only files this library wrote itself, plus a few unusual samples that are not compared with anything.',
 [IL+'il_bmp.cpp',IL+'il_targa.cpp',IL+'il_pcx.cpp',IL+'il_pnm.cpp',IL+'il_gif.cpp',IL+'il_sgi.cpp',IL+'il_psd.cpp',IL+'il_dds.cpp',IL+'il_icon.cpp',IL+'il_sun.cpp',IL+'il_xpm.cpp',IL+'il_wbmp.cpp',IL+'il_iff.cpp',IL+'il_ilbm.cpp',IL+'il_dcx.cpp',IL+'il_pix.cpp',IL+'il_hdr.cpp'],
 [('loaders','iLoad*Internal')],['ilLoadL','ilGetData','ilGetPalette'])

p('C07','Converting between pixel formats and types preserves what it can represent',
 'Converting an image (or a pixel buffer) between any two non-indexed pixel formats and data types gives, for every pixel, the channel values re-ordered, scaled from the full range of the old type to the full range of the new, with missing alpha opaque, grey replicated, and colour-to-grey as the documented luma weights, within one unit of rounding of the destination type. Signed integer types carry the same bits as the unsigned ones of their size. Widening and coming back is exact, dimensions, depth and origin are kept, and the one unsupported pair (alpha to luminance) fails and changes nothing.',
 ['inputs'],'every pair of source and destination format and type, every pixel value, every size including depth > 1',
 'The unit test converts a few pixels for a subset of pairs; 8 types x 7 formats x values is far beyond it.',
 [IL+'il_convert.cpp',IL+'il_convbuff.cpp',IL+'il_fastconv.cpp'],
 [('buffer conversion by type switch and format switch','ilConvertBuffer/iSwitchTypes in il_convbuff.cpp'),('image conversion','iConvertImage/ilConvertImage in il_convert.cpp')],
 ['ilConvertImage','ilGetData','ilCopyPixels','ilSetPixels'])

p('C08','Palettes: indexed images keep their colours through every conversion',
 'Converting an indexed image to a direct-colour format gives each pixel the colour its palette defines; converting the palette layout keeps every entry; converting a direct-colour image to indexed gives valid indices into at most the requested number of colours, exactly the original colours when there are few enough and they lie in different cells of eight levels per channel (Wu quantiser), and otherwise a bounded error. Palette queries report the entry count, layout and bytes of the palette, and palette files written are read back with the same entries.',
 ['inputs','configurations'],'every palette layout and size, every index image, every target format, every quantiser setting and colour count',
 'No unit test converts palettes or checks quantised output.',
 [IL+'il_pal.cpp',IL+'il_convert.cpp',IL+'il_neuquant.cpp',IL+'il_quantizer.cpp'],
 [('palette conversion','iConvertPalette/ilConvertPal/ilCopyPal'),('quantisers','iNeuQuant, iQuantizeImage')],
 ['ilConvertImage','ilConvertPal','ilRegisterPal','ilGetPalette','ilGetInteger(IL_PALETTE_*)','ilSavePal','ilLoadPal'])

p('C09','Image names are allocated, bound and released without confusion',
 'Generated image names are non-zero, unique among live names and usable until deleted; binding makes a name current (creating it on first use) and later calls act on exactly that image; deleting a name frees only its image, makes it invalid, and makes image 0 current if it was current. The default image 0 can never be deleted, and the contents of images not bound are never changed by calls on the bound one.',
 ['histories'],'every sequence of generate, bind, delete, is-image and content-changing calls, including unknown, repeated and huge names',
 'The unit tests generate and delete a few names in one order.',
 [IL+'il_stack.cpp',IL+'il_devil.cpp'],
 [('image stack and free-name list','ilGenImages/ilBindImage/ilDeleteImages in il_stack.cpp')],
 ['ilGenImages','ilGenImage','ilBindImage','ilDeleteImages','ilDeleteImage','ilIsImage','ilGetInteger(IL_CUR_IMAGE)'],
 [('image stack','name to image map','ImageStack in il_stack.cpp'),('free names','released names to hand out again','FreeNames in il_stack.cpp')])

p('C10','Copies and clones are exact and independent',
 'Copying a named image into the bound one, or cloning the bound image, yields a single image with the same dimensions, format, type, origin, palette, data, offsets, duration and colour profile as the original; frames, mipmaps, faces and layers attached to the original are not part of the copy, and any the target had are gone. The original, other images and the binding are unchanged, and a copy that fails leaves the target as it was. Afterwards neither is affected by changes to or deletion of the other.',
 ['histories','inputs'],'every image shape (palette, sub-images, 3D, any type) and every later mutation or deletion of either side',
 'The clone test checks one flat image for success only.',
 [IL+'il_devil.cpp',IL+'il_stack.cpp'],
 [('deep copy','ilCopyImageAttr/ilCopyImage/ilCloneCurImage/ilCopyImage_ in il_devil.cpp')],
 ['ilCopyImage','ilCloneCurImage','ilGetData'])

p('C11','The error queue reports errors faithfully and boundedly',
 'Errors raised by failing calls are returned by the error query most recent first, each exactly once, and then IL_NO_ERROR; successful calls add none to it. When more than the queue capacity are pending the oldest ones are dropped, the newest kept, and nothing outside the queue is touched; error strings exist for every error code of the utility library.',
 ['histories'],'every sequence of error-raising calls and error queries, of any length',
 'The tests poll the error state only for "no error".',
 [IL+'il_error.cpp',ILU+'ilu_error.cpp'],
 [('32-entry error stack','ilSetError/ilGetError in il_error.cpp')],
 ['ilGetError','iluErrorString'])

p('C12','State set is the state read, and push/pop restores it',
 'Every documented mode and integer, hint or string setting reads back the value last validly set; setting an invalid value raises an error and changes nothing. Saving the attribute stack and restoring it brings back exactly the saved groups of settings whatever was changed in between, nesting up to the documented depth, with an error on overflow and underflow.',
 ['histories'],'every sequence of enable/disable/set/get/push/pop calls with valid and invalid arguments',
 'The unit test sets a few integers once and never pushes and pops under change.',
 [IL+'il_states.cpp'],
 [('state stack','ilStates[], ilPushAttrib/ilPopAttrib'),('setters with validation','ilSetInteger, iEnable, ilOriginFunc, ilFormatFunc, ilTypeFunc, ilCompressFunc, ilHint, ilSetString')],
 ['ilGetInteger','ilGetBoolean','ilIsEnabled','ilIsDisabled','ilGetString','ilPushAttrib','ilPopAttrib'],
 [('ilStates','stack of attribute groups','il_states.cpp')])

p('C13','Sub-image navigation selects exactly the addressed sub-image',
 'With the base image selected, selecting frame, mipmap, face or layer number n makes later calls act on exactly the n-th such sub-image and number 0 stays at the base; the counts reported for the selected image are the numbers that can be selected from it; selecting a number out of range fails with an error and leaves the selection unchanged. Re-binding the name returns to the base image, and creating n sub-images makes exactly n selectable, initially blank ones.',
 ['histories'],'every shape of sub-image tree and every sequence of create/select/modify/rebind calls',
 'No test builds mipmaps, faces or layers and walks them.',
 [IL+'il_stack.cpp',IL+'il_register.cpp',IL+'il_states.cpp'],
 [('active sub-image walk','ilActiveImage/ilActiveMipmap/ilActiveFace/ilActiveLayer'),('sub-image creation','ilCreateSubImage, ilRegisterNumImages/MipNum/NumFaces')],
 ['ilActiveImage','ilActiveMipmap','ilActiveFace','ilActiveLayer','ilCreateSubImage','ilGetInteger(IL_NUM_*)'])

p('C14','Pixel rectangles are read and written exactly, and only inside bounds',
 'Reading a box of pixels returns, for each position inside both the box and the image, that pixel converted to the requested format and type, laid out with the box as pitch; writing a box changes exactly the image pixels under the box to the given ones and no others. Offsets or sizes that reach beyond the image (also negative ones for writing) are clipped, in one, two and three dimensions, and never touch memory outside the image or the caller buffer.',
 ['inputs'],'every image size and depth, box offset and extent (inside, overlapping, outside, negative), format and type of image and buffer',
 'The unit test copies the whole image once.',
 [IL+'il_manip.cpp'],
 [('1D/2D/3D copy and set','ilCopyPixels*, ilSetPixels*')],['ilCopyPixels','ilSetPixels','ilGetData'])

p('C15','The same bytes load the same way from every source',
 'Loading the same encoded image from a memory block, a named file, an open file handle at any starting offset, or user-supplied read callbacks gives the same result: the same success, dimensions, format and pixels; automatic type detection and the explicit type agree, and user callbacks that return short counts at end of data are treated as end of data. File handles are left open and files are closed when loading by name.',
 ['inputs','configurations'],'every format and file, every entry point, every handle offset, with and without explicit type',
 'The tests load by file name only.',
 [IL+'il_io.cpp',IL+'il_files.cpp',IL+'il_internal.cpp'],
 [('input redirection','iSetInputFile/iSetInputLump, iread/igetc/iseek/itell')],
 ['ilLoad','ilLoadF','ilLoadL','ilLoadFuncs','ilLoadImage','ilSetRead'])

p('C16','The same image saves the same way to every sink, within the given buffer',
 'Saving an image to a named file, an open handle, user write callbacks or a memory buffer produces the same bytes; saving to memory returns the number of bytes produced and never writes beyond the stated buffer size, and the size query returns a number of bytes that is sufficient. An existing file is only replaced when overwriting is enabled, and a save that cannot be completed reports failure.',
 ['inputs','configurations','fault_sequences'],'every writable format, image, sink and buffer size from 0 to beyond the needed size',
 'The tests save by file name only.',
 [IL+'il_io.cpp',IL+'il_files.cpp',IL+'il_size.cpp'],
 [('output redirection','iSetOutputFile/iSetOutputLump/iSetOutputFake'),('bounded lump writer','iWriteLump/iPutcLump'),('size query','ilDetermineSize')],
 ['ilSave','ilSaveF','ilSaveL','ilSaveFuncs','ilSaveImage','ilDetermineSize'])

p('C17','Failures of memory, reading or writing are reported, not fatal',
 'If any memory allocation, read, seek or write fails during a load, save, conversion or filter, the call returns failure (or completes correctly without the resource), an error is queued, no memory is corrupted, and the library and all other images remain usable. A load that fails because the file is cut short never reports success with fewer pixels than it claims.',
 ['fault_sequences','crash_points'],'every operation, with the k-th allocation failing for every k, the input cut at every byte, and the output refusing after every byte',
 'The tests never inject a fault.',
 [IL+'il_alloc.cpp',IL+'il_files.cpp',IL+'il_io.cpp',IL+'il_devil.cpp',IL+'il_convert.cpp'],
 [('checked allocation','ialloc in il_alloc.cpp'),('short-read errors','iReadFile/iReadLump')],
 ['ilSetMemory','ilLoadL','ilSaveFuncs','ilGetError'])

p('C18','Memory is balanced: everything allocated is released exactly once',
 'After deleting the images created and shutting down (or returning to the previous state), every block the library obtained from the registered allocator has been given back to the registered release function exactly once, for successful and failing operations alike; repeated load/convert/save/delete cycles do not grow memory.',
 ['histories','inputs'],'every sequence of public operations, every file loaded, ok or not',
 'No test counts allocations.',
 [IL+'il_alloc.cpp',IL+'il_devil.cpp',IL+'il_stack.cpp',IL+'il_internal.cpp'],
 [('registered allocator pair','ilSetMemory/ialloc/ifree'),('image destruction','ilCloseImage')],
 ['ilSetMemory','ilDeleteImages','ilShutDown'])

p('C19','Type detection is correct and leaves the source untouched',
 'Detecting the type of, or validating, a well-formed file of a format with a signature reports that format (and validation accepts it), the same from memory, handle, callback or file name; names map to the type of their extension regardless of case. Detection neither moves the read position of a handle nor changes the bound image, and data of no known format is reported as unknown.',
 ['inputs'],'every supported format, every conforming file, every extension in any case, arbitrary junk',
 'The tests only detect implicitly while loading their own files.',
 [IL+'il_io.cpp',IL+'il_files.cpp'],
 [('validators restore position','iIsValid* in each il_<format>.cpp'),('extension table','ilTypeFromExt')],
 ['ilDetermineType','ilDetermineTypeF','ilDetermineTypeL','ilTypeFromExt','ilIsValid','ilIsValidF','ilIsValidL'])

p('C20','Results depend only on inputs and settings, never on stale memory or history',
 'Performing an operation (load, convert, save, filter) with the same input and the same settings gives identical results every time: independent of what was loaded or failed before in the process, and of what uninitialised memory happens to contain. In particular no byte of heap or stack garbage appears in pixels, palettes or saved files.',
 ['inputs','histories'],'every input file or image and operation; every preceding history; every initial content of fresh memory',
 'One run of a test sees one memory content and one history.',
 [IL+'il_files.cpp',IL+'il_internal.cpp',IL+'il_devil.cpp',IL+'il_bmp.cpp',IL+'il_pcx.cpp',IL+'il_gif.cpp'],
 [('full initialisation of image and header structures','ilInitImage, header structs of each format')],
 ['ilSetMemory','ilLoadL','ilSaveL','ilGetData'])

p('C21','Geometric operations move pixels exactly as named',
 'Flip, mirror, crop, canvas enlargement, channel swap and 3D variants relocate pixels exactly: each output pixel is the named input pixel (or the clear colour outside; index 0 of indexed images), dimensions change exactly as stated, and palette, origin, format and type are kept. Flip and mirror are their own inverse, rotation by multiples of 90 degrees only moves pixels and other angles take each pixel from its rotated place, within rounding. They hold for every type, format, depth and size, and an impossible request fails and leaves the image unchanged.',
 ['inputs'],'every image size/depth/format/type, every crop box and canvas placement',
 'The tests run each once on a colour photo and compare with a loose threshold.',
 [ILU+'ilu_manip.cpp',ILU+'ilu_rotate.cpp',ILU+'ilu_main.cpp',IL+'il_manip.cpp'],
 [('crop and canvas','iluCrop, iluEnlargeCanvas, iluEnlargeImage'),('flip and mirror','iluFlipImage, iluMirror'),('rotate','iluRotate')],
 ['iluFlipImage','iluMirror','iluCrop','iluEnlargeCanvas','iluRotate','iluSwapColours'])

p('C22','Point operations apply their formula to every pixel and nothing else',
 'Negative (of every channel), alpha inversion, gamma, contrast, saturation, sepia, alienify, equalise, replace-colour, noise and scaling of alpha or colours give each pixel (each palette entry of an indexed image) the value their definition yields from it and, where defined, from the image statistics, within rounding. Dimensions, format, type, other images and pixels outside the active region (negative, noise) stay unchanged. Identity parameters leave the image unchanged, negation applied twice restores it, and an image of a kind that an operation does not support makes it fail and change nothing.',
 ['inputs','configurations'],'every image size, format, type and palette, every parameter value',
 'The tests compare one photo per operation with a loose threshold.',
 [ILU+'ilu_manip.cpp',ILU+'ilu_filter.cpp',ILU+'ilu_internal.cpp',ILU+'ilu_region.cpp'],
 [('per-pixel loops','iluNegative, iluGammaCorrect, iluContrast, iluSaturate*, iluAlienify, iluReplaceColour')],
 ['iluNegative','iluGammaCorrect','iluContrast','iluSaturate1f','iluSaturate4f','iluAlienify','iluReplaceColour','iluEqualize'])

p('C23','Scaling gives the requested size and interpolates within the image range',
 'Scaling to any size yields exactly that size; scaling to the same size is the identity and a constant image stays constant under every filter; nearest sampling only produces existing pixel values at the sampled positions, and linear/bilinear sampling stays between the minimum and maximum of the neighbouring source pixels; the box, triangle, bell, B-spline, Lanczos and Mitchell filters give their weighted sums when enlarging flat 8-bit images and refuse others. This holds for every format, type and dimension (1D, 2D, 3D, indexed), enlarging or reducing.',
 ['inputs','configurations'],'every source and target size, format, type, content and scaling filter',
 'The tests scale one photo with each filter once.',
 [ILU+'ilu_scale.cpp',ILU+'ilu_scale2d.cpp',ILU+'ilu_scale3d.cpp',ILU+'ilu_scaling.cpp'],
 [('scaler dispatch','iluScale/iluScale_'),('separable resampler','zoom in ilu_scaling.cpp')],
 ['iluScale','iluEnlargeImage','iluImageParameter'])

p('C24','Neighbourhood filters are local, bounded and exact on constants',
 'Blur, Gaussian blur, sharpen, edge detection, emboss, pixelise and custom convolution keep dimensions, format and type (pixelising an indexed image gives its colours directly); on a constant image averaging filters leave it constant within one unit per pass and edge filters give zero edge inside. Each output pixel depends only on its neighbourhood and equals the magnitude of the stated weighted sum plus bias, clamped to the range of a byte (corners and pixels outside the active region are copied; other types are filtered as bytes). Applying n iterations equals applying one iteration n times, and pixelised blocks are the mean of their pixels.',
 ['inputs','configurations'],'every image content, size (from 1x1), format and type, iteration count and kernel',
 'One photo per filter with a loose threshold.',
 [ILU+'ilu_filter.cpp',ILU+'ilu_filter_rcg.cpp',ILU+'ilu_manip.cpp'],
 [('3x3 convolution','Filter in ilu_filter.cpp'),('pixelize','iluPixelize')],
 ['iluBlurAvg','iluBlurGaussian','iluEdgeDetectP','iluEdgeDetectS','iluEdgeDetectE','iluEmboss','iluSharpen','iluPixelize','iluConvolution'])

p('C25','The requested origin and format modes are honoured on load',
 'With origin mode enabled every load delivers an image in that origin showing the same picture as without it; with format or type mode enabled every load delivers that format or type with the same colours; with palette conversion enabled no loaded image is indexed. The same holds for every frame, and for saving: the stored picture is the same whatever origin the image is held in.',
 ['inputs','configurations'],'every file and every combination of origin, format, type and palette-conversion modes',
 'The tests run with default modes only.',
 [IL+'il_internal.cpp',IL+'il_convert.cpp',IL+'il_states.cpp'],
 [('post-load fix-up','ilFixImage/ilFixCur')],['ilOriginFunc','ilFormatFunc','ilTypeFunc','ilEnable(IL_CONV_PAL)','ilLoadL','ilSaveL'])

p('C26','Block-compressed data decodes and encodes as DXT defines',
 'Decoding DXT1/3/5 blocks, from DDS and VTF files or data fed through the API (DXT2/4, ATI1N, 3Dc and RXGB from DDS files), gives the texels the block definition yields, including for sizes that are not multiples of four, volumes, cube maps and mipmaps. Compressing gives a buffer of exactly the defined size, the number of bytes the size query announces, whose decoded texels stay within the range of their block around the source and which the built-in compressor makes exact for blocks with at most two representable colours and alpha values. Compressed data that is kept is returned unchanged, inverting its alpha and flipping it (heights of a multiple of four) does to the texels what it says, and bad requests fail with an error and change nothing.',
 ['inputs'],'every block bit pattern, image size and block format',
 'One DDS sample at 603x300.',
 [IL+'il_dds.cpp',IL+'il_dds-save.cpp',IL+'il_squish.cpp'],
 [('block decoders','DecompressDXT1/3/5, DecompressAti1n/3Dc'),('block encoder','Compress/ilCompressDXT'),('retrieval','ilGetDXTCData/ilDxtcDataToImage')],
 ['ilGetDXTCData','ilTexImageDxtc','ilDxtcDataToImage','ilSurfaceToDxtcData','ilLoadL'])

p('C27','Registered handlers are consulted for exactly their extension',
 'A load or save handler registered for an extension is called, once and with the file name, when a file of that extension (in any case) is loaded by name with unknown type (before the built-in loaders), or saved so and no built-in writer has the extension; success makes the call succeed, an error code it returns is raised and fails the save. Registering the same extension again does not replace or duplicate it, removing it stops it being called, and removing an unknown one fails without effect.',
 ['histories'],'every sequence of register, remove, load and save calls over any set of extensions',
 'No test registers a handler.',
 [IL+'il_register.cpp',IL+'il_io.cpp'],
 [('handler lists','ilRegisterLoad/ilRemoveLoad/iRegisterLoad')],['ilRegisterLoad','ilRegisterSave','ilRemoveLoad','ilRemoveSave','ilLoadImage','ilSaveImage'])

p('C28','Alpha operations touch exactly the alpha channel',
 'Extracting the alpha of an image returns one value per pixel equal to its alpha converted to the requested type, opaque for images without an alpha channel (indexed ones included); setting alpha gives every pixel the requested alpha, adds an alpha channel when there is none, and leaves colours as they were. With the colour key enabled, converting an RGB or BGR image to a format with alpha (on load as well) makes exactly the pixels of the key colour transparent; for an indexed image exactly the palette entry that the key names by its alpha component.',
 ['inputs'],'every format, type, size and alpha value',
 'No unit test covers alpha calls beyond success.',
 [IL+'il_manip.cpp',IL+'il_convert.cpp'],
 [('alpha access','ilGetAlpha/ilSetAlpha/ilModAlpha'),('add/remove alpha','ilAddAlpha/ilRemoveAlpha/ilAddAlphaKey')],['ilGetAlpha','ilSetAlpha','ilModAlpha','ilKeyColour'])

p('C29','The toolkit state of ILU and ILUT reads back what was set and restores on pop',
 'Every ILUT mode and integer setting and every ILU image parameter reads back the value last validly set, an invalid one raises an error and changes nothing, and pushing then popping ILUT attributes restores the saved groups, with errors on stack overflow and underflow.',
 ['histories'],'every sequence of ILUT enable/disable/set/get/push/pop and ILU parameter calls',
 'No ILUT test exists.',
 [ILUT+'ilut_states.cpp',ILU+'ilu_states.cpp'],
 [('ILUT state stack','ilutPushAttrib/ilutPopAttrib'),('ILU parameters','iluImageParameter')],['ilutGetInteger','ilutIsEnabled','ilutPushAttrib','ilutPopAttrib','iluGetInteger'])

p('C30','Mipmap building yields a complete chain of correctly sampled levels',
 'Building mipmaps on an image gives the full chain of successively halved levels down to one pixel, each selectable, each of size max(1, previous/2), with the base image and its frames unchanged and any former mipmaps gone. Each level is sampled from the one above with the current filter: every value lies in the range of the pixels it covers, and a constant image has constant levels; the levels of an indexed image hold its colours directly. A build that fails leaves no mipmaps.',
 ['inputs'],'every image size, format, type',
 'The test builds once on a photo and does not check the levels.',
 [ILU+'ilu_mipmap.cpp'],[('mipmap builder','iluBuildMipmaps')],['iluBuildMipmaps','ilActiveMipmap','ilGetInteger(IL_NUM_MIPMAPS)'])

p('C31','Blitting and overlaying composite exactly the covered pixels',
 'Blitting or overlaying a source image onto the bound one changes exactly the destination pixels covered by the source rectangle at the given position, to the source pixels (or, with alpha blending on, to the alpha-weighted mix), clipping everything outside either image, including negative positions. The source image and all other pixels stay unchanged, and the bound image remains bound.',
 ['inputs'],'every pair of image sizes, formats and origins, every placement including partially and fully outside, blending on or off',
 'The unit test blits one rectangle inside the image.',
 [IL+'il_devil.cpp'],[('blit','ilBlit'),('overlay','ilOverlayImage')],['ilBlit','ilOverlayImage'])

p('C32','Image comparison and statistics report the truth',
 'Comparing the current image with a named one says equal exactly when dimensions, format, type, origin and every pixel are equal (palettes take no part); counting colours returns the number of distinct pixel values; the image information reports the identity, shape, data, palette and sub-image counts of the current image. None of these changes any image or which one is current.',
 ['inputs'],'every pair of images and every single-pixel difference',
 'The tests use similarity only as a loose oracle for other operations.',
 [ILU+'ilu_manip.cpp',ILU+'ilu_utilities.cpp'],[('comparison','iluCompareImage'),('colour count','iluColoursUsed'),('image information','iluGetImageInfo in ilu_utilities.cpp')],['iluCompareImage','iluColoursUsed','iluGetImageInfo'])
p('C33','Images made and edited directly hold exactly what was given',
 'An image made from given dimensions, channels, format, type and data (zeroes for none) holds exactly these and every image query says so; replacing its data, registering its format, type, origin or palette, and setting its duration, offsets or cube flags changes exactly that, and the default image is a 64 by 64 black and yellow checkerboard of squares of 8 pixels. Clearing sets every pixel to the clear colour in its format and type (index 0 of a palette of that one colour), raw data saved is the pixels row by row from the top and loads back, and applying a colour profile transforms the colours as the profiles define and keeps alpha. Impossible requests fail with an error and leave the image as it was.',
 ['inputs','histories'],'every size, format, type, data, palette, clear colour, pair of profiles, and order of such calls, valid or not',
 'The tests make a few images of fixed kind and size and never clear, register or read back all attributes.',
 [IL+'il_devil.cpp',IL+'il_register.cpp',IL+'il_rawdata.cpp',IL+'il_profiles.cpp',IL+'il_states.cpp'],[('making images','ilTexImage, ilTexImageSurface, ilSetData'),('registering','ilRegisterFormat, ilRegisterType, ilRegisterOrigin, ilRegisterPal'),('clearing','ilClearImage, ilGetClear'),('raw data','ilSaveData, ilLoadData'),('profiles','ilApplyProfile')],['ilTexImage','ilSetData','ilRegisterFormat','ilRegisterPal','ilClearImage','ilSaveData','ilApplyProfile','ilGetInteger'])
with open('properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
