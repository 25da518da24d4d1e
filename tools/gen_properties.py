#!/usr/bin/env python3
"""Writes properties.jsonl. (Kept as a script so that the file stays one JSON object per line.)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Multi-threaded conversion equals single-threaded, for every schedule",
 "Converting a texture with any number of threads produces, for every interleaving of those threads, exactly the bytes that single-threaded conversion produces. No interleaving contains a data race, a deadlock or an access outside the surface, every worker has finished when the conversion returns, any thread count may be asked for, a thread that cannot be started does not change the result, and unrelated textures may be processed concurrently on different threads.",
 ["schedules", "configurations"],
 "all interleavings of the worker threads at synchronisation and atomic operations, for images around the work-batch boundaries and every thread count",
 "Tests run each conversion once under whatever schedule the OS picks; a lost or duplicated batch, or a race, needs a specific interleaving.",
 ["lib/src/Converter.cpp", "lib/src/StandardConverter.h", "lib/src/Texture.cpp"],
 [("shared job counter and worker lambda", "lib/src/Converter.cpp Converter::convert"),
  ("batches of 32 pixels so that no two jobs share a texel", "lib/src/StandardConverter.h StandardConverter::jobsX"),
  ("threads joined per surface", "lib/src/Converter.cpp Converter::convert")],
 ["Texture::data bytes after convert(threads=n)"])

prop("C02", "Uncompressed texels are the nearest representable value in the right layout",
 "For every uncompressed format and type, each converted texel holds, for each channel of the format in its documented order and bit position, the representable value nearest to the source pixel's channel, saturated to the format's range; infinities saturate and no channel influences another one's bits. This holds for every finite source value and for every image width and height.",
 ["inputs", "configurations"],
 "all 66 format/type pairs; all source channel values (every float in the thorough run); all small widths and heights",
 "Tests convert one small image per format and look at a handful of mid-range values.",
 ["lib/src/StandardConverter.h", "lib/src/StandardConverter.cpp", "lib/src/HalfFloat.h", "lib/src/HalfFloat.cpp", "lib/src/Converter.cpp"],
 [("per-format converters", "lib/src/StandardConverter.cpp *Converter::process"),
  ("format/type to converter dispatch", "lib/src/Converter.cpp createConverter"),
  ("hardware half packing", "lib/src/HalfFloat.h packHardwareHalfFloat*")],
 ["Texture::data"])

prop("C03", "Texture shape, surface sizes and surface placement",
 "A texture's width, height and depth at each mip level, its maximum mip count, face count and array-ness follow from its dimension and size as documented, and queries outside the valid range return zero, null or an invalid image. After conversion, every (mip, depth, face) surface exists, is exactly width*height*texel-size bytes, and contains the pixels of the image that was set for that index and no other, row by row from the top left.",
 ["configurations", "inputs"],
 "all dimensions, sizes 1..9 and near powers of two, depths, mip counts and formats within bounds; every surface index inside and outside the range",
 "Tests use one size per dimension and never convert a texture with several mips, depths and faces at once with distinguishable surfaces.",
 ["lib/src/Texture.cpp", "lib/src/Converter.cpp"],
 [("level sizes", "lib/src/Texture.cpp Texture::width/height/depth/maxMipmapLevels"),
  ("surface slots", "lib/src/Texture.cpp Texture::initialize/setImage/getImage/data/dataSize")],
 ["Texture accessors", "Texture::data"])

for cid, name, f, fn in (("C04", "DDS", "SaveDds", "saveDds"), ("C05", "KTX", "SaveKtx", "saveKtx"), ("C06", "PVR", "SavePvr", "savePvr")):
    prop(cid, "%s files describe and contain exactly the texture" % name,
     "Every %s file that is saved successfully can be decoded by a reader that only knows the published file layout into a texture with the same dimension, size, array and face count, mip count, pixel format, value type and colour space, and its payload is exactly the texture's surfaces in the order (and with the padding) the layout prescribes, with nothing missing and nothing following. Saving to a file, a stream or a byte vector gives identical bytes, and a texture the container cannot express is refused instead of being mis-described." % name,
     ["configurations"],
     "the whole bounded product of dimension, array/non-array, size, mip count, format, type, colour space and alpha kind",
     "Tests save each format at one size and only look at the result code; they never decode the file.",
     ["lib/src/%s.cpp" % f, "lib/src/Texture.cpp"],
     [("header construction and surface loop", "lib/src/%s.cpp %s" % (f, fn)),
      ("format tables", "lib/src/%s.cpp" % f)],
     ["bytes written by Texture::save"])

prop("C07", "A texture save reports success only if every byte was written",
 "For every point at which writing or flushing the output can fail, saving a texture to a file or stream reports failure, and when it reports success the destination holds the complete file. A failed save leaves the texture unchanged so that saving it again elsewhere succeeds with the same bytes.",
 ["fault_sequences"],
 "every byte position at which a write can be refused or truncated, at every flush, for every container, through streams and through real files",
 "Tests only save to working destinations.",
 ["lib/src/Texture.cpp", "lib/src/SaveDds.cpp", "lib/src/SaveKtx.cpp", "lib/src/SavePvr.cpp", "lib/src/Shared.h"],
 [("write() checks stream state", "lib/src/Shared.h write"), ("file save", "lib/src/Texture.cpp Texture::save")],
 ["Texture::SaveResult", "destination bytes"])

prop("C08", "Every history of texture operations behaves like the documented state machine",
 "For every sequence of initialize, set image, generate mipmaps, convert, save, copy, move and reset operations, valid or not, each call's result and everything observable afterwards (validity, completeness, converted state, sizes, image presence, data) agree with a simple reference model of the documentation. No sequence accesses memory out of bounds or leaves the object reporting data it does not have, and rejected calls change nothing they are not documented to change. Replacing an image after a conversion keeps the converted data until the next conversion, and regenerating the mipmaps discards it.",
 ["histories"],
 "all operation sequences up to a depth over a small alphabet of textures, including invalid arguments and operations after conversion",
 "Tests run a few fixed happy-path sequences; interactions such as converting, replacing an image and regenerating mipmaps are never exercised.",
 ["lib/src/Texture.cpp", "lib/src/Converter.cpp"],
 [("guards in each operation", "lib/src/Texture.cpp Texture::setImage/generateMipmaps/convert/data/save")],
 ["every public Texture accessor"],
 [("images / textures", "source images and converted surfaces per mip, depth and face", "lib/src/Texture.cpp Texture::Impl")])

prop("C09", "Mipmap generation with custom images at any level",
 "Generating mipmaps fills every level, face and layer with an image of that level's size, where each level is the filtered reduction of the previous level of the same face and layer, except that a custom image is used (resized if needed) exactly at the level, face and layer it was given for; after it the chain resumes from the image it replaced (Once) or continues from it (Continue). No custom image affects any other face, layer or earlier level, images end up in the texture's pixel format and colour space, and for 3D textures incomplete or inconsistent custom layers are refused without changing the texture.",
 ["configurations", "inputs"],
 "every placement of up to a few custom images with either replacement kind over levels, faces, layers and 3D slices, for each dimension, filter and colour space",
 "Tests place one custom image in a few positions of one texture; leaks between faces or layers need particular placements.",
 ["lib/src/Texture.cpp"],
 [("custom mip lookup, previous-image state", "lib/src/Texture.cpp Texture::generateMipmaps"),
  ("3D reduction", "lib/src/Texture.cpp generateMips3d")],
 ["Texture::getImage for every index"])

prop("C10", "Pixel access and pixel format conversion preserve values",
 "For every pixel format, writing a colour to a pixel and reading it back gives that colour to within the format's precision and range (saturating, never wrapping; grayscale formats take the luminance or the red channel as requested, computed in linear light), changes no other pixel, and is refused outside the image; integer formats hold the nearest integer, and the channel masks and shifts locate exactly the channels in the pixels of the 16- and 32-bit formats. Converting an image to any other format gives, at every pixel, the value that format can hold nearest to the source to within one step of the coarser format, keeping size and colour space, without modifying the source.",
 ["inputs", "configurations"],
 "all 17 pixel formats and all ordered pairs of them, both colour spaces and grayscale modes, over value lattices including out-of-range and extreme values",
 "Tests check a gradient within [0,1] for most pairs; out-of-range values, sRGB grayscale and integer saturation are not reached.",
 ["lib/src/Image.cpp", "lib/include/cuttlefish/Color.h"],
 [("getPixelImpl/setPixelImpl/setPixelNoGrayscaleImpl", "lib/src/Image.cpp"), ("Image::convert", "lib/src/Image.cpp")],
 ["Image::getPixel", "Image::scanline"])

prop("C11", "Rotations, flips and swizzles are exact permutations",
 "For every pixel format and image size, rotating by each angle, flipping either way and swizzling move pixel values (or channels) exactly to where the name says, with (0,0) the upper left, and change no value. The algebraic laws hold: four quarter turns, two flips or two half turns are the identity, clockwise and counter-clockwise angles are inverse, and any composition of these operations equals the composed permutation.",
 ["inputs", "configurations", "histories"],
 "all pixel formats, all sizes up to 5x5 and a few larger, all angles, all 5^4 swizzles, and all operation sequences up to a depth",
 "Tests rotate and flip one fixed-size image per format, and try a few swizzles.",
 ["lib/src/Image.cpp"],
 [("Image::rotate/flipHorizontal/flipVertical/swizzle", "lib/src/Image.cpp")],
 ["Image::getPixel"])

prop("C12", "Colour space, grayscale and alpha pre-multiplication semantics",
 "Changing colour space applies the sRGB transfer function or its inverse to the colour channels only, records the new colour space, is the identity when it already is in that space, and converting there and back returns the original to within the format's precision. Grayscale and alpha pre-multiplication are computed in linear light whatever the image's colour space, leave alpha untouched, and affect every pixel exactly once.",
 ["inputs", "configurations"],
 "all pixel formats, both colour spaces, value lattices per channel, and all sequences of these operations up to a depth",
 "Tests check a few colours in one or two formats.",
 ["lib/src/Image.cpp", "lib/include/cuttlefish/Color.h"],
 [("sRGBToLinear/linearToSRGB/toGrayscale", "lib/include/cuttlefish/Color.h"), ("changeColorSpace/grayscale/preMultiplyAlpha", "lib/src/Image.cpp")],
 ["Image::getPixel"])

prop("C13", "Loading an image gives the same result from every kind of source",
 "The same bytes loaded from a file, a memory block, a seekable stream or a non-seekable stream (however it splits its reads) give the same image, with the pixel values the file format defines, for every supported bit depth and palette kind. Truncated or corrupted data that the image codec library survives never crashes, reads out of bounds or hangs; it gives what the codec makes of the bytes wherever they come from (the same from every source, unless the codec itself depends on how the source seeks beyond its end), and a failed load leaves an invalid, reusable image.",
 ["inputs", "fault_sequences"],
 "every truncation point and every single-byte corruption of a corpus of small images in several formats and bit depths, through each source kind, and every read-splitting of small files",
 "Tests load a few intact files.",
 ["lib/src/Image.cpp", "lib/src/Shared.cpp"],
 [("istream adapters", "lib/src/Image.cpp readIStream/seekIStream/tellIStream"), ("readStreamData", "lib/src/Shared.cpp"), ("format detection", "lib/src/Image.cpp getFormat, Impl::create")],
 ["Image::load result and pixels"])

prop("C14", "Saving an image round-trips and reports write failures",
 "Saving an image to a file, stream or byte vector in a lossless file format that supports its pixel format yields identical bytes for all three, and loading them gives back exactly the same pixels. For every point at which the destination can refuse data the save reports failure, and unsupported file types or pixel formats are refused.",
 ["fault_sequences", "configurations"],
 "every write failure position of each save, for each file format and pixel format, over a set of sizes",
 "Tests save one image successfully.",
 ["lib/src/Image.cpp"],
 [("ostream adapters", "lib/src/Image.cpp writeOStream/seekOStream/tellOStream"), ("Image::save", "lib/src/Image.cpp")],
 ["Image::save result", "saved bytes"])

prop("C15", "Command line parsing accepts exactly the documented invocations",
 "Every command line built from the documented options either is accepted with exactly the settings the options describe, whatever their order, or is rejected with a message and a non-zero exit code without producing output. Option values are case-insensitive, the last of repeated options counts, and parsing any argument sequence, however malformed, never crashes, exhausts memory or silently ignores or misreads a value.",
 ["inputs", "histories"],
 "all sequences of option tokens and values (valid, boundary and malformed) up to a length, and all orders of the options that interact",
 "The command line tests run a few dozen fixed successful invocations.",
 ["tool/CommandLine.cpp", "tool/CommandLine.h"],
 [("CommandLine::parse and its readers", "tool/CommandLine.cpp")],
 ["exit code, stdout/stderr, parsed settings"])

prop("C16", "The tool's output is the documented pipeline applied to its inputs",
 "For every accepted combination of options the tool writes the same bytes as applying the documented operations, in the documented order, with the library to the input images, and exits with 0 exactly when that complete file was written. When an input is missing or unusable, or the output cannot be created or written, it exits with a non-zero code and a message.",
 ["configurations", "fault_sequences"],
 "the bounded product of options (resize, rotate, flip, swizzle, grayscale, normal map, pre-multiply, sRGB, mipmaps, array/cube/3D, format, type, file type) and of input and output faults",
 "The command line tests write to /dev/null and only look at the exit code.",
 ["tool/main.cpp", "tool/CommandLine.cpp"],
 [("loadImages/saveTexture/main", "tool/main.cpp")],
 ["output file bytes", "exit code"])

prop("C17", "Images, textures and custom mip images are values",
 "A copy is equal to its source and from then on independent of it: no later operation on one changes what the other reports; a move transfers the value and leaves the source safe to query, assign and reuse (nothing is prescribed about its value); assignment replaces the whole previous value, including self-assignment as a no-op. This holds for images, textures and custom mip images in every state and in every sequence of copies, moves, assignments and modifications.",
 ["histories"],
 "all sequences of copy/move construction, copy/move/self assignment, mutation and reset over two or three objects up to a depth",
 "Tests copy each class at most once.",
 ["lib/src/Image.cpp", "lib/src/Texture.cpp", "lib/include/cuttlefish/Texture.h"],
 [("copy/move members", "lib/src/Image.cpp, lib/src/Texture.cpp"), ("CustomMipImage storage pointer", "lib/src/Texture.cpp")],
 ["all accessors of both objects"])

prop("C18", "Resizing gives the requested size and obeys the filters' laws",
 "For every pixel format, source size, target size and filter that is supported, resizing returns an image of exactly the requested size in the same pixel format and colour space, whose constant-colour inputs stay constant and whose values stay within the source's range for the box and linear filters; equal size returns identical pixels and the source is never modified. Box reduction by an integer factor averages exactly the covered pixels in linear light; exchanging the channels exchanges them in the result, and mirroring or transposing the image does so to the result (where no box filter edge falls on a pixel centre, and not where a clamped format clips an overshooting filter between the passes). Unsupported combinations give an invalid image.",
 ["inputs", "configurations"],
 "all pixel formats and filters, all source and target sizes within bounds, both colour spaces, over basis images (single bright pixels), constants and ramps",
 "Tests resize one image to one size per filter.",
 ["lib/src/Image.cpp"],
 [("Image::resize and its fallback filters", "lib/src/Image.cpp")],
 ["Image::getPixel"])

prop("C19", "Half-float conversion is exact, in hardware and in software",
 "Packing a float to half precision gives the nearest half value (either neighbour at an exact tie) for every one of the 2^32 floats, with overflow to infinity, signed zero and NaN preserved, for any number of channels and without touching neighbouring memory; every half value survives exactly, and the hardware and the portable code paths both obey this.",
 ["inputs", "configurations"],
 "all 2^32 floats and all halves; every channel count; both code paths",
 "Tests convert four values.",
 ["lib/src/HalfFloat.h", "lib/src/HalfFloat.cpp", "lib/src/StandardConverter.h"],
 [("F16C intrinsics", "lib/src/HalfFloat.h"), ("HalfConverter", "lib/src/StandardConverter.h")],
 ["packed values"])

prop("C20", "Format support queries tell the truth",
 "For every format, type, file type, colour space and alpha kind: the format is reported valid exactly if a complete texture can be converted to it, valid for a file type exactly if the converted texture can be saved in that type, sRGB-capable exactly if an sRGB texture can be converted to it (for compressed formats: exactly if documented as such), and the reported block and texel sizes are those of the converted data. The file type derived from a name depends only on its extension, case-insensitively.",
 ["configurations"],
 "the complete product of formats, types, file types, colour spaces, including values outside the enumerations",
 "Tests check the tables against themselves for the formats they convert.",
 ["lib/src/Texture.cpp", "lib/src/SaveDds.cpp", "lib/src/SaveKtx.cpp", "lib/src/SavePvr.cpp", "lib/src/Converter.cpp"],
 [("isFormatValid/hasNativeSRGB/hasAlpha/blockSize/fileType", "lib/src/Texture.cpp"), ("isValidForDds/Ktx/Pvr", "lib/src/Save*.cpp")],
 ["query results against Texture::convert and Texture::save"])

prop("C22", "Value range adjustment maps image values to the texture type",
 "Adjusting an image for a signed-normalised type maps [0,1] linearly onto [-1,1], and for an integer type onto the full integer range of the original image's bit depth, for every pixel and channel exactly once and rounded to the nearest integer (alpha of RGB5 and RGB565 originals, which have none, is not prescribed); every other combination of original format and type leaves the image unchanged. Converting the adjusted image therefore reproduces the original integer codes.",
 ["inputs", "configurations"],
 "all image formats, original formats and types, and every code of 8-bit and a lattice of 16-bit images",
 "Tests check a few pixels of some formats.",
 ["lib/src/Texture.cpp"],
 [("Texture::adjustImageValueRange", "lib/src/Texture.cpp")],
 ["Image::getPixel after adjustment"])

prop("C23", "Normal maps are the normalised height gradients",
 "Every pixel of a generated normal map is the unit vector of the central difference of the height channel (one-sided at edges, wrapping exactly along the requested axes), scaled by the height, in [0,1] or signed form as requested, in the requested pixel format (with at least two channels) and in an image of the same size. A flat image gives the straight-up normal everywhere and mirroring the height map mirrors the normals.",
 ["inputs", "configurations"],
 "all option combinations, sizes 1x1 to 5x5, heights, pixel formats, and all height maps over a small alphabet on tiny images",
 "Tests check one image with some option combinations.",
 ["lib/src/Image.cpp"],
 [("Image::createNormalMap", "lib/src/Image.cpp")],
 ["Image::getPixel"])

prop("C21", "Block-compressed surfaces decode to the source within the codec's error",
 "For every block-compressed format and quality, decoding each converted surface gives the source image to within the format's attainable error, with partial edge blocks clamped and every block produced by exactly one job.",
 ["inputs", "configurations"],
 "all compressed formats, qualities, and image sizes including partial blocks",
 "The encoders are only smoke-tested.",
 ["lib/src/S3tcConverter.cpp", "lib/src/EtcConverter.cpp", "lib/src/AstcConverter.cpp", "lib/src/PvrtcConverter.cpp"],
 [("per-codec converters", "lib/src/*Converter.cpp")])

prop("C24", "Every compressed block is encoded from exactly its own region's pixels",
 "Converting a texture to a block-compressed format gives, for every surface and whatever the number of threads, ceil(w/bw) x ceil(h/bh) blocks in row order, each of them what the format's encoder makes of exactly the pixels of its own region (edges repeated or the block clipped, never pixels of elsewhere or unset ones), encoded once, with the format, signedness, colour space, colour mask, alpha kind and quality that were asked for, so that colour is not lost to transparency the block does not have and more quality never means less effort. Encoder state that is shared between threads and conversions never carries settings from one into another. The queries about block sizes, validity, alpha and sRGB agree with what conversion does.",
 ["inputs", "configurations", "histories", "schedules"],
 "all block-compressed formats and types x sizes with every remainder x thread counts x qualities x alpha kinds x colour masks x colour spaces x per-pixel transparency, and sequences of conversions that share encoder contexts",
 "The codec tests only compare sizes and are not even built without the third-party encoders.",
 ["lib/src/S3tcConverter.cpp", "lib/src/EtcConverter.cpp", "lib/src/AstcConverter.cpp", "lib/src/PvrtcConverter.cpp", "lib/src/Converter.cpp"],
 [("S3tcConverter::process", "lib/src/S3tcConverter.cpp"), ("EtcConverter::process", "lib/src/EtcConverter.cpp"), ("AstcConverter::process", "lib/src/AstcConverter.cpp"), ("PvrtcConverter::process", "lib/src/PvrtcConverter.cpp"), ("createConverter", "lib/src/Converter.cpp")],
 ["Texture::convert", "Texture::data"])

prop("C25", "DDS, KTX and PVR files of block-compressed textures decode to the texture",
 "Saving a block-compressed texture either refuses without writing anything, exactly when the container has no code for the format and colour space, or writes a file that an independent reader of the container takes to have the texture's format (signedness and sRGB included, and BC1 alpha and pre-multiplied alpha where the container can tell), dimension, size, depth, layers, faces, levels and alpha kind, with consistent size fields, whose payload is each surface's blocks in the container's order without padding.",
 ["inputs", "configurations"],
 "all block-compressed format/type pairs x dimensions x sizes with partial blocks x depths and layers x level counts x colour spaces x alpha kinds x containers",
 "The tests save compressed textures without reading them back, and only when the encoders are there.",
 ["lib/src/SaveDds.cpp", "lib/src/SaveKtx.cpp", "lib/src/SavePvr.cpp", "lib/src/Texture.cpp"],
 [("saveDds, getDdsFormat", "lib/src/SaveDds.cpp"), ("saveKtx, getFormatInfo", "lib/src/SaveKtx.cpp"), ("savePvr, getPixelFormat, getChannelType", "lib/src/SavePvr.cpp")],
 ["bytes written by Texture::save"])

P.sort(key=lambda p: p["id"])
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
