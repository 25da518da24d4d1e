HOOKS = None
NOTES = ("Every check rebuilds /repo's library (and tool) sources out of tree from the current working tree with its own "
 "flags; no hooks are compiled into /repo. See DESIGN.md.")
NOT_APPLICABLE = {
 "C21": "the error of a compressed block is decided by the third-party encoders (submodules squish, compressonator, bc7enc, etc2comp, astc-encoder, PVRTexLib), which are absent and cannot be fetched, so there is no implementation to explore; what cuttlefish itself does around them is decided by C24 with stand-ins",
}
CONT = ("explicit-state enumeration of every texture shape x format x option on the real writer, each file decoded by an independent reader", "model_checking",
  "Exhaustive over the stated shapes, level counts, formats, types, colour spaces and alpha kinds; trusts the independent container reader in src/container.h. Formats needing third-party encoders are absent from this build.")
CLAIMS = {
 "C01": ("stateless model checking of the real threaded code under a controlled scheduler, with happens-before state caching and a vector-clock race detector", "model_checking",
  "All interleavings of synchronisation and atomic operations for small surfaces and every format, preemption-bounded for several surfaces and more threads; thread creation failures included. Accesses inside FreeImage and libstdc++ are not instrumented."),
 "C02": ("explicit-state enumeration of inputs on the real encoder against a reference encoder", "model_checking",
  "Exhaustive over the stated value lattices, code boundaries and sizes (thorough: all 2^32 floats per element type); trusts the independent format table and oracle in src/tex.h."),
 "C03": ("explicit-state enumeration of shapes, level counts and surface indices on the real Texture against a reference shape model", "model_checking",
  "Exhaustive over the stated shape lattices and orders of setting images; address and undefined-behaviour sanitizers watch every access."),
 "C04": CONT, "C05": CONT, "C06": CONT,
 "C10": ("explicit-state enumeration of pixel values, formats and format pairs on the real Image against a reference pixel model", "model_checking",
  "Exhaustive over the stated value lattices, all pixel formats, all ordered pairs and all pixels of small images; trusts the pixel format table in src/img.h."),
 "C11": ("explicit-state exploration of all operation sequences to a depth on the real Image against composed permutations", "model_checking",
  "Exhaustive over all pixel formats, sizes up to 5x5, angles, swizzles and operation sequences up to the stated depth."),
 "C12": ("explicit-state exploration of values and operation sequences on the real Image against a linear-light reference model", "model_checking",
  "Exhaustive over the stated value lattices and operation sequences; compared within the format's precision."),
 "C18": ("explicit-state enumeration of sizes, formats, filters and basis images on the real Image against the filters' laws", "model_checking",
  "Exhaustive over the stated source and target sizes, formats and filters; the laws are checked on basis images, constants and ramps."),
 "C22": ("explicit-state enumeration of formats, types and codes on the real library against a reference range map", "model_checking",
  "Exhaustive over all image formats, original formats, types and all 8-bit codes plus a 16-bit lattice."),
 "C23": ("explicit-state enumeration of height maps and options on the real library against a reference gradient model", "model_checking",
  "Exhaustive over all option combinations, sizes to 5x5 and all height maps over a small alphabet on tiny images."),
 "C08": ("explicit-state exploration of all operation sequences to a depth on the real Texture in lock-step with a reference state machine", "model_checking",
  "Exhaustive over the stated operation alphabet and depth; the reference model is src/texmodel.h; address and undefined-behaviour sanitizers watch every access."),
 "C09": ("explicit-state enumeration of custom image placements, kinds, dimensions, filters and colour spaces on the real Texture against a reference chain", "model_checking",
  "Exhaustive over the stated placements and shapes; the reduction of one level is taken from Image::resize (checked by C18)."),
 "C17": ("explicit-state exploration of all copy, move, assignment and mutation sequences to a depth against a value-semantics model", "model_checking",
  "Exhaustive over the stated operation alphabet and depth for each class; address and undefined-behaviour sanitizers watch every access."),
 "C19": ("explicit enumeration of all 2^32 float inputs through both packing paths against a bit-exact reference", "model_checking",
  "Exhaustive over all floats for both code paths and all channel counts; the reference rounding is an independent integer implementation."),
 "C20": ("explicit-state enumeration of the complete query product, each answer compared with actually converting and saving", "model_checking",
  "Exhaustive over formats, types, file types, colour spaces and values outside the enumerations; compressed formats, which this build cannot convert, are compared with the documented tables."),
 "C24": ("explicit-state enumeration of formats, sizes, options, transparency patterns and conversion histories on the real codec converters, linked against recording stand-in encoders, each block traced back to the pixels and options it was made from", "model_checking",
  "Exhaustive over the stated lattices and over all sequences of conversions to a depth. The third-party encoders are stand-ins (shim/codecs) with the same interfaces: what the real encoders do with what they are given is not decided."),
 "C25": ("explicit-state enumeration of every texture shape x compressed format x option on the real writers, each file decoded by an independent reader; the encoders are stand-ins", "model_checking",
  "Exhaustive over the stated shapes, level counts, formats, colour spaces and alpha kinds; trusts the independent container readers in src/container.h and the format codes in src/blocks.h."),
 "C07": ("explicit-state exploration of every fault position and kind of the destination during a save of the real library", "model_checking",
  "Exhaustive over all byte positions at which the destination (stream buffer, write/writev/close system call, full device, file size limit) can fail or accept only part, for every container and a set of shapes."),
 "C13": ("explicit-state enumeration of files, truncations, corruptions and read splittings on the real loader against known pixels and the codec called directly", "model_checking",
  "Exhaustive over the stated corpus, all truncations, all positions of single-byte corruption and all splittings into up to three reads; damaged files that the third-party codec itself does not survive are found by calling it directly and left out."),
 "C14": ("explicit-state exploration of pixel formats, file formats, sizes and every write-failure position on the real Image against the saved pixels", "model_checking",
  "Exhaustive over pixel formats, file name extensions, small sizes and all failing byte positions; trusts the loader (checked by C13) for reading back, with lossless file formats compared bit for bit."),
 "C15": ("explicit-state exploration of all word sequences of stated grammars and depths on the real parser in lock-step with a reference reader of the help text", "model_checking",
  "Exhaustive over the stated vocabularies, option orders and depths; settings are observed through CommandLine's members; address and undefined-behaviour sanitizers and an allocation limit watch every parse."),
 "C16": ("explicit-state exploration of the option product, input faults, output places and every full-device size on the tool's real main function, compared byte for byte with a reference pipeline", "model_checking",
  "Exhaustive over the stated option products and fault positions; the single operations are the library's (decided by C02-C14, C17-C23), only their selection, order and parameters are the tool's."),
}
