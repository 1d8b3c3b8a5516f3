"""Everything textual about the properties: properties.jsonl, MANIFEST.json (see gen.py)
and the fixed parts of the evidence files are generated from here."""
COMMON = {
    "trusted_base": [
        "Kani 0.68 (rustc MIR to goto-program translation, models of std intrinsics and of the allocator)",
        "CBMC 6.11 symbolic execution and bit-blasting, CaDiCaL",
        "rustc: the natively built crate behaves as the MIR that was verified",
    ],
    "assumptions": [
        "format! yields an empty string under the verifier (message texts are outside the properties)",
        "stand-in crates under the verifier only: rayon runs sequentially (closures have no shared mutable state, so order does not matter), multiversion is the identity attribute, backtrace is empty, jxl-oxide is absent; log is compiled out",
        "memory allocation does not fail",
    ],
}
META = {}
def P(id, title, statement, over, qtext, why, files, mechanism, level, how, bounds="", assumptions=(), note="", technique="contracts on the compiled functions, obligations discharged by Kani/CBMC"):
    META[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                    level=level, how=how, bounds=bounds, assumptions=list(assumptions), note=note, technique=technique)

P("C01", "Lossless JPEG: what the encoder writes, the decoder reads back unchanged",
  "Encoding any image with the lossless JPEG encoder, for every component count, predictor, supported bit depth and row padding, and decoding the result yields the same samples in the same places. Each difference is stored as the code of its class and its magnitude bits; the code tables are prefix free, at most 16 bits long and never all ones; the entropy coded data is byte stuffed. A frame decoded into a part of a larger buffer changes only that part.",
  ["inputs"], "all sample contents, predictors, component counts, bit depths, code tables",
  "Tests encode a few small images; class boundaries, deep code trees and the predictor arithmetic at the ends of the range need particular samples.",
  ["rawler/src/ljpeg92.rs", "rawler/src/decompressors/ljpeg/mod.rs", "rawler/src/decompressors/ljpeg/decompressors.rs", "rawler/src/decompressors/ljpeg/huffman.rs", "rawler/src/bitarray.rs"],
  [{"name": "encoder", "where": "rawler/src/ljpeg92.rs"}, {"name": "Huffman decoder and predictors", "where": "rawler/src/decompressors/ljpeg"}],
  "other", "Contract by contract: class of a difference, bit writer step and flush (complete), difference coding (complete), canonical decode tables and decode cache, and for each predictor and component count: image to differences (encoder) to image (decoder) with the entropy coder replaced by its proven contract. The whole coder with headers and table construction is executed natively on generated images (bounded).",
  "images up to 3x3, code tables of four shapes (complete in contents); header parsing and optimal table construction by execution only",
  assumptions=["at its call in decode_ljpeg, huff_decode yields the next difference of the stream; at its calls in write_body, BitstreamJPEG::write appends the given bits (both are the contracts of the separately verified functions)", "under the verifier the decode cache has 4 instead of 13 bits"],
  note="bounded in image size; difference and bit level contracts complete.")
P("C02", "Bit readers deliver exactly the stream's bits, in order, for every read history",
  "Every bit reader returns, for any sequence of reads of any widths, exactly the next bits of the underlying bytes in its documented bit and byte order, with zeros (or a refusal, for the byte stream) once the data ends. Peeking changes nothing, consuming advances by exactly the requested count, and byte stuffing is removed where the format says so. No input makes a reader look outside its buffer.",
  ["inputs", "histories"], "all buffers, all sequences of read widths",
  "Tests decode a few sample buffers; refill boundaries, tails shorter than a refill and mixed read widths are not sampled.",
  ["rawler/src/pumps.rs"], [{"name": "bit pump refill and peek/consume", "where": "rawler/src/pumps.rs"}],
  "proof", "Every bit pump and the byte stream, from their constructors: two reads of arbitrary width (which reach every buffered-bits state), then a read, peek, signed read or zero-run count compared with a spec function over the buffer. Widths and contents are unconstrained; the buffer is as long as two reads plus one can touch.",
  "buffer of 3..12 bytes: the window three reads of at most 32 bits can touch, with every tail length; marker search: 8-byte buffer (bounded)",
  note="Complete in contents and widths over every refill state reachable by two reads; longer histories follow because the state after a read is one of those states (bits buffered, position), shown for the reachable fill levels only.")
P("C03", "Packed sample formats unpack to exactly the stored samples",
  "For each packed layout (8, 10, 12, 14, 16 bit, little and big endian, word-swapped, with control bytes, interlaced, padded rows, arbitrary odd depths), the pixel at any row and column equals the bits stored for it in that layout, with skipped rows and columns honoured. A buffer too short for the image is refused instead of being read past its end.",
  ["inputs"], "all sample contents, every pixel position, each layout",
  "Tests compare checksums of a few camera files; most layouts and all short-buffer cases are never executed.",
  ["rawler/src/decompressors/packed.rs", "rawler/src/decoders/mod.rs"], [{"name": "per-layout unpackers", "where": "rawler/src/decompressors/packed.rs"}],
  "other", "Each unpacker on images of at least one full pixel group per row and two rows, all sample contents symbolic, every pixel compared with the documented bit layout; one byte less is refused.",
  "widths 2..20, 2..4 rows (bounded in size, complete in contents)",
  note="Bounded in image size (every pixel-group phase and the row step are covered), complete in sample contents.")
P("C04", "Numbers read from a file equal the numbers stored in it",
  "Integers of either byte order, half-precision and 24-bit floats read from any position of a buffer equal the stored value exactly, and written integers read back unchanged. Clamping, bit-count and range-scaling helpers return the mathematically defined result for every argument in their domain. A curve lookup returns a value within the dither window of the curve's entry and never wraps around the sample range.",
  ["inputs"], "all buffers, positions, values and (for curves) random states",
  "Tests check a handful of float patterns and no curve at all; overflow at the ends of the range needs particular entries.",
  ["rawler/src/bits.rs", "rawler/src/bitarray.rs"], [{"name": "endian readers, narrow float widening, clamp, log2, curve table", "where": "rawler/src/bits.rs"}, {"name": "bit arrays", "where": "rawler/src/bitarray.rs"}],
  "proof", "Loop-free harnesses over the whole domain of each helper against arithmetic spec functions; function contracts annotated in place on the clamping and bit-count helpers.",
  "curve tables: 3 entries (window), 8 entries (extension) - bounded; everything else complete over the full domain")
P("C05", "TIFF values survive writing and reading bit for bit",
  "Every value of every TIFF type is stored with the type code, count and byte representation the TIFF specification prescribes, whether it fits into the four bytes of the field or not. Every stored value, in either byte order, is read back with the same type, count and content, and the reader continues at the next field.",
  ["inputs"], "all types, all contents, both byte orders",
  "Tests write and read a few fields; sign extension and float embedding only show for particular types and negative values.",
  ["rawler/src/formats/tiff/value.rs", "rawler/src/formats/tiff/entry.rs", "rawler/src/formats/tiff/reader.rs"],
  [{"name": "value encoding", "where": "rawler/src/formats/tiff/value.rs"}, {"name": "field parsing", "where": "rawler/src/formats/tiff/entry.rs"}],
  "proof", "For each type, values of embedded and of out-of-line size with unconstrained contents: type code, count, size and each byte compared with an independent TIFF 6.0 spec; the parser reads back fields laid out by that spec in both byte orders.",
  "1..6 elements per value (bounded in count, complete in contents); text is 7-bit",
  assumptions=["std::str::from_utf8 accepts 7-bit text; core memchr returns the first match (std, stubbed)"])

P("C06", "TIFF directories are written and found again, and damage stays local",
  "A file the writer produces is a TIFF file: directories and values on word boundaries, fields sorted by tag and present once, every value inside the file and no two overlapping. Reading it back finds every directory, sub-directory and field with its value. A chain of directories is followed completely and once, in either byte order and with any base and offset correction. A field that cannot be read is left out and changes nothing else, and no damaged file makes the reader panic, run for ever or exhaust memory.",
  ["inputs"], "all field values, insertion orders, unreadable fields and next pointers; random directories, chains and damage by execution",
  "Tests read a few well-formed samples; damaged counts and offsets, cyclic chains, corrected offsets and unreadable fields in front of the next pointer are not among them.",
  ["rawler/src/formats/tiff/writer.rs", "rawler/src/formats/tiff/ifd.rs", "rawler/src/formats/tiff/reader.rs"],
  [{"name": "directory writer", "where": "rawler/src/formats/tiff/writer.rs"}, {"name": "directory reader", "where": "rawler/src/formats/tiff/ifd.rs"}],
  "other", "DirectoryWriter::build against an independent reading of the bytes it wrote; IFD::new on directories laid out by the TIFF specification in both byte orders; IFD::new against the contract of Entry::parse (any outcome for each field, any reader position afterwards). Native contracts: random directories with sub-directories and data through writer and both readers, chains with base, correction, back pointers and unreadable fields, and damaged files.",
  "two fields per directory (embedded and out of line), three fields in the damage contract; chains, sub-directories and damage by execution",
  note="Bounded in the number of fields; chains and sub-directories are executed, not proved.",
  assumptions=["the ordered map of a directory behaves like BTreeMap (array stand-in under the verifier)"])

P("C07", "Tiling moves every sample to its own place",
  "Cutting an image into tiles yields as many full-size tiles as cover the image, in row-major order, and each sample of the image appears at its own place in its tile. Writing through the tiles of a buffer reaches each sample exactly once and changes nothing else. A buffer that is not a whole number of tiles is refused, and no tile reads samples from outside the image.",
  ["inputs"], "all image contents, every sample position, image sizes that are and are not multiples of the tile size",
  "Tests use a few square images; padding at the right and bottom edges, several samples per pixel and oversized buffers are not sampled.",
  ["rawler/src/tiles.rs"], [{"name": "tile cutter and tile writer", "where": "rawler/src/tiles.rs"}],
  "other", "ImageTiler and the mutable tile iterator on images with and without right and bottom padding, one to three samples per pixel: the sample at an arbitrary position of an arbitrary tile is compared with the image.",
  "images up to 6x5 pixels, tiles up to 5x3 (bounded in size, complete in contents)",
  note="Bounded in image size: each combination of padding and component count is a separate contract.")
P("C08", "Filter and black level patterns stay aligned with the pixels they describe",
  "The colour of every pixel of the plane is the one its filter pattern assigns to it. Shifting a pattern by a crop offset gives each pixel of the cropped image the colour (and black level) of the pixel it covers, for every offset, and shifting back restores the pattern. A pattern stored in a DNG reads back as the same pattern.",
  ["inputs"], "all patterns, all offsets, every pixel of the plane",
  "Tests check one 2x2 shift; offsets beyond the pattern, asymmetric patterns and 6x6 patterns are not sampled.",
  ["rawler/src/cfa.rs", "rawler/src/rawimage.rs", "rawler/src/decoders/dng.rs"],
  [{"name": "pattern expansion, shift and shift_back", "where": "rawler/src/cfa.rs"}, {"name": "black level shift", "where": "rawler/src/rawimage.rs"}],
  "proof", "CFA::new, color_at, shift and shift_back are extracted from /repo on every run and proved in Verus for every pattern up to 48x48 and every offset; the colour codes, black and white level tables and their shifts are Kani contracts over arbitrary levels.",
  "black level patterns of six shapes and offsets (complete in levels); the CFA part is unbounded",
  assumptions=["Verus layer: the string part of CFA::new is replaced by an arbitrary pattern array of the checked length (see DESIGN.md, extraction)"],
  technique="contracts on the extracted functions discharged by Verus/Z3, and on the compiled functions by Kani/CBMC")
P("C09", "Crops, rotations and orientations move every pixel to where they say",
  "A crop holds exactly the pixels of its area, a rotation puts each pixel at its rotated place and swaps the dimensions, and splitting or joining Bayer planes keeps every pixel. Rectangles keep their edges across the DNG, border and master-relative representations. Each EXIF orientation value denotes the mirroring and rotation EXIF assigns to it, and survives conversion in both directions.",
  ["inputs"], "all pixel contents and positions, all rectangles, all orientations",
  "Tests rotate one small image; each orientation and non-square shape has its own index arithmetic.",
  ["rawler/src/imgop/mod.rs", "rawler/src/pixarray.rs", "rawler/src/lib.rs"],
  [{"name": "crop, rotate, deinterleave", "where": "rawler/src/pixarray.rs"}, {"name": "rectangles", "where": "rawler/src/imgop/mod.rs"}],
  "proof", "Rectangles and orientations over their whole domain; crop, rotate and deinterleave on small non-square images with arbitrary contents, comparing the pixel at an arbitrary position.",
  "images up to 4x4, 6x2 (bounded in size, complete in contents); rectangles and orientations complete",
  note="The pixel-moving functions are bounded in image size; rectangle and orientation arithmetic is complete.")
P("C12", "Decoding drivers put every row, strip and chunk in its own place",
  "The row, strip and chunk drivers through which all formats are decoded hand each worker exactly its own lines with the right row, strip or chunk number, cover the whole image once (including a last partial strip), and return an image of the requested size. An error in any row or strip is reported, never dropped, and no error is invented.",
  ["inputs"], "all contents, all failing rows, image shapes with full and partial last strips",
  "Tests decode whole files whose strips divide the image evenly and never fail half way.",
  ["rawler/src/decompressors/mod.rs"], [{"name": "decompress_lines, decompress_strips, decompress_chunked and their _fn variants", "where": "rawler/src/decompressors/mod.rs"}],
  "other", "Each driver with a row decoder that copies its source row and fails on a marker byte: every pixel of the result is compared with the source, and the result is an error exactly if some row fails.",
  "images up to 3x5 (bounded in size, complete in contents and failing rows)",
  assumptions=["rayon's parallel iterators run sequentially under the verifier; workers write to disjoint lines, so order does not matter"],
  note="Bounded in image size.")
P("C10", "An embedded original comes back bit for bit, and damage is noticed",
  "Embedding a file of any length stores its size, one compressed block per 64 KiB and the index of the blocks as the DNG specification lays them out. Reading the container back and extracting it gives exactly the embedded bytes; the digest is that of the original. A block that cannot be compressed, an index that does not describe the data, or extracted data of another length is an error, never a silently different file.",
  ["inputs"], "all file contents, every kind of length (empty, whole blocks, one byte more or less)",
  "Tests embed two sample files; last partial blocks, empty files and damaged containers are not sampled.",
  ["rawler/src/dng/original.rs"], [{"name": "container writing, index, parallel decompression", "where": "rawler/src/dng/original.rs"}],
  "other", "The container writer is compared byte by byte with the layout of the DNG specification, and the reader with the concatenation of the blocks of a container laid out by that specification, for zero to three blocks with unconstrained contents. Whole round trips with the real zlib, block size and MD5 are executed natively (bounded).",
  "files of 0..9 bytes with 4-byte blocks (0..3 blocks; complete in contents); native: up to 3 real blocks",
  assumptions=["under the verifier zlib is a stand-in that stores the bytes behind a marker, MD5 a stand-in digest, a block has 4 instead of 65536 bytes, and std's read-to-end is its contract", "rayon's parallel iterators run sequentially"],
  note="Bounded in the number of blocks.")
P("C11", "A view of a file holds exactly the requested bytes, or is refused",
  "Any part of a file requested by offset and size is exactly those bytes, and a request that does not lie within the file is an error for every offset and size, including those whose sum wraps around. A padded view holds the same bytes and can be over-read by the padding without leaving its buffer. The strips and tiles a directory names are the views at its offsets and byte counts.",
  ["inputs"], "all offsets and sizes (the whole range of the integers), all contents",
  "Tests read well-formed files; offsets near the end of the file and wrapping sums need particular inputs.",
  ["rawler/src/rawsource.rs", "rawler/src/buffer.rs", "rawler/src/formats/tiff/ifd.rs"],
  [{"name": "subview and padded views", "where": "rawler/src/rawsource.rs"}, {"name": "strip and tile views", "where": "rawler/src/formats/tiff/ifd.rs"}],
  "proof", "Views with unconstrained 64-bit offset and size over a file of fixed length: the result is an error exactly if the range leaves the file, and otherwise each byte is compared. Padded views at each position relative to the end of the file; directories with one and two strips or tiles with unconstrained offsets, sizes and base.",
  "files of 0..24 bytes for unpadded views (the length only enters comparisons), 20 or 24 bytes for padded ones; one or two strips or tiles",
  assumptions=["under the verifier directories are kept in an ordered map of six slots instead of BTreeMap"])
P("C14", "Plain TIFF and DNG image data decodes to exactly the stored samples",
  "Reading the image of a directory gives every sample its stored value at its own place, for every sample depth, byte order, number of samples per pixel, division into strips or tiles (also scattered over the file and padded at the edges), uncompressed, as lossless JPEG, or deflated floating point with any predictor, interleaved or not. Deflated data of another size than the image, or that is not a zlib stream, is refused.",
  ["inputs"], "all sample values, image shapes, depths, byte orders, divisions and placements in the file",
  "Tests decode a few files of single cameras; partial last strips, padded tiles, scattered strips and subnormal floats are not sampled.",
  ["rawler/src/decoders/mod.rs", "rawler/src/decompressors/deflate.rs", "rawler/src/decompressors/packed.rs", "rawler/src/decompressors/ljpeg/mod.rs", "rawler/src/bits.rs"],
  [{"name": "plain_image_from_ifd, decode_strips, decode_tiles", "where": "rawler/src/decoders/mod.rs"}, {"name": "deflate rows", "where": "rawler/src/decompressors/deflate.rs"}],
  "other", "The deflate decompressor on two rows of two to six samples with unconstrained contents, for each depth and predictor: undoing the differences and putting the byte planes together is compared with a spec function of the inflated bytes. The whole path from a directory to the samples (strip and tile lookup, drivers, unpacking, lossless JPEG, cropping, deinterleaving) is executed natively on generated images (bounded); its parts are the contracts of C01, C03, C07, C09, C11 and C12.",
  "two rows of 2..6 samples (complete in contents); native: images up to 16x7 with up to 3 samples per pixel",
  assumptions=["under the verifier zlib is a stand-in that stores the bytes behind a marker"],
  note="Bounded in image size; the path from the directory is executed, not proved.")
P("C15", "A number taken from a field is the stored number or nothing",
  "Asking a field for a number of a given type returns the stored number when that type can hold it and an error or nothing otherwise, for every stored type, element index and number; the forced variants truncate toward zero and stop at the ends of the type. Rational numbers compare by their value, and whole rationals are read as exactly that number. Type codes and flags that denote nothing are refused.",
  ["inputs"], "every stored type, every value of it, every element index",
  "Tests read a few fields of the natural type; conversions between types at the ends of their ranges are not sampled.",
  ["rawler/src/formats/tiff/value.rs", "rawler/src/formats/tiff/rational.rs"],
  [{"name": "numeric accessors of Value", "where": "rawler/src/formats/tiff/value.rs"}, {"name": "rationals", "where": "rawler/src/formats/tiff/rational.rs"}],
  "proof", "Each accessor on each stored type with unconstrained contents and index, compared with the mathematical conversion; the order of rationals compared with the order of the fractions.",
  "order of rationals: numerators and denominators of 6 bits symbolically, the whole range by execution; everything else complete")

def N(id, title, statement, over, qtext, why, files, mechanism, reason):
    NOT_APPLICABLE[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, reason=reason)
NOT_APPLICABLE = {}
N("C18", "The FTP server never touches files outside its root directory",
  "No sequence of FTP commands makes the server read, list, create or delete a file outside the directory it serves, whatever path arguments, working directory changes and symbolic links are used, and for any number of simultaneous clients.",
  ["histories", "schedules"], "all command sequences and file system states",
  "Path resolution depends on the file system at the moment of each command; a test samples one tree.",
  ["embedftp/src/client.rs"], [{"name": "path completion", "where": "embedftp/src/client.rs"}],
  "The guarantee is a property of asynchronous tasks over the state of a real file system (canonicalize, symbolic links, races between check and use); a contract would have to be stated against a model of the file system and of tokio, neither of which the installed verifiers have.")
N("C20", "Converting a camera file to DNG keeps its raw image and metadata",
  "For every supported camera file, the DNG written from it holds the same raw samples, crop, colour calibration and metadata as the source, whatever the compression, and re-reading the DNG gives the same developed image.",
  ["inputs"], "all supported camera files",
  "The test data set is not in the repository, and each camera has its own decoder.",
  ["rawler/src/dng/convert.rs", "rawler/src/dng/writer.rs", "rawler/src/decoders"], [{"name": "conversion", "where": "rawler/src/dng/convert.rs"}],
  "Whole-program property over some twenty vendor formats parsed by hundreds of functions; no contract verifier installed reaches it as a whole, and no camera files are available for execution. Its parts that can be put under contract are C01-C16.")
N("C21", "Batch conversion never overwrites or loses a file it should keep",
  "Converting a directory writes each output once, never replaces an existing file unless asked to, leaves no partial output under the final name after a failure, and reports every failed file.",
  ["histories", "crash_points"], "all directory trees, failures and crash points",
  "Tests cannot enumerate failures and crash points of the file system.",
  ["bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs", "bin/dnglab/dnglab-lib/src/filemap.rs"], [{"name": "conversion job", "where": "bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs"}],
  "The property is about the sequence of file system operations under asynchronous tasks and crashes; Kani and Verus have no file system or async runtime model, so nothing but a hand-written model could be proved.")
N("C22", "Demosaicing reproduces measured samples and constant images",
  "Demosaicing keeps the measured colour of every pixel and maps a constant image to the same constant, for every pattern.",
  ["inputs"], "all images and patterns",
  "Tests use one image.",
  ["rawler/src/imgop/sensor/bayer"], [{"name": "demosaic", "where": "rawler/src/imgop/sensor/bayer"}],
  "PPG is a cascade of floating point interpolations over a whole image; the floating point obligations exceed CBMC's bit-blasting, and the installed Verus does not decide floating point arithmetic.")
