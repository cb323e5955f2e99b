"""what each check runs"""
V = "contract-based deductive verification (Verus) of the functions extracted from /repo"
PROPS = {
 "C08": dict(units=["chomp"], technique=V, level="proof",
   note="All five functions of Chomp proved for all inputs against a bit-sequence specification. Assumed: std's Peekable over vec::IntoIter; the newtype_derive expansions of BitCount's Sub/SubAssign are written out.",
   rule="Random byte strings read by random sequences of chomp/chomp_or/chomp_or_u16, compared with an independent bit string.",
   assumptions=["Peekable<IntoIter<u8>> yields the vector's bytes in order (std)", "newtype_derive's Sub and SubAssign on BitCount subtract the inner numbers", "8 * bytes.len() <= usize::MAX (Chomp::new)"]),
 "C06": dict(units=["data"], own=["src/decode/qr/data.rs"], technique=V, level="proof",
   note="data, numeric, alphanumeric, eight_bit, read_bits(_u16) and all of Chomp proved, for every payload and version, against a grammar of the bit stream; a lemma over the grammar proves that every sequence of encoded segments reads back as its characters. Assumed: format! with a zero-padded width, std's String::from_utf8 (its meaning of UTF-8), std's Peekable over vec::IntoIter.",
   rule="Random segment sequences encoded into standard symbols by an independent encoder, decoded through QRDecoder.",
   assumptions=["format!(\"{:0w}\", n) writes n in decimal padded with zeros to w digits, for n that fits", "String::from_utf8 is the definition of valid UTF-8 and of its text", "Peekable<IntoIter<u8>> yields the vector's bytes in order (std)", "the texts of error messages are not specified"]),
 "C07": dict(units=["data"], own=["src/decode/qr/data.rs"], technique=V, level="proof",
   note="Same contracts as C06 read in the other direction: for every payload and version, data returns an error exactly when the grammar rejects the payload; no arithmetic overflow, no index out of bounds, termination of every loop are obligations too. Same assumptions as C06.",
   rule="Malformed and random payloads put into symbols with correct error correction, decoded through QRDecoder and compared with an independent reader.",
   assumptions=["format!(\"{:0w}\", n) writes n in decimal padded with zeros to w digits, for n that fits", "String::from_utf8 is the definition of valid UTF-8 and of its text", "Peekable<IntoIter<u8>> yields the vector's bytes in order (std)"]),
 "C16": dict(units=["qrdata"], own=["src/util/qr.rs"], technique=V, level="proof",
   note="QRData::new and Index::index proved for all matrices and coordinates. Nothing assumed beyond the verifier and vstd.",
   rule="Random matrices, all pixel values, random and corner coordinates.",
   assumptions=["QRData::new is called with 4 * version + 17 within u32"]),
 "C03": dict(units=["format"], own=["src/decode/qr/format.rs", "src/decode/qr/galois.rs"], technique=V, level="proof",
   note="format, format1, format2, correct, syndromes, error_correction, mask, qrmask, GF4's operators and tables and QRData's lookup proved for every matrix: the selected word is the unique valid word within three bits, by the rule of the statement. The 576 error patterns and the 4096 cubics are enumerated inside the proof by the verifier's evaluator. Assumed: a boxed closure behaves as the closure in it.",
   rule="All 32 words with all patterns of up to three errors in copy 1 and random damage in both copies, plus random matrices, compared with an independent nearest-word search; the level is observed through QRInfo, the mask through the decoded text.",
   assumptions=["calling a Box<dyn Fn> is calling the closure in it (two wrapper types)", "the error text is not specified"]),
 "C04": dict(units=["blockinfo"], own=["src/decode/qr/mod.rs"], technique=V, level="proof",
   note="block_info proved for every version and level against the tables of ISO/IEC 18004 (check codewords per block, number of blocks) and the formula for the number of modules; the 160 pairs are evaluated inside the proof. Assumed: derive(Clone) of BlockInfo copies its fields.",
   rule="All 160 version/level pairs, each with a standard symbol and damage at and beyond the limit; other versions.",
   assumptions=["derive(Clone) on a struct of numbers copies the fields", "the error text is not specified"]),
 "C05": dict(units=["blocks", "blockinfo", "format"], own=["src/decode/qr/blocks.rs", "src/decode/qr/format.rs::mask", "src/decode/qr/format.rs::qrmask"], technique=V, level="proof",
   note="blocks, is_data, is_alignment_coord, alignment_location, y_range, Codewords and Blocks proved for every version, level, mask and matrix: the bits are those of the non-function modules in zigzag order, unmasked, and each block is exactly its own codewords in the interleaving order. block_info's contract is discharged in unit blockinfo, the mask closures' in unit format. Assumed: a boxed closure behaves as the closure in it, a boxed range iterator yields what the range yields.",
   rule="Random matrices of every version, level and mask, decoded through QRDecoder and compared with an independent placement and interleaving.",
   assumptions=["calling a Box<dyn Fn> is calling the closure in it", "iterating a Box<dyn Iterator> over a range yields what the range yields", "derive(Clone) on a struct of numbers copies the fields", "the error text is not specified"]),
}
_BOX = ["calling a Box<dyn Fn> is calling the closure in it", "iterating a Box<dyn Iterator> over a range yields what the range yields", "derive(Clone) on a struct of numbers copies the fields"]
_TXT = ["format!(\"{:0w}\", n) writes n in decimal padded with zeros to w digits, for n that fits", "String::from_utf8 is the definition of valid UTF-8 and of its text", "Peekable<IntoIter<u8>> yields the vector's bytes in order (std)"]
_RS = ["<[T]>::swap exchanges two elements; u8::count_ones counts the one bits (std)", "Mul/Div/Add/Sub/Neg operators of GF8 as extracted; solve is verified at the type GF8 it is used at by correct.rs"]
_ALL = ["galois", "format", "blockinfo", "blocks", "correct", "data", "decoder"]
PROPS.update({
 "C01": dict(units=["galois", "blockinfo", "correct", "decoder"], own=["src/decode/qr/correct.rs", "src/decode/qr/galois.rs", "src/decode/qr/decoder.rs"], technique=V, level="proof",
   note="Every function of correct.rs and galois.rs proved for every block: if some codeword is within the specified number of codewords of the block read, the result is Ok and is that codeword (Reed-Solomon theory - key equation, locator roots, Vandermonde - is proved as lemmas over GF(256)). On top, a theorem over QRDecoder::decode's contract: a symbol damaged within the limit decodes to the text of the undamaged one. Contracts of format, blocks and data used there are discharged in the checks of C03, C05, C06.",
   rule="Random texts, versions, levels and masks; every block damaged in up to the specified number of codewords at random and boundary positions; decoded through QRDecoder.",
   assumptions=_RS + _BOX + ["the error text is not specified"]),
 "C02": dict(units=["galois", "blockinfo", "correct", "decoder"], own=["src/decode/qr/correct.rs", "src/decode/qr/galois.rs", "src/decode/qr/decoder.rs"], technique=V, level="proof",
   note="Same contracts as C01 in the other direction: every Ok of correct and correct_with_error_count is a codeword within the specified distance of the block read, for every block; a theorem over QRDecoder::decode's contract states it for symbols, including that a block far from every codeword gives an error.",
   rule="Blocks damaged beyond the limit: by random errors, by random blocks and by words one codeword further from a codeword than the limit; compared with an independent bounded-distance decoder.",
   assumptions=_RS + _BOX + ["the error text is not specified"]),
 "C09": dict(units=_ALL, own=["src/decode/qr/decoder.rs"], own_kind=r"overflow|underflow|precondition not satisfied|decreases|out of range|bit shift|divi", technique=V, level="proof",
   note="QRDecoder::decode, QRDecoderWithInfo::decode and every function they call (format.rs, mod.rs, blocks.rs, correct.rs, galois.rs, data.rs, chomp.rs, qr.rs) are verified for every matrix with side 4*version+17: index bounds, arithmetic overflow, shifts, divisions, unwraps and termination of every loop are obligations of the verifier; versions outside 1-40 provably give an error.",
   rule="Random, structured and damaged matrices of versions 0 to 45 and some huge ones, both decoders, with a time limit.",
   assumptions=_BOX + _TXT + _RS[:1] + ["memory suffices", "debug! logging does not panic", "QRData has data.len() == side * side and side == 4 * version + 17"]),
 "C10": dict(units=["galois", "correct", "agree"], own=["src/decode/qr/decoder.rs", "src/decode/qr/correct.rs::correct"], technique=V, level="proof",
   note="Both decode functions proved against the same specification of what a symbol denotes, so they succeed on the same inputs with the same text; version, level, total and error count (sum over the blocks of the number of bits in which the codeword differs from the block read) are postconditions. Where they fail, both are proved to return the text of the error of the first step that fails, on what the steps before it give; that the steps (format, blocks, block_info, correct_with_error_count, data) give equal error texts for equal arguments is assumed of safe code without state, clock, randomness, input or addresses, and that their files are such is checked on the tokens.",
   rule="Clean, damaged and random matrices decoded by both decoders; texts, errors and the four facts compared, the facts with an independent decoder.",
   assumptions=_BOX + _TXT + _RS + ["which text an error has is not specified: only that equal arguments give equal texts"]),
 "C15": dict(units=_ALL, own=["src/decode/qr/decoder.rs"], technique=V, level="proof",
   note="Theorem over the contract of decode, discharged with every function below it: a matrix with a format word within three bits in copy 1, whose blocks (read through the standard's placement, mask and interleaving) are within the limit of codewords whose data bits are any sequence of numeric, alphanumeric and byte segments plus terminator, decodes to exactly the segments' characters.",
   rule="Random texts, segmentations, versions, levels and masks encoded by an independent encoder, clean and with damage within the limits.",
   assumptions=_BOX + _TXT + _RS + ["a standard symbol is described by what its modules, read in the standard's order, spell; the function patterns themselves are not looked at by the decoder"]),
})
PROPS.update({
 "C11": dict(units=["pipeline", "decoder"], own=["src/decoder.rs", "src/decode/qr/decoder.rs"], technique=V, level="proof",
   note="Decoder::decode proved for arbitrary components: the four traits carry an abstract contract (what each may return for what it was given), and the result is exactly one entry per reported location, in order, each related to its own location only by the extract and decode contracts. DecoderBuilder's functions proved to hand the components through. That both QR decoders return an extraction error unchanged is a theorem over their contracts (unit decoder).",
   rule="Decoders assembled from recording mock components with random locations and failures, and default decoders on images.",
   assumptions=["anyhow's Error::from wraps the error it is given", "components are functions of their arguments and of what their contract allows (they may be nondeterministic)", "Result::map_err, Option::unwrap, Vec (std, contracts of vstd)"]),
})
_IMG = ["the image crate: GrayImage::new, dimensions, get_pixel(_checked/_mut), enumerate_pixels, Pixel::channels(_mut), imageops::grayscale and GenericImageView behave as their contracts in contracts/image_spec.vc and prepare_spec.vc say (an image is a value; its buffer holds exactly width x height bytes)",
        "f64 operators are total and deterministic (which number they give is not specified)"]
PROPS.update({
 "C12": dict(units=["prepare"], floats=True, own=["src/prepare/blockedmean.rs"], technique=V, level="proof",
   note="Every function of blockedmean.rs proved for every image with at most 2^36 pixels and every block size and mean size >= 1 for which the block numbers fit u32 (for the default 5 and 7 by a theorem over the contract that is always so): no index outside a vector or the image, no overflow, termination, same dimensions, only 0 and 255, monotone within a block. Floating-point means are left unspecified except that converting u8 to f64 keeps the order.",
   rule="Random images of all kinds of sizes including empty, one pixel wide and sizes around multiples of the block, random block parameters; dimensions, values and monotony checked.",
   assumptions=_IMG + ["f64 is IEEE 754 binary64 and f64::from(u8) is exact (that it then keeps the order is proved with Flocq, float/Bounds.v)", "derived Ord on BlockCoord compares the number; newtype_derive's Add and Mul on BlockCoord add and multiply the numbers", "at most 2^36 pixels, fitting usize; the number of blocks fits u32"]),
 "C13": dict(units=["extract", "qrdata"], own=["src/extract/qr/mod.rs", "src/util/point.rs"], technique=V, level="proof",
   note="extract, determine_perspective, is_alignment, sample, Perspective::new and all operators of point.rs proved for every image and every location, whatever the numbers in it (NaN and infinities included): every get_pixel is inside the image, no overflow, every loop ends, an Ok result has side * side entries, each a pixel of the image, and the location's version, which is at most 40. f64 results are left unspecified (only determinism is used), so nothing is assumed about rounding.",
   rule="Random images and locations: true codes, rotated, skewed, degenerate, outside the image, with NaN and infinite coordinates; result shape and entries checked.",
   assumptions=_IMG + ["f64::round and `as u32` give the same number each time for the same operand", "Option::map, unwrap_or, ? (std, contracts of vstd)", "the error texts are not specified"]),
})
PROPS.update({
 "C14": dict(units=["detect"], floats=True, own=["src/detect/linescan.rs"], technique=V, level="proof",
   note="Every function of linescan.rs (the line scan, the three refinements, the run-length pattern, the triple search) proved for every image with sides of at most 2^28 pixels: every get_pixel is inside the image, no run-length or module-count overflow, no underflow of the version, every loop ends, every reported location has version >= 1 and as corners three of the candidates with three different numbers, each with its centre not right of or below the image. f64 arithmetic enters through interval facts (sums, differences, products, quotients, square roots, rounding keep to bounds that are f64 numbers), each proved about IEEE 754 binary64 with Coq and Flocq.",
   rule="Random images: noise, stripes, finder patterns at the borders, drawn codes, one pixel wide or high, empty; locations checked.",
   assumptions=_IMG[:1] + ["f64 is IEEE 754 binary64, its operators and sqrt round to nearest even, round() rounds half away from zero, `as u32` saturates (the interval facts in contracts/f64_bounds.vc follow: proved with Flocq, float/Bounds.v)", "Iterator::zip asks the first and then the second iterator; Range and Repeat give what they are defined to give; a boxed dyn Fn calls the function it was made from", "std::cmp::min", "sides of at most 2^28 pixels"]),
})
PROPS.update({
 "C18": dict(units=["debug_detect", "debug_extract"], floats=True, own=["src/detect/linescan.rs::debug_candidates"] + ["src/extract/qr/mod.rs::debug_" + x for x in ("picture", "dot", "save", "alignment", "pattern")], own_clause=r"\bdebug_\w+\(", technique=V, level="proof",
   note="detect, extract, determine_perspective and is_alignment verified with the feature on: each statement under cfg(feature = \"debug-images\") is turned mechanically into a function of the variables it reads, passed by value or by shared reference, and a call of it. Ownership is the frame condition (it cannot write to anything the rest of the function reads), put_pixel inside the picture, no overflow and termination are obligations, and so is every precondition the feature adds. What remains when the calls are taken away is the program without the feature. That the feature guards nothing else in the crate is checked on the token stream.",
   rule="The scenes of C13 and C14 plus whole images run through the crate built with the feature and through the crate built without it (two processes), results compared.",
   assumptions=["the image crate: GrayImage::clone, DynamicImage::to_rgb8, save, RgbImage::put_pixel as in contracts/debug_image.vc", "temp_dir, create_dir_all, save and PathBuf do not panic and touch nothing the program reads", "no interior mutability in GrayImage, QRLocation, QRFinderPosition, Point and Delta (they are plain data)", "the file names (format!) are not specified", "sides of at most 2^28 pixels", "f64 is IEEE 754 binary64 (interval facts as in C14)"]),
})
PROPS.update({
 "C19": dict(units=["whole", "prepare", "detect", "extract", "qrdata"] + _ALL, floats=True, own=["src/decoder.rs"], technique=V, level="proof",
   note="default_builder, default_builder_with_info, default_decoder, default_decoder_with_info and the constructors verified against the contracts of the parts (each discharged on the code in its own unit: BlockedMean, LineScan, QRExtractor, QRDecoder, QRDecoderWithInfo and everything they call), and a theorem over the generic Decoder::decode: every precondition of every part holds whatever the image, so no panic is reachable, and each entry is an error or what a matrix of pixels of the prepared image denotes by C03-C08.",
   rule="Whole images - noise, stripes, drawn codes clean, damaged, touching the border, several per image, tiny and empty images - through both default decoders; every text found is looked for among what was drawn, or among what the independent decoder reads from the matrix extracted.",
   assumptions=_IMG + _BOX + _TXT + _RS + ["the assumptions of C11, C12, C13 and C14", "a Box<dyn Trait> made from a component is that component, as Verus models the coercion", "sides of at most 2^28 pixels and at most 2^36 pixels in all", "memory suffices; debug! logging does not panic"]),
})
NA = {
 "C17": "Detection of every cleanly rendered code depends on floating-point heuristics over continuous geometry; Verus has no theory of f64 rounding arithmetic and the property has no contract over the code's intermediate values that would decide it.",
}
