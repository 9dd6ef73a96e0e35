#!/usr/bin/env python3
"""Writes properties.jsonl (source of the property texts)."""
import json, os
I, C, H = "inputs", "configurations", "schedules"
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
FM = "src/formats"
OUT = [
P("C01", "Conversion never touches memory outside the planes of its images",
  "For any pair of images that convert, convert_multi_thread or copy accepts, every read stays inside the source planes and every write inside the destination planes. This holds for all formats, all even sizes, all strides and planes exactly as large as the bounds check demands, on every SIMD path. (All accesses go through unsafe raw pointers.)",
  [I, C], "all 15x15 format pairs, all even widths and heights, all strides and plane lengths accepted by bounds_check, all SIMD paths, all thread counts",
  "Out of bounds accesses depend on the exact combination of width, stride, plane length and SIMD tail; a stray access mostly goes unnoticed in a test.",
  [FM, "src/primitive.rs", "src/vector", "src/pixel_format.rs", "src/plane_decs.rs"],
  [("block traversal", "src/formats/visit_2x2.rs"), ("readers and writers", "src/formats/*/read.rs, src/formats/*/write.rs"), ("bounds check", "src/pixel_format.rs bounds_check")],
  observe=["ezk_image::convert", "ezk_image::copy"]),
P("C02", "Only the destination's samples change",
  "A successful conversion, copy or resize changes no byte other than the samples of the destination image: the source, stride padding, bytes outside a crop window and bytes after the image keep their values.",
  [I, C], "all format pairs, sizes, strides, crop windows and trailing bytes, all SIMD paths and thread counts",
  "Padding and neighbouring pixels are not part of any reference picture; only a frame condition over all bytes can exclude stray writes.",
  [FM, "src/copy.rs", "src/resize.rs", "src/crop.rs", "src/multi_thread.rs"],
  [("writers", "src/formats/*/write.rs"), ("row copy", "src/copy.rs copy_impl"), ("row views", "src/resize.rs iter_rows_mut")],
  observe=["ezk_image::convert", "ezk_image::copy", "ezk_image::resize::Resizer::resize"]),
P("C03", "Every destination sample is written from the pixel(s) at its own position",
  "After a successful conversion every sample of every destination plane has been written, and each depends exactly on the source pixel(s) covering the same position in the window. No block is skipped, duplicated, shifted or swapped, for any even width and height including the ones that are no multiple of the vector width.",
  [I, C], "all format pairs, all even widths and heights, all strides, all vector widths",
  "Tail handling differs for every width modulo the vector length; tests use one picture size that exercises few remainders.",
  [FM, "src/vector"],
  [("2x2 traversal", "src/formats/visit_2x2.rs"), ("readers and writers", "src/formats/*/read.rs, src/formats/*/write.rs"), ("interleaving loads/stores", "src/vector/*.rs")],
  observe=["ezk_image::convert"]),
P("C04", "The result depends on the pixels only, not on where they are stored",
  "Converting the same pixels gives the same picture whatever the strides, plane allocation, position in a larger image, or the SIMD path that processes them: every path stays within half a code unit plus float error of the one specified value.",
  [I, C], "all formats, layouts, window offsets and positions relative to the vector width; scalar, AVX2 and AVX-512 paths",
  "The layout space is unbounded and the paths agree on most values; tests only use packed images through one path.",
  [FM, "src/vector", "src/primitive.rs"],
  [("stride arithmetic", "src/formats/*/read.rs, src/formats/*/write.rs"), ("per-path load and store", "src/vector/avx2.rs, src/vector/avx512.rs, src/vector/mod.rs")],
  observe=["ezk_image::convert"]),
P("C05", "Same format and color: lossless copy",
  "When source and destination have the same pixel format and color description, convert, convert_multi_thread and copy reproduce every sample bit for bit.",
  [I, C], "all 15 formats, all sample values within the bit depth, all sizes and layouts",
  "Samples pass through normalised floats and back on this path; exactness for every value and layout is a universal statement.",
  ["src/lib.rs", "src/copy.rs", FM],
  [("dispatch", "src/lib.rs convert_same_color_and_pixel_format"), ("row copy", "src/copy.rs copy_impl"), ("normalise / denormalise", "src/formats/*/read.rs, src/formats/*/write.rs")],
  observe=["ezk_image::convert", "ezk_image::copy"]),
P("C06", "YUV and RGB are related by the declared matrix and range",
  "Conversions between RGB and YUV use the coefficients of the declared color space (BT.601, BT.709, BT.2020) and honour full and limited range on both sides, so that Y', Cb, Cr and R', G', B' are those of the standards. Converting RGB to YUV and back is the identity up to rounding.",
  [I, C], "all sample values, all three matrices, both ranges, all YUV formats, both directions",
  "A wrong coefficient or range moves colors by a few codes only; tests compare with nothing but a decodable picture.",
  ["src/color/space.rs", FM],
  [("matrices", "src/color/space.rs make_matrix"), ("range scaling", "src/formats/i4xx/to_rgb.rs, from_rgb.rs")],
  observe=["ezk_image::convert"]),
P("C07", "RGB family: channels keep their meaning, alpha is preserved or opaque",
  "Between RGBA, BGRA, RGB and BGR with equal color description each channel's value arrives unchanged in the channel of the same name; alpha is kept when both formats have it and fully opaque when the source has none.",
  [I, C], "all values of all pixels, all 16 format pairs, all sizes, all SIMD paths",
  "Interleave shuffles differ by path and width; a swapped or shifted lane shows only at particular positions.",
  ["src/formats/rgb", "src/formats/rgba", "src/vector"],
  [("readers and writers", "src/formats/rgb/*.rs, src/formats/rgba/*.rs"), ("interleaving", "src/vector/*.rs load/write_interleaved")],
  observe=["ezk_image::convert"]),
P("C08", "Layout arithmetic is consistent with itself and with the formats",
  "packed_strides, buffer_size, plane inference, Image::blank, bits_per_component and variants agree with each other and with the definition of each pixel format: the inferred planes lie consecutively, in order and disjoint in the buffer, each large enough. Sizes are exact or refused, never wrapped around.",
  [I, C], "all formats, all even sizes, all strides, buffers with trailing bytes or an unpadded last row, sizes up to usize::MAX",
  "Sizes and strides are unbounded; wrap-around and per-format subsampling errors appear only at particular values.",
  ["src/pixel_format.rs", "src/plane_decs.rs", "src/planes.rs", "src/image.rs"],
  [("plane descriptions", "src/plane_decs.rs"), ("sizes", "src/pixel_format.rs"), ("inference", "src/planes.rs infer_impl")],
  observe=["PixelFormat::buffer_size", "PixelFormat::packed_strides", "infer"]),
P("C09", "Images are accepted exactly when their memory suffices",
  "Image constructors and bounds_check accept an image if and only if it has nonzero size, the right number of planes, strides of at least one row and planes of at least stride*(rows-1) plus one row; everything else is an error naming the fault; only a size computation exceeding usize::MAX is refused by a panic instead, never wrapped. The planes of an accepted image are the given memory with the given strides.",
  [I, C], "all formats, sizes, strides, plane counts and lengths, one buffer or one per plane",
  "Acceptance is the precondition of all unsafe code; off by one cases around every bound of every plane cannot be enumerated by hand.",
  ["src/image.rs", "src/pixel_format.rs", "src/plane_decs.rs", "src/planes.rs"],
  [("bounds check", "src/pixel_format.rs bounds_check"), ("constructors", "src/image.rs"), ("read_planes", "src/planes.rs")],
  observe=["Image::from_buffer", "Image::from_planes", "PixelFormat::bounds_check"]),
P("C10", "A crop window shows exactly that rectangle of its parent",
  "Pixel (i, j) of a cropped image is pixel (x+i, y+j) of its parent, for reading and writing, for every plane, bit depth and nesting of windows. A window is accepted if and only if it lies inside the parent, without arithmetic overflow.",
  [I, C], "all formats, parents, strides, windows (offsets divisible by the subsampling) and nested windows, coordinates up to usize::MAX",
  "Offset arithmetic mixes strides in bytes, sample sizes and subsampling; errors show only for windows away from the origin or touching an edge.",
  ["src/crop.rs", "src/plane_decs.rs"],
  [("window check", "src/crop.rs Cropped::new"), ("plane views", "src/crop.rs crop_planes")],
  observe=["Cropped", "ImageRefExt::crop"]),
P("C11", "Multi-threaded conversion equals single-threaded conversion",
  "convert_multi_thread produces the image and the result that convert produces, for every number of CPUs and every schedule of the worker threads; the parts handed to the workers are disjoint, cover the image and keep chroma rows with their luma rows.",
  [I, C, H], "all formats and colors, all even sizes, all thread counts (also more threads than rows), all schedules",
  "Splitting depends on height modulo the number of CPUs of the machine; tests run on one machine with one picture.",
  ["src/multi_thread.rs"],
  [("split", "src/multi_thread.rs split_planes"), ("dispatch", "src/multi_thread.rs convert_multi_thread")],
  observe=["ezk_image::convert_multi_thread"]),
P("C12", "Invalid requests are refused with the right error and without effect",
  "Conversions of images with different sizes, odd sizes, missing YUV color information, too few planes, too small strides or planes are refused with the corresponding error; nothing is written and nothing panics. Valid requests are never refused.",
  [I, C], "all format pairs, all kinds of fault, both entry points",
  "The combination of fault, format pair and entry point is large, and the absence of any effect is a universal statement.",
  ["src/lib.rs", "src/multi_thread.rs", FM, "src/pixel_format.rs"],
  [("input check", "src/lib.rs verify_input_windows"), ("color check", "src/formats/*/to_rgb.rs, from_rgb.rs new"), ("bounds check", "readers' new, writers' write")],
  observe=["ezk_image::convert", "ezk_image::convert_multi_thread"]),
P("C13", "Bit depths are rescaled and never exceeded",
  "Samples are normalised by the maximum of the source's bit depth and rescaled to the destination's, so full scale maps to full scale between 8, 10 and 12 bit formats. No written sample exceeds the destination's bit depth, whatever the input.",
  [I, C], "all sample values (also ones above the declared depth), all format pairs involving 10 or 12 bit, all colors",
  "Exceeding the depth needs out of gamut or overshooting values; scaling errors are smaller than a test notices.",
  ["src/pixel_format.rs", "src/formats/mod.rs", FM],
  [("max value", "src/formats/mod.rs max_value_for_bits"), ("clamp", "src/formats/i4xx/write.rs")],
  observe=["ezk_image::convert"]),
P("C14", "Transfer functions follow their standards and are inverse pairs",
  "Linear, Gamma22, Gamma28, SRGB, SDR (BT.709/2020), BT2100PQ and BT2100HLG compute the curves of their standards in both directions, and linear_to_scaled and scaled_to_linear are inverse to each other on the nominal range. Conversions between transfers use the declared curves.",
  [I, C], "all input values of the nominal range and beyond (negative, above one), all seven curves, both directions, scalar and vector code",
  "Curves have several segments and constants; a wrong constant deviates by fractions of a code in one segment.",
  ["src/color/transfer.rs", "src/formats/transfer_and_primaries_convert.rs"],
  [("curves", "src/color/transfer.rs"), ("dispatch", "src/color/transfer.rs linear_to_scaled_v / scaled_to_linear_v")],
  observe=["ColorTransfer::linear_to_scaled", "ColorTransfer::scaled_to_linear", "ezk_image::convert"]),
P("C15", "Primaries conversion is exact and applied exactly when needed",
  "RGB to XYZ matrices are those of the chromaticities and the D65 white of ST 240, BT.709 and BT.2020, XYZ to RGB matrices are their inverses, and conversions go linear light -> XYZ -> linear light when transfer or primaries differ and leave colors alone otherwise. Equal primaries change nothing, white stays white.",
  [I, C], "all colors and all pairs of primaries and transfers, all formats",
  "A transposed or mistyped matrix entry still gives plausible pictures.",
  ["src/color/primaries.rs", "src/formats/transfer_and_primaries_convert.rs", "src/lib.rs"],
  [("matrices", "src/color/primaries.rs"), ("conversion", "src/formats/transfer_and_primaries_convert.rs")],
  observe=["ColorPrimaries::rgb_to_xyz_mat", "ezk_image::convert"]),
P("C16", "Chroma is averaged when subsampled and replicated when upsampled",
  "A subsampled chroma sample written by a conversion is the mean over exactly the pixels it covers (2x2 for 4:2:0, 2x1 for 4:2:2); when read, a chroma sample applies to exactly those pixels.",
  [I, C], "all subsampled formats (I420, I422, I010, I012, I210, I212, NV12, YUYV), all positions, values, color spaces",
  "Errors need chroma detail at pixel level; smooth or grey test pictures cannot show them.",
  ["src/formats/i420", "src/formats/i422", "src/formats/nv12", "src/formats/yuyv", "src/color/space.rs"],
  [("averaging", "src/color/space.rs rgbx4_to_yx4_uv, src/formats/i422/from_rgb.rs"), ("replication", "src/color/space.rs yx4_uv_to_rgb, src/formats/i422/to_rgb.rs")],
  observe=["ezk_image::convert"]),
P("C17", "The resizer resizes exactly the image's samples",
  "Resizer::resize computes for every plane what the underlying resizing library computes on a tightly packed copy of that plane, whatever strides, crop windows and trailing bytes the images have, writes nothing else, and refuses images of different formats.",
  [I, C], "all formats, source and destination sizes, strides, windows and algorithms",
  "The adapter hands raw row views to a library; wrong rows or cells appear only for padded, cropped or multi-component planes.",
  ["src/resize.rs", "src/plane_decs.rs"],
  [("row views", "src/resize.rs FirAdapterImageView::iter_rows / iter_rows_mut"), ("plane geometry", "src/resize.rs resize")],
  observe=["resize::Resizer::resize"]),
P("C18", "Stores round to nearest and saturate",
  "A computed component is stored as the nearest code, values below zero as 0 and values above the maximum as the maximum of the format, on every SIMD path; nothing wraps around or truncates.",
  [I, C], "all float values a conversion can produce, 8 and 16 bit stores, planar and interleaved, all SIMD paths",
  "Wrap-around needs extreme values at particular lanes; truncation versus rounding differs by at most one code.",
  ["src/vector", "src/primitive.rs", FM],
  [("stores", "src/vector/*.rs write_*"), ("scaling", "src/formats/*/write.rs")],
  observe=["ezk_image::convert"]),
P("C19", "ICtCp conversions follow BT.2100",
  "For ColorSpace ICtCpPQ and ICtCpHLG conversions decode the declared transfer, apply the declared primaries, the BT.2100 LMS matrix, the PQ or HLG curve and the ICtCp matrix of the standard, and the exact inverse in the other direction, in every format and subsampling.",
  [I, C], "all sample values, both ICtCp variants, all transfers, primaries, ranges and YUV formats",
  "The chain is long and non-linear; a test picture cannot be judged by eye and no reference picture exists.",
  ["src/color/space.rs", "src/color/transfer.rs"],
  [("bt2100", "src/color/space.rs mod bt2100"), ("2x2 blocks", "src/color/space.rs bt2100_rgbx4_to_yx4_uv / bt2100_yx4_uv_to_rgb")],
  observe=["ezk_image::convert"]),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for o in OUT: f.write(json.dumps(o) + "\n")
