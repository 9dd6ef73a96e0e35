"""Which units decide which property."""
RW = ["rw1", "rw2", "io1", "io2", "simd1", "simd2"]
# (unit name, template, extraction variables)
TEMPLATES = [
    ("rw1", "rw", "PT=u8 S=1 PMAX=255"),
    ("rw2", "rw", "PT=u16 S=2 PMAX=65535"),
    ("io1", "io", "PT=u8 S=1 PMAX=255"),
    ("io2", "io", "PT=u16 S=2 PMAX=65535"),
    ("simd1", "simd", "PT=u8 S=1 PMAX=255"),
    ("simd2", "simd", "PT=u16 S=2 PMAX=65535"),
    ("disp", "disp", "PT=u8 S=1 PMAX=255"),
    ("dyn", "dyn", "PT=u8 S=1 PMAX=255"),
    ("mt", "mt", "PT=u8 S=1 PMAX=255"),
    ("conv", "conv", "PT=u8 S=1 PMAX=255"),
    ("layout", "layout", "PT=u8 S=1 PMAX=255"),
    ("resize", "resize", "PT=u8 S=1 PMAX=255"),
]
COMMON_ASSUMPTIONS = [
    "f32 arithmetic in the verified text is read as exact real arithmetic (rounding is covered by the concrete falsifier's running error bound only)",
    "machine integers are NOT idealised: overflow of usize/u8/u16/i32 is an obligation",
    "everything generic is verified through the trait Vector's contract; the scalar f32 and the AVX2 implementations are proved to satisfy it against a written-out model of unaligned reads/writes, transmute and the intrinsics (one clause per lane/byte); the AVX2 approximations of pow/ln, and the AVX-512 implementation (feature `unstable`), are compared with the specification by the falsifier only; NEON is out of reach on this machine",
    "the extraction drops: unsafe markers, inline/target_feature attributes, #[cfg] items of other targets, doc comments; it renames raw pointers to ghost-tracked slices (rules listed in coverage.extraction)",
    "a call through a trait object runs the implementation of the type in the box (the implementations themselves, for every reader and both vector types, are proved)",
]

def p(templates, note, quick=20, thorough=240, fallback=70, level="proof", trusted=(), assumptions=()):
    return {"templates": templates, "note": note, "secs": {"quick": quick, "thorough": thorough}, "fallback_secs": fallback, "level": level, "trusted": list(trusted), "assumptions": list(assumptions)}

L = ["layout"]
D = ["disp", "dyn"]
M = ["mt"]
PROPS = {
    "C01": p(RW + L + D, "Every raw load/store of all readers, writers and the 2x2 traversal is proved inside its plane for every even size, stride and vector width, and the bounds check is proved to demand enough memory; scalar and AVX2 loads/stores are proved, and convert is proved to hand out readers and writers only for images which passed the bounds check."),
    "C02": p(RW + L + D + M + ["resize"], "Frame conditions of all writers, the traversal, scalar and AVX2 stores, copy, convert and convert_multi_thread (all format pairs; an error leaves the destination alone) proved, and of the row views which the resizing library writes through (that it writes only through them is trusted)."),
    "C03": p(RW + ["conv"] + D, "Coverage and placement postconditions of traversal, readers, writers (per block and per whole image), converters, and the scalar and AVX2 loads/stores proved for every size; convert proved to compose them for every pair of formats and colors."),
    "C04": p(RW, "Readers and writers proved to depend on position only through the addressed samples, for an arbitrary vector width; the scalar and AVX2 implementations proved to satisfy one and the same contract (pow/ln approximations and AVX-512 exercised only)."),
    "C05": p(RW + L + D, "copy and convert between equal formats and colors proved to reproduce every sample bit for bit and leave everything else, for all formats, sizes and strides; float rounding is exercised on every code value."),
    "C06": p(["conv", "simd2"] + D, "Matrices, ranges and both directions proved over the reals for the generic code; float rounding is exercised only."),
    "C07": p(RW + D, "Channel order and alpha proved for readers and writers, down to the AVX2 interleaving loads and stores."),
    "C08": p(L, "buffer_size, packed_strides, plane_desc, bits_per_component, variants, all infer functions and blank proved against an independent table of the formats; overflow of a size is refused by panicking, proved never to wrap."),
    "C09": p(L, "Constructors and bounds_check proved to accept exactly the images whose planes suffice, with the right error otherwise."),
    "C10": p(L, "Cropped::new, crop_planes and the views' contents proved for all formats, windows and strides, including nesting (a window is again an image)."),
    "C11": p(L + RW + D + M, "split_planes proved to cut disjoint, complete, chroma-aligned bands which pass the bounds check; convert_multi_thread proved to have convert's own postcondition for every number of threads, whichever items rayon leaves out after a failure (no item is proved to fail, or all do). Trusted: rayon hands each item to one thread and leaves items out only after a failure; items borrow disjoint memory, so their order is irrelevant."),
    "C12": p(L + ["conv"] + D + M, "verify_input_windows, bounds_check, copy, the color checks of all converters and the exact error conditions and absence of effect of convert and convert_multi_thread proved."),
    "C13": p(RW + L + D, "Bit depths of formats and the clamp to the format's maximum proved for all readers and writers and their constructors."),
    "C14": p(["conv", "simd2"] + D, "All curves, segments and inverse laws proved over the reals (pow/exp/ln with their algebraic laws as axioms); vector approximations of pow/exp/ln exercised only."),
    "C15": p(["conv", "simd2"] + D, "Matrices checked against chromaticities by exact rational arithmetic and the conversion chain proved; rounding exercised only."),
    "C16": p(["conv", "simd2"] + D, "Averaging and replication proved for the matrix and ICtCp paths; rounding exercised only."),
    "C17": p(["resize", "layout"], "Resizer::new, Resizer::resize and every function of the two view types under contract: the library is handed each plane's rows (pixel type, width, height, stride, bytes), writes land in the image's rows and nowhere else, different formats are refused; the resizing library itself is trusted (it reads and writes through the views only and is a function of rows, sizes and options). resize requires what the library requires (valid images, sides below 2^32)."),
    "C18": p(RW + ["conv"] + D, "Writers proved to store enc(min(v*max, max)) with enc rounding and saturating; scalar and AVX2 stores proved to round half to even and saturate."),
    "C19": p(["conv", "simd2"] + D, "Whole ICtCp chain proved over the reals against BT.2100's definitions; rounding exercised only."),
}
NOT_APPLICABLE = {}
