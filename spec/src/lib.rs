//! Independent specification of pixel layouts and colour conversion.
//! Written from the published standards and the documented behaviour; shares no code with /repo.
//! Everything is generic over `Num`, so the same text is evaluated in f64 with a running
//! f32-rounding error bound (`E`) and symbolically (engine `scx`).

pub mod num;
pub use num::{Num, E};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fmt { I420, I422, I444, I010, I012, I210, I212, I410, I412, NV12, YUYV, RGBA, BGRA, RGB, BGR }
pub use Fmt::*;
pub const FMTS: [Fmt; 15] = [I420, I422, I444, I010, I012, I210, I212, I410, I412, NV12, YUYV, RGBA, BGRA, RGB, BGR];

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Comp { Y, U, V, R, G, B, A }

/// One plane: a grid of cells, one per `wdiv` x `hdiv` pixels, each of `comps` samples of `bytes` bytes.
#[derive(Debug, Clone, Copy)]
pub struct Plane { pub wdiv: usize, pub hdiv: usize, pub comps: usize, pub bytes: usize }
impl Plane {
    pub fn packed_stride(&self, w: usize) -> usize { w / self.wdiv * self.comps * self.bytes }
    pub fn rows(&self, h: usize) -> usize { h / self.hdiv }
}
const fn pl(wdiv: usize, hdiv: usize, comps: usize, bytes: usize) -> Plane { Plane { wdiv, hdiv, comps, bytes } }

impl Fmt {
    pub fn planes(self) -> &'static [Plane] {
        match self {
            I420 => const { &[pl(1, 1, 1, 1), pl(2, 2, 1, 1), pl(2, 2, 1, 1)] },
            I422 => const { &[pl(1, 1, 1, 1), pl(2, 1, 1, 1), pl(2, 1, 1, 1)] },
            I444 => const { &[pl(1, 1, 1, 1), pl(1, 1, 1, 1), pl(1, 1, 1, 1)] },
            I010 | I012 => const { &[pl(1, 1, 1, 2), pl(2, 2, 1, 2), pl(2, 2, 1, 2)] },
            I210 | I212 => const { &[pl(1, 1, 1, 2), pl(2, 1, 1, 2), pl(2, 1, 1, 2)] },
            I410 | I412 => const { &[pl(1, 1, 1, 2), pl(1, 1, 1, 2), pl(1, 1, 1, 2)] },
            NV12 => const { &[pl(1, 1, 1, 1), pl(2, 2, 2, 1)] },
            YUYV => const { &[pl(2, 1, 4, 1)] },
            RGBA | BGRA => const { &[pl(1, 1, 4, 1)] },
            RGB | BGR => const { &[pl(1, 1, 3, 1)] },
        }
    }
    pub fn bits(self) -> u32 {
        match self { I010 | I210 | I410 => 10, I012 | I212 | I412 => 12, _ => 8 }
    }
    pub fn max(self) -> f64 { ((1u32 << self.bits()) - 1) as f64 }
    pub fn is_rgb(self) -> bool { matches!(self, RGBA | BGRA | RGB | BGR) }
    pub fn has_alpha(self) -> bool { matches!(self, RGBA | BGRA) }
    /// chroma subsampling factors
    pub fn sub(self) -> (usize, usize) {
        match self {
            I420 | I010 | I012 | NV12 => (2, 2),
            I422 | I210 | I212 | YUYV => (2, 1),
            _ => (1, 1),
        }
    }
    pub fn comps(self) -> &'static [Comp] {
        use Comp::*;
        match self {
            RGBA | BGRA => &[R, G, B, A],
            RGB | BGR => &[R, G, B],
            _ => &[Y, U, V],
        }
    }
    /// number of samples of a component in a w x h image: (columns, rows)
    pub fn grid(self, c: Comp, w: usize, h: usize) -> (usize, usize) {
        match c { Comp::U | Comp::V => { let (a, b) = self.sub(); (w / a, h / b) } _ => (w, h) }
    }
    /// Where sample (cx, cy) of component c lives: (plane, row, byte offset within the row)
    pub fn locate(self, c: Comp, cx: usize, cy: usize) -> (usize, usize, usize) {
        use Comp::*;
        let b = self.planes()[0].bytes;
        match self {
            RGBA | RGB => { let n = self.planes()[0].comps; let k = match c { R => 0, G => 1, B => 2, A => 3, _ => panic!() }; (0, cy, cx * n + k) }
            BGRA | BGR => { let n = self.planes()[0].comps; let k = match c { B => 0, G => 1, R => 2, A => 3, _ => panic!() }; (0, cy, cx * n + k) }
            YUYV => match c { Y => (0, cy, cx * 2), U => (0, cy, cx * 4 + 1), V => (0, cy, cx * 4 + 3), _ => panic!() },
            NV12 => match c { Y => (0, cy, cx), U => (1, cy, cx * 2), V => (1, cy, cx * 2 + 1), _ => panic!() },
            _ => match c { Y => (0, cy, cx * b), U => (1, cy, cx * b), V => (2, cy, cx * b), _ => panic!() },
        }
    }
    pub fn name(self) -> String { format!("{:?}", self) }
    pub fn parse(s: &str) -> Fmt { *FMTS.iter().find(|f| f.name() == s).expect("format") }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Space { BT601, BT709, BT2020, ICtCpPQ, ICtCpHLG }
pub const SPACES: [Space; 5] = [Space::BT601, Space::BT709, Space::BT2020, Space::ICtCpPQ, Space::ICtCpHLG];
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Prim { ST240, BT709, BT2020 }
pub const PRIMS: [Prim; 3] = [Prim::ST240, Prim::BT709, Prim::BT2020];
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Tf { Linear, Gamma22, Gamma28, SRGB, SDR, BT2100PQ, BT2100HLG }
pub const TFS: [Tf; 7] = [Tf::Linear, Tf::Gamma22, Tf::Gamma28, Tf::SRGB, Tf::SDR, Tf::BT2100PQ, Tf::BT2100HLG];

/// Colour description. `space`/`full` are ignored for RGB formats.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Color { pub tf: Tf, pub prim: Prim, pub yuv: Option<(Space, bool)> }

impl Space {
    /// (Kr, Kb) of the non constant luminance matrix coefficients (ITU-R BT.601-7, BT.709-6, BT.2020-2)
    pub fn kr_kb(self) -> Option<(f64, f64)> {
        match self { Space::BT601 => Some((0.299, 0.114)), Space::BT709 => Some((0.2126, 0.0722)), Space::BT2020 => Some((0.2627, 0.0593)), _ => None }
    }
}

type M3 = [[f64; 3]; 3];
pub fn inv3(m: &M3) -> M3 {
    let d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    let c = |a: usize, b: usize, e: usize, f: usize| m[a][b] * m[e][f];
    [
        [(c(1, 1, 2, 2) - c(1, 2, 2, 1)) / d, (c(0, 2, 2, 1) - c(0, 1, 2, 2)) / d, (c(0, 1, 1, 2) - c(0, 2, 1, 1)) / d],
        [(c(1, 2, 2, 0) - c(1, 0, 2, 2)) / d, (c(0, 0, 2, 2) - c(0, 2, 2, 0)) / d, (c(0, 2, 1, 0) - c(0, 0, 1, 2)) / d],
        [(c(1, 0, 2, 1) - c(1, 1, 2, 0)) / d, (c(0, 1, 2, 0) - c(0, 0, 2, 1)) / d, (c(0, 0, 1, 1) - c(0, 1, 1, 0)) / d],
    ]
}

impl Prim {
    /// CIE xy of R, G, B and the D65 white point
    pub fn chroma(self) -> [[f64; 2]; 4] {
        let w = [0.3127, 0.3290];
        match self {
            Prim::ST240 => [[0.63, 0.3400], [0.31, 0.595], [0.155, 0.07], w],
            Prim::BT709 => [[0.64, 0.33], [0.30, 0.60], [0.15, 0.06], w],
            Prim::BT2020 => [[0.708, 0.292], [0.170, 0.797], [0.131, 0.046], w],
        }
    }
    /// row-major RGB -> XYZ
    pub fn rgb_to_xyz(self) -> M3 {
        let c = self.chroma().map(|[x, y]| [x, y, 1.0 - x - y]);
        let m: M3 = [[c[0][0], c[1][0], c[2][0]], [c[0][1], c[1][1], c[2][1]], [c[0][2], c[1][2], c[2][2]]];
        let i = inv3(&m);
        let w = [c[3][0] / c[3][1], 1.0, c[3][2] / c[3][1]];
        let s: Vec<f64> = (0..3).map(|k| i[k][0] * w[0] + i[k][1] * w[1] + i[k][2] * w[2]).collect();
        let mut o = m;
        for r in 0..3 { for k in 0..3 { o[r][k] = m[r][k] * s[k]; } }
        o
    }
    pub fn xyz_to_rgb(self) -> M3 { inv3(&self.rgb_to_xyz()) }
}

fn mat<N: Num>(m: &M3, v: &[N; 3]) -> [N; 3] {
    let row = |r: usize| v[0].mulc(m[r][0]).add(&v[1].mulc(m[r][1])).add(&v[2].mulc(m[r][2]));
    [row(0), row(1), row(2)]
}

impl Tf {
    /// linear light -> non-linear signal
    pub fn encode<N: Num>(self, x: &N) -> N {
        match self {
            Tf::Linear => x.clone(),
            Tf::Gamma22 => x.max0().powc(1.0 / 2.2),
            Tf::Gamma28 => x.max0().powc(1.0 / 2.8),
            Tf::SRGB => x.select(0.0031308, false, &x.mulc(12.92), &x.powc(1.0 / 2.4).mulc(1.055).addc(-0.055)),
            Tf::SDR => x.select(0.01805397, true, &x.mulc(4.5), &x.powc(0.45).mulc(1.099).addc(-0.099)),
            Tf::BT2100PQ => pq_encode(x),
            Tf::BT2100HLG => hlg_encode(x),
        }
    }
    /// non-linear signal -> linear light
    pub fn decode<N: Num>(self, x: &N) -> N {
        match self {
            Tf::Linear => x.clone(),
            Tf::Gamma22 => x.max0().powc(2.2),
            Tf::Gamma28 => x.max0().powc(2.8),
            Tf::SRGB => x.select(0.04045, false, &x.divc(12.92), &x.addc(0.055).divc(1.055).powc(2.4)),
            Tf::SDR => x.select(0.081490956, true, &x.divc(4.5), &x.addc(0.099).divc(1.099).powc(1.0 / 0.45)),
            Tf::BT2100PQ => pq_decode(x),
            Tf::BT2100HLG => hlg_decode(x),
        }
    }
}
const M1: f64 = 2610.0 / 16384.0;
const M2: f64 = 2523.0 / 4096.0 * 128.0;
const C1: f64 = 3424.0 / 4096.0;
const C2: f64 = 2413.0 / 4096.0 * 32.0;
const C3: f64 = 2392.0 / 4096.0 * 32.0;
fn pq_encode<N: Num>(x: &N) -> N {
    let y = x.max0().divc(10000.0).powc(M1);
    y.mulc(C2).addc(C1).div(&y.mulc(C3).addc(1.0)).powc(M2)
}
fn pq_decode<N: Num>(x: &N) -> N {
    // BT.2100 defines the PQ EOTF on [0, 1] only
    let x = &x.upto(1.0);
    let e = x.max0().powc(1.0 / M2);
    e.addc(-C1).max0().div(&N::lit(C2).sub(&e.mulc(C3))).powc(1.0 / M1).mulc(10000.0)
}
const HA: f64 = 0.17883277;
const HB: f64 = 0.28466892;
const HC: f64 = 0.55991073;
fn hlg_encode<N: Num>(x: &N) -> N {
    let x = x.max0();
    x.select(1.0 / 12.0, false, &x.mulc(3.0).sqrt(), &x.mulc(12.0).addc(-HB).ln().mulc(HA).addc(HC))
}
fn hlg_decode<N: Num>(x: &N) -> N {
    let x = x.max0();
    x.select(0.5, false, &x.powc(2.0).divc(3.0), &x.addc(-HC).divc(HA).exp().addc(HB).divc(12.0))
}

/// CIE XYZ (D65) -> LMS with the 4% crosstalk of BT.2100 ICtCp
const XYZ_LMS: M3 = [[0.3593, 0.6976, -0.0359], [-0.1921, 1.1005, 0.0754], [0.0071, 0.0748, 0.8433]];
/// L'M'S' -> ICtCp (BT.2100-2 table 7)
const PQ_ICTCP: M3 = [[0.5, 0.5, 0.0], [6610.0 / 4096.0, -13613.0 / 4096.0, 7003.0 / 4096.0], [17933.0 / 4096.0, -17390.0 / 4096.0, -543.0 / 4096.0]];
const HLG_ICTCP: M3 = [[0.5, 0.5, 0.0], [3625.0 / 4096.0, -7465.0 / 4096.0, 3840.0 / 4096.0], [9500.0 / 4096.0, -9212.0 / 4096.0, -288.0 / 4096.0]];

/// scaled RGB -> (Y', Cb, Cr) / (I, Ct, Cp), chroma centred on zero
pub fn rgb_to_yuv<N: Num>(c: &Color, rgb: &[N; 3]) -> [N; 3] {
    let (space, _) = c.yuv.unwrap();
    if let Some((kr, kb)) = space.kr_kb() {
        let kg = 1.0 - kr - kb;
        // Y = Kr R + Kg G + Kb B, Cb = (B - Y) / (2 - 2 Kb), Cr = (R - Y) / (2 - 2 Kr)
        let m = [
            [kr, kg, kb],
            [-kr / (2.0 - 2.0 * kb), -kg / (2.0 - 2.0 * kb), 0.5],
            [0.5, -kg / (2.0 - 2.0 * kr), -kb / (2.0 - 2.0 * kr)],
        ];
        return mat(&m, rgb);
    }
    let lin = [c.tf.decode(&rgb[0]), c.tf.decode(&rgb[1]), c.tf.decode(&rgb[2])];
    let lms = mat(&XYZ_LMS, &mat(&c.prim.rgb_to_xyz(), &lin));
    let pq = space == Space::ICtCpPQ;
    let e = |x: &N| if pq { pq_encode(x) } else { hlg_encode(x) };
    mat(if pq { &PQ_ICTCP } else { &HLG_ICTCP }, &[e(&lms[0]), e(&lms[1]), e(&lms[2])])
}

pub fn yuv_to_rgb<N: Num>(c: &Color, yuv: &[N; 3]) -> [N; 3] {
    let (space, _) = c.yuv.unwrap();
    if let Some((kr, kb)) = space.kr_kb() {
        let kg = 1.0 - kr - kb;
        let m = [
            [1.0, 0.0, 2.0 - 2.0 * kr],
            [1.0, -kb * (2.0 - 2.0 * kb) / kg, -kr * (2.0 - 2.0 * kr) / kg],
            [1.0, 2.0 - 2.0 * kb, 0.0],
        ];
        return mat(&m, yuv);
    }
    let pq = space == Space::ICtCpPQ;
    let lms = mat(&inv3(if pq { &PQ_ICTCP } else { &HLG_ICTCP }), yuv);
    let d = |x: &N| if pq { pq_decode(x) } else { hlg_decode(x) };
    let xyz = mat(&inv3(&XYZ_LMS), &[d(&lms[0]), d(&lms[1]), d(&lms[2])]);
    let rgb = mat(&c.prim.xyz_to_rgb(), &xyz);
    [c.tf.encode(&rgb[0]), c.tf.encode(&rgb[1]), c.tf.encode(&rgb[2])]
}

/// A conversion problem: source/destination format and colour.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Conv { pub sf: Fmt, pub sc: Color, pub df: Fmt, pub dc: Color }

impl Conv {
    pub fn identity(&self) -> bool { self.sf == self.df && self.sc == self.dc }
    pub fn recolor(&self) -> bool { self.sc.tf != self.dc.tf || self.sc.prim != self.dc.prim }
    /// needs a transcendental function
    pub fn nonlinear(&self) -> bool {
        if self.identity() { return false; }
        let ict = |c: &Color| matches!(c.yuv, Some((Space::ICtCpPQ | Space::ICtCpHLG, _)));
        (!self.sf.is_rgb() && ict(&self.sc)) || (!self.df.is_rgb() && ict(&self.dc))
            || (self.recolor() && !(self.sc.tf == Tf::Linear && self.dc.tf == Tf::Linear))
    }

    /// Scaled RGBA of source pixel (x, y), in the destination's colour description.
    pub fn pixel<N: Num>(&self, s: &dyn Fn(Comp, usize, usize) -> N, x: usize, y: usize) -> [N; 4] {
        let mx = self.sf.max();
        let mut rgb;
        let mut a = N::lit(1.0);
        if self.sf.is_rgb() {
            rgb = [s(Comp::R, x, y).divc(mx), s(Comp::G, x, y).divc(mx), s(Comp::B, x, y).divc(mx)];
            if self.sf.has_alpha() { a = s(Comp::A, x, y).divc(mx); }
        } else {
            let (dx, dy) = self.sf.sub();
            let mut v = [s(Comp::Y, x, y).divc(mx), s(Comp::U, x / dx, y / dy).divc(mx), s(Comp::V, x / dx, y / dy).divc(mx)];
            if !self.sc.yuv.unwrap().1 {
                v[0] = v[0].addc(-16.0 / 255.0).mulc(255.0 / 219.0);
                v[1] = v[1].addc(-16.0 / 255.0).mulc(255.0 / 224.0);
                v[2] = v[2].addc(-16.0 / 255.0).mulc(255.0 / 224.0);
            }
            v[1] = v[1].addc(-0.5);
            v[2] = v[2].addc(-0.5);
            rgb = yuv_to_rgb(&self.sc, &v);
        }
        if self.recolor() {
            let lin = [self.sc.tf.decode(&rgb[0]), self.sc.tf.decode(&rgb[1]), self.sc.tf.decode(&rgb[2])];
            let l2 = mat(&self.dc.prim.xyz_to_rgb(), &mat(&self.sc.prim.rgb_to_xyz(), &lin));
            rgb = [self.dc.tf.encode(&l2[0]), self.dc.tf.encode(&l2[1]), self.dc.tf.encode(&l2[2])];
        }
        let [r, g, b] = rgb;
        [r, g, b, a]
    }

    /// Value (in code units, before rounding and saturation) of destination sample `c` at (cx, cy).
    pub fn expect<N: Num>(&self, s: &dyn Fn(Comp, usize, usize) -> N, c: Comp, cx: usize, cy: usize) -> N {
        if self.identity() { return s(c, cx, cy); }
        self.expect_px(&|x, y| self.pixel(s, x, y), c, cx, cy)
    }
    pub fn expect_px<N: Num>(&self, px: &dyn Fn(usize, usize) -> [N; 4], c: Comp, cx: usize, cy: usize) -> N {
        let mx = self.df.max();
        match c {
            Comp::R => px(cx, cy)[0].mulc(mx),
            Comp::G => px(cx, cy)[1].mulc(mx),
            Comp::B => px(cx, cy)[2].mulc(mx),
            Comp::A => px(cx, cy)[3].mulc(mx),
            _ => {
                let full = self.dc.yuv.unwrap().1;
                let yuv = |x: usize, y: usize| { let [r, g, b, _] = px(x, y); rgb_to_yuv(&self.dc, &[r, g, b]) };
                if c == Comp::Y {
                    let y = yuv(cx, cy)[0].clone();
                    return if full { y } else { y.mulc(219.0 / 255.0).addc(16.0 / 255.0) }.mulc(mx);
                }
                let k = if c == Comp::U { 1 } else { 2 };
                let (dx, dy) = self.df.sub();
                let mut acc: Option<N> = None;
                for j in 0..dy { for i in 0..dx {
                    let v = yuv(cx * dx + i, cy * dy + j)[k].clone();
                    acc = Some(match acc { None => v, Some(a) => a.add(&v) });
                } }
                let u = acc.unwrap().divc((dx * dy) as f64).addc(0.5);
                if full { u } else { u.mulc(224.0 / 255.0).addc(16.0 / 255.0) }.mulc(mx)
            }
        }
    }
}
