//! One conversion (or copy) executed on the real crate and judged sample by sample against vspec.
use crate::map;
use crate::mem::Guarded;
use crate::rng::Rng;
use ezk_image as ez;
use ezk_image::{ImageMut, ImageRef, ImageRefExt};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vspec::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Api { Convert, Mt(usize), Copy }

#[derive(Clone, Debug)]
pub struct Side {
    pub fmt: Fmt,
    pub color: Color,
    /// size of the parent image
    pub pw: usize,
    pub ph: usize,
    /// window origin (None: the parent itself is converted)
    pub win: Option<(usize, usize)>,
    /// bytes added to each plane's packed stride
    pub extra: Vec<usize>,
    /// true: one buffer, false: one buffer per plane
    pub whole: bool,
    /// bytes after the last row
    pub trail: usize,
    /// drop the padding of the last row of every plane (split) / of the last plane (whole)
    pub short: bool,
    pub guard_end: bool,
}

#[derive(Clone, Debug)]
pub struct Case { pub api: Api, pub w: usize, pub h: usize, pub src: Side, pub dst: Side, pub pattern: String, pub seed: u64 }

impl Side {
    pub fn packed(fmt: Fmt, color: Color, w: usize, h: usize) -> Side {
        Side { fmt, color, pw: w, ph: h, win: None, extra: vec![0; fmt.planes().len()], whole: true, trail: 0, short: false, guard_end: true }
    }
    pub fn strides(&self) -> Vec<usize> { self.fmt.planes().iter().zip(&self.extra).map(|(p, e)| p.packed_stride(self.pw) + e).collect() }
    fn plane_lens(&self) -> Vec<usize> {
        let st = self.strides();
        let n = st.len();
        self.fmt.planes().iter().enumerate().map(|(i, p)| {
            let mut l = st[i] * p.rows(self.ph);
            if self.short && l > 0 && (!self.whole || i + 1 == n) { l -= self.extra[i]; }
            if !self.whole { l += self.trail; }
            l
        }).collect()
    }
    fn ser(&self, k: &str, m: &mut BTreeMap<String, String>) {
        m.insert(format!("{k}.fmt"), self.fmt.name());
        m.insert(format!("{k}.tf"), format!("{:?}", self.color.tf));
        m.insert(format!("{k}.prim"), format!("{:?}", self.color.prim));
        if let Some((s, f)) = self.color.yuv { m.insert(format!("{k}.space"), format!("{s:?}")); m.insert(format!("{k}.full"), f.to_string()); }
        m.insert(format!("{k}.parent"), format!("{}x{}", self.pw, self.ph));
        if let Some((x, y)) = self.win { m.insert(format!("{k}.win"), format!("{x},{y}")); }
        m.insert(format!("{k}.extra"), self.extra.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(","));
        m.insert(format!("{k}.whole"), self.whole.to_string());
        m.insert(format!("{k}.trail"), self.trail.to_string());
        m.insert(format!("{k}.short"), self.short.to_string());
        m.insert(format!("{k}.guard_end"), self.guard_end.to_string());
    }
    fn de(k: &str, m: &BTreeMap<String, String>) -> Side {
        let g = |f: &str| m.get(&format!("{k}.{f}")).cloned();
        let (a, b) = { let s = g("parent").unwrap(); let (a, b) = s.split_once('x').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) };
        Side {
            fmt: Fmt::parse(&g("fmt").unwrap()),
            color: Color {
                tf: *TFS.iter().find(|t| format!("{t:?}") == g("tf").unwrap()).unwrap(),
                prim: *PRIMS.iter().find(|t| format!("{t:?}") == g("prim").unwrap()).unwrap(),
                yuv: g("space").map(|s| (*SPACES.iter().find(|t| format!("{t:?}") == s).unwrap(), g("full").unwrap() == "true")),
            },
            pw: a, ph: b,
            win: g("win").map(|s| { let (a, b) = s.split_once(',').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }),
            extra: g("extra").unwrap().split(',').map(|s| s.parse().unwrap()).collect(),
            whole: g("whole").unwrap() == "true",
            trail: g("trail").unwrap().parse().unwrap(),
            short: g("short").unwrap() == "true",
            guard_end: g("guard_end").unwrap() == "true",
        }
    }
}

impl Case {
    pub fn ser(&self) -> String {
        let mut m = BTreeMap::new();
        m.insert("kind".into(), "convert".into());
        m.insert("api".into(), match self.api { Api::Convert => "convert".into(), Api::Copy => "copy".into(), Api::Mt(n) => format!("mt{n}") });
        m.insert("size".into(), format!("{}x{}", self.w, self.h));
        m.insert("pattern".into(), self.pattern.clone());
        m.insert("seed".into(), self.seed.to_string());
        self.src.ser("src", &mut m);
        self.dst.ser("dst", &mut m);
        m.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
    }
    pub fn de(m: &BTreeMap<String, String>) -> Case {
        let (a, b) = m["size"].split_once('x').unwrap();
        let api = match m["api"].as_str() { "convert" => Api::Convert, "copy" => Api::Copy, s => Api::Mt(s[2..].parse().unwrap()) };
        Case { api, w: a.parse().unwrap(), h: b.parse().unwrap(), src: Side::de("src", m), dst: Side::de("dst", m), pattern: m["pattern"].clone(), seed: m["seed"].parse().unwrap() }
    }
}

struct Store { side: Side, bufs: Vec<Guarded>, offs: Vec<(usize, usize)>, strides: Vec<usize> }
impl Store {
    fn new(side: &Side) -> Store {
        let lens = side.plane_lens();
        let mut offs = vec![];
        let mut bufs = vec![];
        if side.whole {
            let mut o = 0;
            for l in &lens { offs.push((0, o)); o += l; }
            bufs.push(Guarded::new(o + side.trail, side.guard_end));
        } else {
            for (i, l) in lens.iter().enumerate() { offs.push((i, 0)); bufs.push(Guarded::new(*l, side.guard_end)); }
        }
        Store { side: side.clone(), bufs, offs, strides: side.strides() }
    }
    /// (buffer, byte) of sample in window coordinates
    fn at(&self, c: Comp, cx: usize, cy: usize) -> (usize, usize) {
        let (wx, wy) = self.side.win.unwrap_or((0, 0));
        let (dx, dy) = if matches!(c, Comp::U | Comp::V) { self.side.fmt.sub() } else { (1, 1) };
        let (p, row, off) = self.side.fmt.locate(c, wx / dx + cx, wy / dy + cy);
        (self.offs[p].0, self.offs[p].1 + row * self.strides[p] + off)
    }
    fn bytes(&self) -> usize { self.side.fmt.planes()[0].bytes }
    fn set(&mut self, c: Comp, cx: usize, cy: usize, v: u32) {
        let (b, o) = self.at(c, cx, cy);
        let n = self.bytes();
        self.bufs[b].as_mut()[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
    }
}
fn get(bufs: &[Vec<u8>], n: usize, (b, o): (usize, usize)) -> u32 {
    if n == 1 { bufs[b][o] as u32 } else { u16::from_le_bytes([bufs[b][o], bufs[b][o + 1]]) as u32 }
}

// The images own the buffers; this view shares them so that they can be inspected afterwards.
struct View(*mut u8, usize);
unsafe impl Send for View {}
unsafe impl Sync for View {}
impl AsRef<[u8]> for View { fn as_ref(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.0, self.1) } } }
impl AsMut<[u8]> for View { fn as_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.0, self.1) } } }

pub fn set_cpus(n: usize) {
    extern "C" { fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32; }
    let m: [u64; 16] = { let mut a = [0u64; 16]; if n >= 64 { a = [!0; 16] } else { a[0] = (1u64 << n) - 1 } a };
    unsafe { sched_setaffinity(0, 128, m.as_ptr()); }
}

#[derive(Debug)]
pub enum Verdict { Ok { samples: usize }, Rejected(String), Bad(String) }

/// `strict_bits`: judge values too (false: memory, frame and coverage only)
pub fn run(c: &Case) -> Verdict {
    let mut r = Rng(c.seed);
    let mut s = Store::new(&c.src);
    let mut d = Store::new(&c.dst);
    for b in s.bufs.iter_mut().chain(d.bufs.iter_mut()) { for x in b.as_mut() { *x = r.next() as u8; } }
    let smax = (1u32 << c.src.fmt.bits()) - 1;
    let (base, hue) = (r.next(), r.next());
    for &k in c.src.fmt.comps() {
        let (gw, gh) = c.src.fmt.grid(k, c.w, c.h);
        for y in 0..gh { for x in 0..gw {
            let v = match c.pattern.as_str() {
                "rand" => r.next() as u32 % (smax + 1),
                "ext" => *[0, smax, smax, 0, smax / 2, 1, smax - 1].get(r.below(7)).unwrap(),
                "const" => ((base >> (8 * (k as u64 % 7))) as u32) % (smax + 1),
                "grad" => ((x as u64 * (3 + hue % 5) + y as u64 * (1 + hue % 11) + base + k as u64 * 17) % (smax as u64 + 1)) as u32,
                "mid" => (smax / 4 + r.next() as u32 % (smax / 2)).min(smax),
                "black" => 0,
                "white" => smax,
                p => panic!("pattern {p}"),
            };
            s.set(k, x, y, v);
        } }
    }
    let before_s: Vec<Vec<u8>> = s.bufs.iter().map(|b| b.as_ref().to_vec()).collect();
    let before: Vec<Vec<u8>> = d.bufs.iter().map(|b| b.as_ref().to_vec()).collect();

    let res = {
        let mkv = |st: &mut Store| -> Vec<View> { st.bufs.iter_mut().map(|b| { let b = b.as_mut(); View(b.as_mut_ptr(), b.len()) }).collect() };
        let (sv, dv) = (mkv(&mut s), mkv(&mut d));
        fn build(side: &Side, mut v: Vec<View>, st: Vec<usize>) -> Result<ez::Image<View>, ez::ImageError> {
            let f = map::fmt(side.fmt);
            let col = map::color(&side.color);
            if side.whole { ez::Image::from_buffer(f, v.pop().unwrap(), Some(st), side.pw, side.ph, col) }
            else { ez::Image::from_planes(f, v, Some(st), side.pw, side.ph, col) }
        }
        let api = c.api.clone();
        catch_unwind(AssertUnwindSafe(move || -> Result<Result<(), String>, String> {
            let si = build(&c.src, sv, c.src.strides()).map_err(|e| format!("src: {e}"))?;
            let di = build(&c.dst, dv, c.dst.strides()).map_err(|e| format!("dst: {e}"))?;
            let call = |a: &dyn ImageRef, b: &mut dyn ImageMut| -> Result<(), String> {
                match api {
                    Api::Convert => ez::convert(a, b),
                    Api::Copy => ez::copy(a, b),
                    Api::Mt(n) => { set_cpus(n); let r = ez::convert_multi_thread(a, b); set_cpus(64); r }
                }.map_err(|e| e.to_string())
            };
            let win = |(x, y): (usize, usize)| ez::Window { x, y, width: c.w, height: c.h };
            let ce = |e: ez::CropError| format!("crop: {e}");
            Ok(match (c.src.win, c.dst.win) {
                (None, None) => { let mut di = di; call(&si, &mut di) }
                (Some(a), None) => { let mut di = di; call(&si.crop(win(a)).map_err(ce)?, &mut di) }
                (None, Some(b)) => { let mut di = di.crop(win(b)).map_err(ce)?; call(&si, &mut di) }
                (Some(a), Some(b)) => { let mut di = di.crop(win(b)).map_err(ce)?; call(&si.crop(win(a)).map_err(ce)?, &mut di) }
            })
        }))
    };
    set_cpus(64);
    match res {
        Err(p) => { let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); return Verdict::Bad(format!("panicked: {m}")); }
        Ok(Err(e)) => return Verdict::Rejected(e),
        Ok(Ok(Err(e))) => return Verdict::Bad(format!("returned an error for a valid pair of images: {e}")),
        Ok(Ok(Ok(()))) => {}
    }
    let after_s: Vec<Vec<u8>> = s.bufs.iter().map(|b| b.as_ref().to_vec()).collect();
    if after_s != before_s { return Verdict::Bad("source image modified".into()); }
    let after: Vec<Vec<u8>> = d.bufs.iter().map(|b| b.as_ref().to_vec()).collect();

    // values
    let conv = Conv { sf: c.src.fmt, sc: c.src.color, df: c.dst.fmt, dc: c.dst.color };
    let (sn, dn) = (s.bytes(), d.bytes());
    let dmax = c.dst.fmt.max();
    let mut owned: Vec<Vec<bool>> = after.iter().map(|b| vec![false; b.len()]).collect();
    let mut samples = 0;
    let samp = |k: Comp, x: usize, y: usize| E::exact(get(&before_s, sn, s.at(k, x, y)) as f64);
    let ident = conv.identity() || c.api == Api::Copy;
    let mut cache: Vec<Option<[E; 4]>> = vec![None; if ident { 0 } else { c.w * c.h }];
    if !ident { for y in 0..c.h { for x in 0..c.w { cache[y * c.w + x] = Some(conv.pixel(&samp, x, y)); } } }
    for &k in c.dst.fmt.comps() {
        let (gw, gh) = c.dst.fmt.grid(k, c.w, c.h);
        for y in 0..gh { for x in 0..gw {
            let at = d.at(k, x, y);
            for i in 0..dn { owned[at.0][at.1 + i] = true; }
            let got = get(&after, dn, at) as f64;
            let e = if ident { samp(k, x, y) } else { conv.expect_px(&|x, y| cache[y * c.w + x].unwrap(), k, x, y) };
            samples += 1;
            let tol = e.e + if ident { 0.0 } else { 0.5 + 2e-5 * dmax };
            let (lo, hi) = ((e.v - tol).clamp(0.0, dmax), (e.v + tol).clamp(0.0, dmax));
            if e.v.is_nan() || e.e.is_nan() { continue; }
            if got < lo || got > hi {
                return Verdict::Bad(format!("{k:?} sample ({x},{y}) is {got}, specification says {:.4} (+-{:.4}) in 0..={dmax}", e.v, tol));
            }
        } }
    }
    for b in 0..after.len() { for o in 0..after[b].len() {
        if !owned[b][o] && after[b][o] != before[b][o] {
            return Verdict::Bad(format!("byte {o} of destination buffer {b} does not belong to a destination sample but changed from {} to {}", before[b][o], after[b][o]));
        }
    } }
    Verdict::Ok { samples }
}
