//! Layout arithmetic, validation, crop views, rejection, the public colour API and the resizer,
//! each case determined by (kind, seed) and judged against vspec.
use crate::conv::Verdict;
use crate::gen::{pat, window};
use crate::map;
use crate::mem::Guarded;
use crate::rng::Rng;
use ezk_image as ez;
use ezk_image::{ImageMut, ImageRef, ImageRefExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vspec::*;

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
fn bad(s: String) -> Verdict { Verdict::Bad(s) }
fn any_color(r: &mut Rng, f: Fmt) -> Color { crate::gen::color(r, f, &SPACES, r.clone().pick(&TFS), r.clone().pick(&PRIMS)) }

/// smallest number of bytes of a plane
fn min_len(p: &Plane, stride: u128, w: u128, h: u128) -> u128 {
    let rows = h / p.hdiv as u128;
    if rows == 0 { 0 } else { stride * (rows - 1) + packed(p, w) }
}
fn packed(p: &Plane, w: u128) -> u128 { w / p.wdiv as u128 * (p.comps * p.bytes) as u128 }

pub fn run(kind: &str, seed: u64) -> Verdict {
    let mut r = Rng(seed);
    match kind {
        "layout" => layout(&mut r),
        "valid" => valid(&mut r),
        "crop" => crop(&mut r),
        "reject" => reject(&mut r),
        "transfer" => transfer(&mut r),
        "primaries" => primaries(&mut r),
        "resize" => resize(&mut r),
        k => panic!("kind {k}"),
    }
}

// ------------------------------------------------------------------ layout (C08)
fn layout(r: &mut Rng) -> Verdict {
    let f = r.pick(&FMTS);
    let ef = map::fmt(f);
    if ef.bits_per_component() != f.bits() as usize { return bad(format!("{f:?}: bits_per_component is {}", ef.bits_per_component())); }
    let vs: Vec<_> = ez::PixelFormat::variants().into_iter().collect();
    if vs.len() != 15 || !FMTS.iter().all(|f| vs.iter().filter(|v| **v == map::fmt(*f)).count() == 1) { return bad(format!("variants() is {vs:?}")); }
    if r.chance(1, 6) {
        // huge sizes: exact or refused, never wrapped around
        let (w, h) = ((r.next() >> r.below(64)) as usize & !1, (r.next() >> r.below(64)) as usize & !1);
        let exact: u128 = f.planes().iter().map(|p| packed(p, w as u128).saturating_mul((h / p.hdiv) as u128)).fold(0u128, |a: u128, b| a.saturating_add(b));
        if let Ok(n) = quiet(|| ef.buffer_size(w, h)) {
            if n as u128 != exact { return bad(format!("{f:?}: buffer_size({w}, {h}) is {n}, exact value {exact}")); }
        } else if w.max(1) as u128 * h.max(1) as u128 <= (usize::MAX / 64) as u128 { return bad(format!("{f:?}: buffer_size({w}, {h}) panicked, value {exact}")); }
        return Verdict::Ok { samples: 1 };
    }
    let (w, h) = (2 * r.range(1, 60), 2 * r.range(1, 20));
    let st = ef.packed_strides(w);
    let want: Vec<usize> = f.planes().iter().map(|p| p.packed_stride(w)).collect();
    if st != want { return bad(format!("{f:?}: packed_strides({w}) is {st:?}, {want:?} needed for one row of each plane")); }
    let size: usize = f.planes().iter().map(|p| p.packed_stride(w) * p.rows(h)).sum();
    if ef.buffer_size(w, h) != size { return bad(format!("{f:?}: buffer_size({w}, {h}) is {}, the planes take {size}", ef.buffer_size(w, h))); }
    let c = any_color(r, f);
    let b = ez::Image::blank(ef, w, h, map::color(&c));
    if b.format() != ef || b.width() != w || b.height() != h || b.color() != map::color(&c) { return bad(format!("{f:?}: blank({w}, {h}) has other metadata")); }
    let got: Vec<(usize, usize)> = b.planes().map(|(p, s)| (p.len(), s)).collect();
    let need: Vec<(usize, usize)> = f.planes().iter().map(|p| (p.packed_stride(w) * p.rows(h), p.packed_stride(w))).collect();
    if got != need { return bad(format!("{f:?}: blank({w}, {h}) has planes (len, stride) {got:?}, expected {need:?}")); }
    if b.bounds_check().is_err() { return bad(format!("{f:?}: blank({w}, {h}) fails its bounds check")); }
    if b.planes().any(|(p, _)| p.iter().any(|x| *x != 0)) { return bad(format!("{f:?}: blank image is not blank")); }
    // inference with arbitrary strides
    let st: Vec<usize> = f.planes().iter().map(|p| p.packed_stride(w) + if r.chance(1, 2) { 0 } else { r.range(1, 90) }).collect();
    let none = r.chance(1, 3);
    let st = if none { want } else { st };
    let lens: Vec<usize> = f.planes().iter().zip(&st).map(|(p, s)| s * p.rows(h)).collect();
    let total: usize = lens.iter().sum();
    let trail = if r.chance(1, 2) { 0 } else { r.range(1, 100) };
    let n = f.planes().len();
    let short = if r.chance(1, 3) { st[n - 1] - f.planes()[n - 1].packed_stride(w) } else { 0 };
    let len = total + trail - short.min(total);
    let mut buf = vec![0u8; len];
    let base = buf.as_ptr() as usize;
    let arg = if none { None } else { Some(&st[..]) };
    let a = match quiet(|| ez::infer(ef, &buf[..], w, h, arg).map(|p| (p.as_ptr() as usize - base, p.len())).collect::<Vec<_>>()) { Ok(a) => a, Err(e) => return bad(format!("{f:?}: infer({w}, {h}, {arg:?}) on {len} bytes panicked: {e}")) };
    let m = match quiet(|| ez::infer(ef, &mut buf[..], w, h, arg).map(|p| (p.as_ptr() as usize - base, p.len())).collect::<Vec<_>>()) { Ok(a) => a, Err(e) => return bad(format!("{f:?}: infer mut({w}, {h}, {arg:?}) on {len} bytes panicked: {e}")) };
    if a != m { return bad(format!("{f:?}: infer on &[u8] gives {a:?} but on &mut [u8] {m:?}")); }
    if a.len() != n { return bad(format!("{f:?}: infer gives {} planes", a.len())); }
    let mut o = 0;
    for i in 0..n {
        let need = min_len(&f.planes()[i], st[i] as u128, w as u128, h as u128) as usize;
        if a[i].0 != o || a[i].1 < need || o + a[i].1 > len || (i + 1 < n && a[i].1 != lens[i]) {
            return bad(format!("{f:?}: infer({w}, {h}, {arg:?}) on {len} bytes: plane {i} is {:?} (offset, len), expected offset {o} len {}", a[i], lens[i]));
        }
        o += lens[i];
    }
    macro_rules! one { ($g:ident, $($fs:ident)|+) => { if matches!(f, $($fs)|+) {
        let p: Vec<_> = ez::$g(&buf[..], w, h, arg).into_iter().map(|p| (p.as_ptr() as usize - base, p.len())).collect();
        if p != a { return bad(format!("{f:?}: {} gives {p:?}, infer gives {a:?}", stringify!($g))); }
    } } }
    one!(infer_i420, I420); one!(infer_i422, I422); one!(infer_i444, I444); one!(infer_nv12, NV12);
    one!(infer_i01x, I010 | I012); one!(infer_i21x, I210 | I212); one!(infer_i41x, I410 | I412);
    Verdict::Ok { samples: n }
}

// ------------------------------------------------------------------ validation (C09)
#[derive(Debug, PartialEq, Clone)]
enum Out { Ok, Dim, Planes, Stride(usize), Size(usize) }
fn bc(e: &ez::BoundsCheckError) -> Out {
    match e {
        ez::BoundsCheckError::InvalidNumberOfPlanes(_) => Out::Planes,
        ez::BoundsCheckError::InvalidStride { plane, .. } => Out::Stride(*plane),
        ez::BoundsCheckError::InvalidPlaneSize { plane, .. } => Out::Size(*plane),
    }
}
fn near(r: &mut Rng, v: usize) -> usize {
    match r.below(10) { 0 => v.saturating_sub(1), 1 => v.saturating_sub(r.range(1, 1 + v / 2)), 2 => v + 1, 3 => v + r.range(1, 64), 4 => v.saturating_sub(2), _ => v }
}
fn valid(r: &mut Rng) -> Verdict {
    let f = r.pick(&FMTS);
    let ef = map::fmt(f);
    let (mut w, mut h) = (2 * r.range(1, 20), 2 * r.range(1, 10));
    if r.chance(1, 20) { w = 0 }
    if r.chance(1, 20) { h = 0 }
    let n = f.planes().len();
    let mode = r.below(4); // 0 from_buffer, 1 from_planes, 2 PixelFormat::bounds_check, 3 crop of a custom image
    let mut st: Vec<usize> = f.planes().iter().map(|p| { let m = p.packed_stride(w); if r.chance(1, 2) { m } else { near(r, m) } }).collect();
    if r.chance(1, 16) {
        // absurd strides: refused (by error or, when the size does not fit into usize, by panic), never accepted
        let k = r.below(n);
        st[k] = if r.chance(1, 2) { usize::MAX - r.below(1000) } else { (r.next() >> r.below(20)) as usize };
    }
    let nstr = if r.chance(1, 12) { let k = r.range(0, n); st.truncate(k); k } else if mode == 0 && r.chance(1, 16) { st.push(8); n + 1 } else { n };
    let whole = mode == 0;
    let mins: Vec<u128> = f.planes().iter().zip(&st).map(|(p, s)| min_len(p, *s as u128, w as u128, h as u128)).collect();
    let fulls: Vec<u128> = f.planes().iter().zip(&st).map(|(p, s)| *s as u128 * p.rows(h) as u128).collect();
    const CAP: u128 = 1 << 20;
    let mut lens: Vec<usize> = vec![];
    let exp;
    let mut may_panic = false;
    if whole {
        let need: u128 = (0..st.len().min(n)).map(|i| if i + 1 == n { mins[i] } else { fulls[i] }).sum();
        let l = near(r, need.min(CAP) as usize);
        lens.push(l);
        exp = if w == 0 || h == 0 { vec![Out::Dim] } else if st.len() != n { vec![Out::Planes] } else {
            may_panic = fulls.iter().sum::<u128>() > usize::MAX as u128;
            let mut e = vec![];
            for i in 0..n { if (st[i] as u128) < packed(&f.planes()[i], w as u128) { e.push(Out::Stride(i)); } }
            let mut rem = l as u128;
            for i in 0..n { let m = if i + 1 == n { mins[i] } else { fulls[i] }; if rem < m { for j in 0..n { e.push(Out::Size(j)); } break; } rem -= m; }
            e
        };
    } else {
        let np = if r.chance(1, 14) { r.range(0, n) } else { n };
        for i in 0..np { let m = mins.get(i).copied().unwrap_or(64).min(CAP) as usize; lens.push(near(r, m)); }
        let have = np.min(st.len());
        let dim = mode == 1 && (w == 0 || h == 0);
        let mut e = vec![];
        if dim { e.push(Out::Dim); } else if have < n { e.push(Out::Planes); } else {
            for i in 0..n {
                may_panic |= fulls[i] > usize::MAX as u128;
                if (st[i] as u128) < packed(&f.planes()[i], w as u128) { e.push(Out::Stride(i)); }
                if (lens[i] as u128) < mins[i] { e.push(Out::Size(i)); }
            }
        }
        exp = e;
    }
    let desc = format!("{f:?} {w}x{h} strides {st:?} ({nstr} given) buffer lengths {lens:?} via {}", ["from_buffer", "from_planes", "PixelFormat::bounds_check", "crop of a custom image"][mode]);
    let col = map::color(&any_color(r, f));
    let mut bufs: Vec<Guarded> = lens.iter().map(|l| Guarded::new(*l, true)).collect();
    let starts: Vec<usize> = bufs.iter().map(|b| b.as_ref().as_ptr() as usize).collect();
    let mut samples = 1;
    let got = match quiet(|| -> Result<Out, String> {
        let check = |img: Result<ez::Image<Guarded>, ez::ImageError>| -> Result<Out, String> {
            match img {
                Err(ez::ImageError::InvalidDimensions) => Ok(Out::Dim),
                Err(ez::ImageError::BoundsCheck(e)) => Ok(bc(&e)),
                Ok(mut i) => {
                    if i.width() != w || i.height() != h || i.format() != ef || i.color() != col { return Err("metadata differs from what was given".into()); }
                    if let Err(e) = i.bounds_check() { return Err(format!("accepted image fails bounds_check: {e}")); }
                    let p: Vec<(usize, usize, usize)> = i.planes().map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect();
                    let q: Vec<(usize, usize, usize)> = i.planes_mut().map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect();
                    if p != q { return Err(format!("planes() {p:?} differ from planes_mut() {q:?}")); }
                    if p.len() != n { return Err(format!("{} planes", p.len())); }
                    let mut o = 0;
                    for k in 0..n {
                        let (base, len) = if whole { (starts[0] + o, lens[0] - o) } else { (starts[k], lens[k]) };
                        if p[k].2 != st[k] { return Err(format!("plane {k} has stride {}, given {}", p[k].2, st[k])); }
                        if p[k].0 != base || p[k].1 > len || (p[k].1 as u128) < mins[k] { return Err(format!("plane {k} is {:?}, expected to start at {base} with at least {} of {len} bytes", p[k], mins[k])); }
                        if whole { o += fulls[k] as usize; }
                    }
                    Ok(Out::Ok)
                }
            }
        };
        match mode {
            0 => check(ez::Image::from_buffer(ef, bufs.pop().unwrap(), Some(st.clone()), w, h, col)),
            1 => check(ez::Image::from_planes(ef, std::mem::take(&mut bufs), Some(st.clone()), w, h, col)),
            2 => Ok(match ef.bounds_check(bufs.iter().map(|b| b.as_ref()).zip(st.iter().copied()), w, h) { Ok(()) => Out::Ok, Err(e) => bc(&e) }),
            _ => {
                let raw = Raw { f: ef, w, h, c: col, planes: std::mem::take(&mut bufs), st: st.clone() };
                Ok(match raw.crop(ez::Window { x: 0, y: 0, width: w, height: h }) { Ok(_) => Out::Ok, Err(ez::CropError::BoundsCheck(e)) => bc(&e), Err(e) => return Err(format!("{e}")) })
            }
        }
    }) { Ok(Ok(o)) => o, Ok(Err(e)) => return bad(format!("{desc}: {e}")), Err(e) => { if may_panic { return Verdict::Rejected(e) } return bad(format!("{desc}: panicked: {e}")) } };
    samples += 1;
    if exp.is_empty() {
        if got != Out::Ok { return bad(format!("{desc}: sufficient memory, but refused: {got:?}")); }
    } else if !exp.contains(&got) { return bad(format!("{desc}: expected one of {exp:?}, got {got:?}")); }
    Verdict::Ok { samples }
}

/// An image implementation of a user: hands out whatever it was given
pub struct Raw { pub f: ez::PixelFormat, pub w: usize, pub h: usize, pub c: ez::ColorInfo, pub planes: Vec<Guarded>, pub st: Vec<usize> }
unsafe impl ImageRef for Raw {
    fn format(&self) -> ez::PixelFormat { self.f }
    fn width(&self) -> usize { self.w }
    fn height(&self) -> usize { self.h }
    fn color(&self) -> ez::ColorInfo { self.c }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> { Box::new(self.planes.iter().map(|p| p.as_ref()).zip(self.st.iter().copied())) }
}
unsafe impl ImageMut for Raw {
    fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> { Box::new(self.planes.iter_mut().map(|p| p.as_mut()).zip(self.st.iter().copied())) }
}
fn raw(r: &mut Rng, f: Fmt, c: &Color, w: usize, h: usize) -> Raw {
    let st: Vec<usize> = f.planes().iter().map(|p| p.packed_stride(w) + if r.chance(1, 2) { 0 } else { 2 * r.range(1, 30) }).collect();
    let mut planes: Vec<Guarded> = f.planes().iter().zip(&st).map(|(p, s)| Guarded::new(s * p.rows(h), true)).collect();
    for p in planes.iter_mut() { for b in p.as_mut() { *b = r.next() as u8; } }
    Raw { f: map::fmt(f), w, h, c: map::color(c), planes, st }
}

// ------------------------------------------------------------------ crop views (C10)
fn crop(r: &mut Rng) -> Verdict {
    let f = r.pick(&FMTS);
    let (pw, ph) = (2 * r.range(1, 30), 2 * r.range(1, 16));
    let c = any_color(r, f);
    let mut img = raw(r, f, &c, pw, ph);
    if r.chance(1, 3) {
        // the last row of a plane need not be padded
        for (i, p) in f.planes().iter().enumerate() { let l = min_len(p, img.st[i] as u128, pw as u128, ph as u128) as usize; let mut g = Guarded::new(l, true); g.as_mut().copy_from_slice(&img.planes[i].as_ref()[..l]); img.planes[i] = g; }
    }
    let ev = |v: usize| if f.sub() == (1, 1) { v } else { v & !1 };
    if r.chance(1, 3) {
        // bounds of the window
        let any = |r: &mut Rng, m: usize| match r.below(8) { 0 => usize::MAX - r.below(4), 1 => usize::MAX / 2 + r.below(4), 2 => m + r.below(3), _ => r.range(0, m) };
        let win = ez::Window { x: any(r, pw), y: any(r, ph), width: any(r, pw), height: any(r, ph) };
        let ok = win.x as u128 + win.width as u128 <= pw as u128 && win.y as u128 + win.height as u128 <= ph as u128;
        let got = match quiet(|| (&img).crop(win).map(|c| (c.width(), c.height()))) { Ok(g) => g, Err(e) => return bad(format!("crop of a {pw}x{ph} {f:?} image to {win:?} panicked: {e}")) };
        return match got {
            Ok(d) if ok && d == (win.width, win.height) => Verdict::Ok { samples: 1 },
            Err(ez::CropError::WindowSizeOutOfBounds) if !ok => Verdict::Ok { samples: 1 },
            g => bad(format!("crop of a {pw}x{ph} {f:?} image to {win:?} gives {g:?}, window {} the image", if ok { "lies inside" } else { "leaves" })),
        };
    }
    if r.chance(1, 8) {
        // windows without pixels are windows, too
        let (x, y) = (r.range(0, pw), r.range(0, ph));
        let (mut w, mut h) = (r.range(0, pw - x), r.range(0, ph - y));
        match r.below(3) { 0 => w = 0, 1 => h = 0, _ => { w = 0; h = 0; } }
        let f2 = r.pick(&FMTS);
        let mut other = raw(r, f2, &c, pw, ph);
        let desc = format!("{f:?} {pw}x{ph} strides {:?} empty window ({x},{y}) {w}x{h}", img.st);
        let c2 = any_color(r, f2);
        other.c = map::color(&c2);
        let o_before: Vec<Vec<u8>> = other.planes.iter().map(|p| p.as_ref().to_vec()).collect();
        let win = ez::Window { x, y, width: w, height: h };
        let res = quiet(|| -> Result<(), String> {
            let mut v = (&mut img).crop(win).map_err(|e| e.to_string())?;
            v.bounds_check().map_err(|e| e.to_string())?;
            if v.planes().count() != f.planes().len() || v.planes_mut().count() != f.planes().len() { return Err("wrong number of planes".into()); }
            let v = (&v).crop(ez::Window { x: 0, y: 0, width: w, height: h }).map_err(|e| e.to_string())?;
            let mut o = (&mut other).crop(win).map_err(|e| e.to_string())?;
            let odd = w % 2 == 1 || h % 2 == 1;
            match ez::convert(&v, &mut o) { Ok(()) if !odd => {} Err(ez::ConvertError::OddImageDimensions) if odd => {} g => return Err(format!("convert gives {g:?}")) }
            match ez::convert_multi_thread(&v, &mut o) { Ok(()) if !odd => {} Err(ez::ConvertError::OddImageDimensions) if odd => {} g => return Err(format!("convert_multi_thread gives {g:?}")) }
            Ok(())
        });
        match res { Err(e) => return bad(format!("{desc}: panicked: {e}")), Ok(Err(e)) => return bad(format!("{desc}: {e}")), _ => {} }
        if other.planes.iter().zip(&o_before).any(|(a, b)| a.as_ref() != &b[..]) { return bad(format!("{desc}: converting it changes the destination")); }
        return Verdict::Ok { samples: 1 };
    }
    let x = ev(r.range(0, pw - 1)); let y = ev(r.range(0, ph - 1));
    let w = ev(r.range(1, pw - x)).max(if f.sub() == (1, 1) { 1 } else { 2 }); let h = ev(r.range(1, ph - y)).max(if f.sub() == (1, 1) { 1 } else { 2 });
    let nest = r.chance(1, 2);
    let (x2, y2) = if nest { (ev(r.range(0, w - 1)), ev(r.range(0, h - 1))) } else { (0, 0) };
    let (w2, h2) = if nest { (ev(r.range(1, w - x2)).max(2).min(w - x2), ev(r.range(1, h - y2)).max(2).min(h - y2)) } else { (w, h) };
    let desc = format!("{f:?} {pw}x{ph} strides {:?} lens {:?} window ({x},{y}) {w}x{h}{}", img.st, img.planes.iter().map(|p| p.as_ref().len()).collect::<Vec<_>>(), if nest { format!(" then ({x2},{y2}) {w2}x{h2}") } else { String::new() });
    let starts: Vec<(usize, usize)> = img.planes.iter().map(|b| (b.as_ref().as_ptr() as usize, b.as_ref().len())).collect();
    let st = img.st.clone();
    let col = img.c;
    let res = quiet(move || -> Result<(Vec<(usize, usize, usize)>, Vec<(usize, usize, usize)>), String> {
        fn both(i: &mut (impl ImageMut + ?Sized), f: ez::PixelFormat, w: usize, h: usize, c: ez::ColorInfo) -> Result<(Vec<(usize, usize, usize)>, Vec<(usize, usize, usize)>), String> {
            if i.format() != f || i.width() != w || i.height() != h || i.color() != c { return Err("the view's format, size or color differs".into()); }
            i.bounds_check().map_err(|e| format!("the view fails its bounds check: {e}"))?;
            let a = i.planes().map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect();
            let b = i.planes_mut().map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect();
            Ok((a, b))
        }
        let f = img.f;
        let mut a = img.crop(ez::Window { x, y, width: w, height: h }).map_err(|e| e.to_string())?;
        if nest { let mut b = (&mut a).crop(ez::Window { x: x2, y: y2, width: w2, height: h2 }).map_err(|e| e.to_string())?; both(&mut b, f, w2, h2, col) } else { both(&mut a, f, w, h, col) }
    });
    let (a, b) = match res { Ok(Ok(v)) => v, Ok(Err(e)) => return bad(format!("{desc}: {e}")), Err(e) => return bad(format!("{desc}: panicked: {e}")) };
    if a != b { return bad(format!("{desc}: planes() and planes_mut() differ: {a:?} {b:?}")); }
    if a.len() != f.planes().len() { return bad(format!("{desc}: {} planes", a.len())); }
    let (ox, oy) = (x + x2, y + y2);
    for (i, p) in f.planes().iter().enumerate() {
        let want = starts[i].0 + oy / p.hdiv * st[i] + ox / p.wdiv * p.comps * p.bytes;
        if p.rows(h2) == 0 || p.packed_stride(w2) == 0 { continue; }
        if a[i].2 != st[i] || a[i].0 != want || a[i].0 + a[i].1 > starts[i].0 + starts[i].1 {
            return bad(format!("{desc}: plane {i} of the view is (offset {}, len {}, stride {}), expected offset {} stride {}", a[i].0 as i128 - starts[i].0 as i128, a[i].1, a[i].2, want - starts[i].0, st[i]));
        }
    }
    Verdict::Ok { samples: a.len() }
}

// ------------------------------------------------------------------ rejection (C12)
fn reject(r: &mut Rng) -> Verdict {
    let (sf, df) = (r.pick(&FMTS), r.pick(&FMTS));
    let (mut sc, mut dc) = (any_color(r, sf), any_color(r, df));
    if sf == df && r.chance(1, 2) { dc = sc; }
    let (w, h) = (2 * r.range(1, 24), 2 * r.range(1, 8));
    let (mut sw, mut sh, mut dw, mut dh) = (w, h, w, h);
    let mt = r.chance(1, 2);
    let mut what = String::new();
    let mut kinds: Vec<&str> = vec![];
    let fault = r.below(7);
    match fault {
        0 => {
            let d = 2 * r.range(1, 4);
            match r.below(9) {
                0 => sw += d, 1 => sh += d, 2 => dw += d, 3 => dh += d,
                // equal area, equal sum, swapped, one inside the other
                4 => { sw = 2 * w; dh = 2 * h }
                5 => { sh = 2 * h; dw = 2 * w }
                6 => { sw += d; dh += d }
                7 if w != h => { dw = h; dh = w }
                _ => { let (a, b) = (2 * r.range(0, 3), 2 * r.range(1, 3)); if r.chance(1, 2) { sw += a; sh += b } else { dw += b; dh += a } }
            }
            kinds = vec!["MismatchedImageSize"]; what = "sizes differ".into(); }
        1 => { match r.below(3) { 0 => { sw += 1; dw += 1 } 1 => { sh += 1; dh += 1 } _ => { sw += 1; dw += 1; sh += 1; dh += 1 } } kinds = vec!["OddImageDimensions"]; what = "odd size".into(); }
        2 if !sf.is_rgb() => { sc.yuv = None; what = "source color is not YUV".into(); kinds = vec!["InvalidColorInfo"]; }
        3 if !df.is_rgb() => { dc.yuv = None; what = "destination color is not YUV".into(); kinds = vec!["InvalidColorInfo"]; }
        _ => {}
    }
    if sf == df && sc == dc && kinds == ["InvalidColorInfo"] { kinds.clear(); }
    // storage always large enough for the (possibly odd) size
    let mut s = raw(r, sf, &sc, sw + sw % 2, sh + sh % 2); s.w = sw; s.h = sh;
    let mut d = raw(r, df, &dc, dw + dw % 2, dh + dh % 2); d.w = dw; d.h = dh;
    if kinds.is_empty() && fault >= 4 {
        let on_src = r.chance(1, 2);
        let (f, img) = if on_src { (sf, &mut s) } else { (df, &mut d) };
        let k = r.below(f.planes().len());
        let pl = &f.planes()[k];
        match fault {
            4 => { let m = min_len(pl, img.st[k] as u128, w as u128, h as u128) as usize; img.planes[k] = { let cut = if r.chance(1, 2) { 1 } else { m }; Guarded::new(m - r.range(1, cut), true) }; what = format!("plane {k} too short"); kinds = vec!["BoundsCheck"]; }
            5 => { let m = pl.packed_stride(w); img.st[k] = if r.chance(1, 4) { 0 } else { m - r.range(1, m) }; what = format!("stride of plane {k} smaller than a row"); kinds = vec!["BoundsCheck"]; }
            _ => { let keep = r.below(f.planes().len()); img.planes.truncate(keep); what = format!("only {keep} planes"); kinds = vec!["BoundsCheck", "InvalidNumberOfPlanes"]; }
        }
        what += if on_src { " (source)" } else { " (destination)" };
    }
    let before: Vec<Vec<u8>> = d.planes.iter().map(|p| p.as_ref().to_vec()).collect();
    let before_s: Vec<Vec<u8>> = s.planes.iter().map(|p| p.as_ref().to_vec()).collect();
    let cpus = r.range(1, 8);
    let desc = format!("{} {sf:?} {sw}x{sh} -> {df:?} {dw}x{dh}, {sc:?} -> {dc:?}, strides {:?} -> {:?}, lens {:?} -> {:?} [{}]", if mt { format!("convert_multi_thread({cpus} cpus)") } else { "convert".into() }, s.st, d.st, s.planes.iter().map(|p| p.as_ref().len()).collect::<Vec<_>>(), d.planes.iter().map(|p| p.as_ref().len()).collect::<Vec<_>>(), if what.is_empty() { "valid" } else { &what });
    let got = quiet(|| if mt { crate::conv::set_cpus(cpus); let r = ez::convert_multi_thread(&s, &mut d); crate::conv::set_cpus(64); r } else { ez::convert(&s, &mut d) });
    crate::conv::set_cpus(64);
    let got = match got { Ok(g) => g, Err(e) => return bad(format!("{desc}: panicked: {e}")) };
    let name = match &got { Ok(()) => "Ok", Err(ez::ConvertError::OddImageDimensions) => "OddImageDimensions", Err(ez::ConvertError::MismatchedImageSize) => "MismatchedImageSize", Err(ez::ConvertError::InvalidColorInfo) => "InvalidColorInfo", Err(ez::ConvertError::BoundsCheck(_)) => "BoundsCheck", Err(ez::ConvertError::InvalidNumberOfPlanes(_)) => "InvalidNumberOfPlanes" };
    if s.planes.iter().zip(&before_s).any(|(a, b)| a.as_ref() != &b[..]) { return bad(format!("{desc}: source modified")); }
    if kinds.is_empty() {
        if got.is_err() { return bad(format!("{desc}: refused with {name}")); }
    } else {
        if !kinds.contains(&name) { return bad(format!("{desc}: expected {kinds:?}, got {name}")); }
        if d.planes.iter().zip(&before).any(|(a, b)| a.as_ref() != &b[..]) { return bad(format!("{desc}: returned {name} but modified the destination")); }
    }
    Verdict::Ok { samples: 1 }
}

// ------------------------------------------------------------------ public colour API (C14, C15)
fn close(got: f32, want: E, slack: f64) -> bool { want.v.is_nan() || want.e.is_nan() || (got as f64 - want.v).abs() <= want.e + slack * (1.0 + want.v.abs()) }
fn transfer(r: &mut Rng) -> Verdict {
    let t = r.pick(&TFS);
    let et = map::tf(t);
    let mut n = 0;
    for _ in 0..64 {
        let x = match r.below(8) { 0 => 0.0, 1 => 1.0, 2 => r.f() as f32 * 0.1, 3 => -(r.f() as f32) * 0.2, 4 => 1.0 + r.f() as f32 * 0.1, _ => r.f() as f32 };
        let (a, b) = (et.linear_to_scaled(x), et.scaled_to_linear(x));
        let (wa, wb) = (t.encode(&E::exact(x as f64)), t.decode(&E::exact(x as f64)));
        if !close(a, wa, 2e-5) { return bad(format!("{t:?}.linear_to_scaled({x}) is {a}, the standard says {} (+-{})", wa.v, wa.e)); }
        if !close(b, wb, 2e-5) { return bad(format!("{t:?}.scaled_to_linear({x}) is {b}, the standard says {} (+-{})", wb.v, wb.e)); }
        if (0.0..=1.0).contains(&x) {
            // inverse pair on [0, 1] signal
            let back = et.linear_to_scaled(b);
            if (back - x).abs() > 2e-3 { return bad(format!("{t:?}: linear_to_scaled(scaled_to_linear({x})) is {back}")); }
        }
        n += 2;
    }
    Verdict::Ok { samples: n }
}
fn primaries(r: &mut Rng) -> Verdict {
    let p = r.pick(&PRIMS);
    let ep = map::prim(p);
    let (m, i) = (ep.rgb_to_xyz_mat(), ep.xyz_to_rgb_mat());
    let (wm, wi) = (p.rgb_to_xyz(), p.xyz_to_rgb());
    for a in 0..3 { for b in 0..3 {
        // stored transposed
        if (m[b][a] as f64 - wm[a][b]).abs() > 3e-4 { return bad(format!("{p:?}.rgb_to_xyz_mat[{b}][{a}] is {}, the chromaticities give {}", m[b][a], wm[a][b])); }
        if (i[b][a] as f64 - wi[a][b]).abs() > 3e-4 { return bad(format!("{p:?}.xyz_to_rgb_mat[{b}][{a}] is {}, the chromaticities give {}", i[b][a], wi[a][b])); }
    } }
    for f in FMTS {
        let c = any_color(r, f);
        let e = map::color(&c);
        if e.primaries() != map::prim(c.prim) || e.transfer() != map::tf(c.tf) { return bad(format!("ColorInfo accessors of {c:?} give {:?} {:?}", e.primaries(), e.transfer())); }
    }
    Verdict::Ok { samples: 18 }
}

// ------------------------------------------------------------------ resizer (C17)
fn resize(r: &mut Rng) -> Verdict {
    use ez::resize::{FilterType, ResizeAlg, Resizer};
    let f = r.pick(&FMTS);
    let c = any_color(r, f);
    let e2 = |r: &mut Rng, m: usize| 2 * r.range(1, m);
    let (sw, sh, dw, dh) = (e2(r, 16), e2(r, 10), e2(r, 16), e2(r, 10));
    let alg = match r.below(3) { 0 => ResizeAlg::Nearest, 1 => ResizeAlg::Convolution(FilterType::Bilinear), _ => ResizeAlg::Convolution(FilterType::CatmullRom) };
    // parents with windows
    let mut a = crate::conv::Side::packed(f, c, sw, sh);
    let mut b = crate::conv::Side::packed(f, c, dw, dh);
    if r.chance(1, 2) { window(r, &mut a, sw, sh); }
    if r.chance(1, 2) { window(r, &mut b, dw, dh); }
    let unit = f.planes()[0].bytes;
    let mk = |r: &mut Rng, s: &crate::conv::Side| -> Raw {
        let st: Vec<usize> = f.planes().iter().map(|p| p.packed_stride(s.pw) + if r.chance(1, 2) { 0 } else { unit * r.range(1, 20) }).collect();
        // exact, unpadded last row, or trailing bytes; always 2-byte aligned
        let tr = r.below(3);
        let mut planes: Vec<Guarded> = f.planes().iter().zip(&st).map(|(p, s2)| { let full = s2 * p.rows(s.ph); let l = match tr { 0 => full, 1 => full - (s2 - p.packed_stride(s.pw)), _ => full + 2 * r.range(1, 100) }; Guarded::new(l, true) }).collect();
        for p in planes.iter_mut() { for x in p.as_mut() { *x = r.next() as u8; } }
        Raw { f: map::fmt(f), w: s.pw, h: s.ph, c: map::color(&c), planes, st }
    };
    let s = mk(r, &a);
    let mut d = mk(r, &b);
    let _ = pat;
    let ((sx, sy), (dx, dy)) = (a.win.unwrap_or((0, 0)), b.win.unwrap_or((0, 0)));
    let desc = format!("resize {f:?} {alg:?} {sw}x{sh} at ({sx},{sy}) of {}x{} strides {:?} -> {dw}x{dh} at ({dx},{dy}) of {}x{} strides {:?}", s.w, s.h, s.st, d.w, d.h, d.st);
    let before: Vec<Vec<u8>> = d.planes.iter().map(|p| p.as_ref().to_vec()).collect();
    // oracle: the resizing library on tightly packed copies of exactly the image's samples
    let mut want = before.clone();
    for (k, p) in f.planes().iter().enumerate() {
        let pt = match (p.comps, p.bytes) { (1, 1) => fir::PixelType::U8, (1, 2) => fir::PixelType::U16, (2, 1) => fir::PixelType::U8x2, (3, 1) => fir::PixelType::U8x3, _ => fir::PixelType::U8x4 };
        let cell = p.comps * p.bytes;
        let (cw, ch, ew, eh) = (sw / p.wdiv, sh / p.hdiv, dw / p.wdiv, dh / p.hdiv);
        let mut buf = vec![];
        for y in 0..ch { let o = (sy / p.hdiv + y) * s.st[k] + sx / p.wdiv * cell; buf.extend_from_slice(&s.planes[k].as_ref()[o..o + cw * cell]); }
        let si = fir::images::Image::from_vec_u8(cw as u32, ch as u32, buf, pt).unwrap();
        let mut di = fir::images::Image::new(ew as u32, eh as u32, pt);
        fir::Resizer::new().resize(&si, &mut di, Some(&fir::ResizeOptions { algorithm: alg, cropping: fir::SrcCropping::None, mul_div_alpha: false })).unwrap();
        for y in 0..eh { let o = (dy / p.hdiv + y) * d.st[k] + dx / p.wdiv * cell; want[k][o..o + ew * cell].copy_from_slice(&di.buffer()[y * ew * cell..(y + 1) * ew * cell]); }
    }
    let before_s: Vec<Vec<u8>> = s.planes.iter().map(|p| p.as_ref().to_vec()).collect();
    let other = r.chance(1, 10);
    let res = quiet(|| -> Result<(), String> {
        let mut rs = Resizer::new(alg);
        if other {
            // different formats are refused
            let f2 = *FMTS.iter().filter(|g| **g != f).nth((sw * 7 + dh) % 14).unwrap();
            let mut o = ez::Image::blank(map::fmt(f2), dw, dh, map::color(&c));
            return match rs.resize(&s, &mut o) { Err(ez::resize::ResizeError::DifferentFormats(x, y)) if x == map::fmt(f) && y == map::fmt(f2) => Err("refused".into()), g => Err(format!("resize between {f:?} and {f2:?} gives {g:?}")) };
        }
        for _ in 0..r.below(3) { // a resizer is reusable, for any format and size
            let g = r.pick(&FMTS);
            let k = any_color(r, g);
            let (u, v) = (ez::Image::blank(map::fmt(g), e2(r, 12), e2(r, 12), map::color(&k)), ez::Image::blank(map::fmt(g), e2(r, 12), e2(r, 12), map::color(&k)));
            let mut v = v;
            rs.resize(&u, &mut v).map_err(|e| e.to_string())?;
        }
        let win = |(x, y): (usize, usize), w, h| ez::Window { x, y, width: w, height: h };
        let sv = (&s).crop(win((sx, sy), sw, sh)).map_err(|e| e.to_string())?;
        let mut dv = (&mut d).crop(win((dx, dy), dw, dh)).map_err(|e| e.to_string())?;
        rs.resize(&sv, &mut dv).map_err(|e| e.to_string())
    });
    match res {
        Err(e) => return bad(format!("{desc}: panicked: {e}")),
        Ok(Err(e)) if other && e == "refused" => return Verdict::Ok { samples: 0 },
        Ok(Err(e)) => return bad(format!("{desc}: {e}")),
        Ok(Ok(())) => {}
    }
    if s.planes.iter().zip(&before_s).any(|(a, b)| a.as_ref() != &b[..]) { return bad(format!("{desc}: source modified")); }
    let mut samples = 0;
    for k in 0..want.len() {
        samples += want[k].len();
        if let Some(o) = (0..want[k].len()).find(|&o| d.planes[k].as_ref()[o] != want[k][o]) {
            return bad(format!("{desc}: plane {k} byte {o} (row {}, column {}) is {}, expected {} (was {})", o / d.st[k], o % d.st[k], d.planes[k].as_ref()[o], want[k][o], before[k][o]));
        }
    }
    Verdict::Ok { samples }
}
