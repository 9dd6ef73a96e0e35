//! Case generators, one per property.
use crate::conv::*;
use crate::rng::Rng;
use vspec::*;

pub const MATRIX: [Space; 3] = [Space::BT601, Space::BT709, Space::BT2020];
pub const YUVS: [Fmt; 11] = [I420, I422, I444, I010, I012, I210, I212, I410, I412, NV12, YUYV];
pub const RGBS: [Fmt; 4] = [RGBA, BGRA, RGB, BGR];

pub fn color(r: &mut Rng, f: Fmt, spaces: &[Space], tf: Tf, prim: Prim) -> Color {
    Color { tf, prim, yuv: if f.is_rgb() { None } else { Some((r.pick(spaces), r.chance(1, 2))) } }
}
fn w_even(r: &mut Rng) -> usize {
    if r.chance(1, 150) { return 2 * r.range(200, 2200); }
    match r.below(8) { 0 => 2, 1 => 2 * r.range(1, 8), 2 => 16 * r.range(1, 4), 3 => 2 * r.range(60, 200), _ => 2 * r.range(1, 40) }
}
fn h_even(r: &mut Rng) -> usize { if r.chance(1, 300) { return 2 * r.range(40, 1200); } match r.below(8) { 0 => 2, 1 => 2 * r.range(10, 40), _ => 2 * r.range(1, 6) } }

/// Random storage layout (strides, buffers, trailing bytes)
pub fn layout(r: &mut Rng, s: &mut Side) {
    s.whole = r.chance(1, 2);
    let unit = s.fmt.planes()[0].bytes;
    for e in s.extra.iter_mut() { *e = match r.below(4) { 0 => 0, 1 => r.range(1, 40), 2 => unit * r.range(1, 64), _ => unit * r.range(64, 300) }; }
    s.trail = if r.chance(1, 2) { 0 } else { r.range(1, 400) };
    s.guard_end = r.chance(3, 4);
    s.short = r.chance(1, 4);
}
pub fn window(r: &mut Rng, s: &mut Side, w: usize, h: usize) {
    // any origin that starts at a whole chroma sample
    let (dx, dy) = s.fmt.sub();
    let x = dx * r.range(0, 24 / dx);
    let y = dy * r.range(0, 12 / dy);
    let (rx, ry) = (if r.chance(1, 2) { 0 } else { 2 * r.range(0, 12) }, if r.chance(1, 2) { 0 } else { 2 * r.range(0, 6) });
    s.win = Some((x, y));
    s.pw = w + x + rx;
    s.ph = h + y + ry;
}
pub fn pat(r: &mut Rng) -> String { r.pick(&["rand", "rand", "rand", "ext", "const", "grad", "mid", "black", "white"]).to_string() }

pub fn gen(prop: &str, r: &mut Rng) -> Case {
    let (mut w, mut h) = (w_even(r), h_even(r));
    let mut sf = r.pick(&FMTS);
    let mut df = r.pick(&FMTS);
    let (mut stf, mut sprim) = (r.pick(&TFS), r.pick(&PRIMS));
    let (mut dtf, mut dprim) = (stf, sprim);
    let mut spaces: Vec<Space> = MATRIX.to_vec();
    let mut api = Api::Convert;
    let (mut lay, mut win) = (false, (false, false));
    match prop {
        "C01" | "C02" | "C03" => { lay = true; win = (r.chance(1, 3), r.chance(1, 3)); if r.chance(1, 4) { df = sf; } if r.chance(1, 6) { api = Api::Mt(r.range(1, 8)); } else if df == sf && r.chance(1, 2) { api = Api::Copy; } }
        "C04" => { lay = true; win = (r.chance(1, 3), r.chance(1, 3)); }
        "C05" => { df = sf; lay = true; win = (r.chance(1, 3), r.chance(1, 3)); if r.chance(1, 3) { api = Api::Copy; } else if r.chance(1, 3) { api = Api::Mt(r.range(1, 8)); } }
        "C06" => { if r.chance(1, 2) { sf = r.pick(&YUVS); } else { df = r.pick(&YUVS); } }
        "C07" => { sf = r.pick(&RGBS); df = r.pick(&RGBS); lay = r.chance(1, 2); }
        "C10" => { lay = true; win = match r.below(3) { 0 => (true, false), 1 => (false, true), _ => (true, true) }; if r.chance(1, 4) { df = sf; if r.chance(1, 2) { api = Api::Copy } } }
        "C11" => { lay = true; win = (r.chance(1, 4), r.chance(1, 4)); api = Api::Mt(r.range(1, 8)); h = 2 * r.range(1, 30); w = 2 * r.range(1, 20); if r.chance(1, 3) { dtf = r.pick(&TFS); spaces = SPACES.to_vec(); } if r.chance(1, 12) { df = sf; } }
        "C13" => { if r.chance(1, 2) { sf = r.pick(&[I010, I012, I210, I212, I410, I412]); } else { df = r.pick(&[I010, I012, I210, I212, I410, I412]); } if r.chance(1, 2) { dtf = r.pick(&TFS); } }
        "C14" => { dtf = r.pick(&TFS); stf = r.pick(&TFS); if r.chance(1, 2) { sf = r.pick(&RGBS); df = r.pick(&RGBS); } }
        "C15" => { dprim = r.pick(&PRIMS); if r.chance(1, 2) { dtf = r.pick(&TFS); } if r.chance(1, 2) { sf = r.pick(&RGBS); df = r.pick(&RGBS); } }
        "C16" => { sf = r.pick(&FMTS); df = r.pick(&[I420, I010, I012, NV12, I422, I210, I212, YUYV]); if r.chance(1, 3) { spaces = SPACES.to_vec(); } if r.chance(1, 2) { std::mem::swap(&mut sf, &mut df); } }
        "C18" => { df = r.pick(&FMTS); dtf = if r.chance(1, 2) { r.pick(&TFS) } else { stf }; }
        "C19" => { spaces = vec![Space::ICtCpPQ, Space::ICtCpHLG]; if r.chance(1, 2) { sf = r.pick(&YUVS); } else { df = r.pick(&YUVS); } if r.chance(1, 3) { dtf = r.pick(&TFS); dprim = r.pick(&PRIMS); } }
        _ => { spaces = SPACES.to_vec(); dtf = r.pick(&TFS); dprim = r.pick(&PRIMS); lay = true; win = (r.chance(1, 3), r.chance(1, 3)); }
    }
    if matches!(prop, "C05") { spaces = SPACES.to_vec(); }
    if prop == "C15" && stf == Tf::BT2100PQ && r.chance(1, 2) { stf = Tf::SRGB; sprim = r.pick(&PRIMS); }
    let sc = color(r, sf, &spaces, stf, sprim);
    let mut dc = color(r, df, &spaces, dtf, dprim);
    if prop == "C05" { dc = sc; }
    let mut src = Side::packed(sf, sc, w, h);
    let mut dst = Side::packed(df, dc, w, h);
    if win.0 { window(r, &mut src, w, h); }
    if win.1 { window(r, &mut dst, w, h); }
    if lay {
        layout(r, &mut src);
        layout(r, &mut dst);
        // equal strides on both sides, padding included
        if df == sf && r.chance(1, 4) { dst.extra = src.extra.clone(); if dst.win.is_some() == src.win.is_some() { (dst.pw, dst.ph, dst.win) = (src.pw, src.ph, src.win); } }
    }
    Case { api, w, h, src, dst, pattern: pat(r), seed: r.next() }
}
