//! vspec <-> ezk_image type mapping
use ezk_image as ez;
use vspec::*;
pub fn fmt(f: Fmt) -> ez::PixelFormat {
    use ez::PixelFormat as P;
    match f { I420 => P::I420, I422 => P::I422, I444 => P::I444, I010 => P::I010, I012 => P::I012, I210 => P::I210, I212 => P::I212, I410 => P::I410, I412 => P::I412, NV12 => P::NV12, YUYV => P::YUYV, RGBA => P::RGBA, BGRA => P::BGRA, RGB => P::RGB, BGR => P::BGR }
}
pub fn tf(t: Tf) -> ez::ColorTransfer {
    use ez::ColorTransfer as T;
    match t { Tf::Linear => T::Linear, Tf::Gamma22 => T::Gamma22, Tf::Gamma28 => T::Gamma28, Tf::SRGB => T::SRGB, Tf::SDR => T::SDR, Tf::BT2100PQ => T::BT2100PQ, Tf::BT2100HLG => T::BT2100HLG }
}
pub fn prim(p: Prim) -> ez::ColorPrimaries {
    match p { Prim::ST240 => ez::ColorPrimaries::ST240, Prim::BT709 => ez::ColorPrimaries::BT709, Prim::BT2020 => ez::ColorPrimaries::BT2020 }
}
pub fn color(c: &Color) -> ez::ColorInfo {
    let (transfer, primaries) = (tf(c.tf), prim(c.prim));
    match c.yuv {
        None => ez::RgbColorInfo { transfer, primaries }.into(),
        Some((s, full_range)) => {
            let space = match s { Space::BT601 => ez::ColorSpace::BT601, Space::BT709 => ez::ColorSpace::BT709, Space::BT2020 => ez::ColorSpace::BT2020, Space::ICtCpPQ => ez::ColorSpace::ICtCpPQ, Space::ICtCpHLG => ez::ColorSpace::ICtCpHLG };
            ez::YuvColorInfo { transfer, primaries, space, full_range }.into()
        }
    }
}
