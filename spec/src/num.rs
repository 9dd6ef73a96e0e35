pub trait Num: Clone {
    fn lit(v: f64) -> Self;
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn div(&self, o: &Self) -> Self;
    fn mulc(&self, c: f64) -> Self;
    fn divc(&self, c: f64) -> Self { self.mulc(1.0 / c) }
    fn addc(&self, c: f64) -> Self { self.add(&Self::lit(c)) }
    /// x^p for x >= 0; unspecified (but not trapping) below zero
    fn powc(&self, p: f64) -> Self;
    fn exp(&self) -> Self;
    fn ln(&self) -> Self;
    fn sqrt(&self) -> Self;
    fn max0(&self) -> Self;
    /// values above `m` are outside the specified domain
    fn upto(&self, m: f64) -> Self { let _ = m; self.clone() }
    /// if self <= thr (or < thr when strict) { a } else { b }
    fn select(&self, thr: f64, strict: bool, a: &Self, b: &Self) -> Self;
}

/// f64 value with a bound on the error an f32 evaluation may have accumulated.
#[derive(Clone, Copy, Debug)]
pub struct E { pub v: f64, pub e: f64 }
/// generous unit roundoff (covers re-association, fma contraction and rounded constants)
const EPS: f64 = 2.0 / 8388608.0;
const TINY: f64 = 1.5e-38;

impl E {
    pub fn exact(v: f64) -> E { E { v, e: 0.0 } }
    fn hull(v: f64, cand: &[f64]) -> f64 {
        let mut e = 0.0f64;
        for c in cand { let d = (c - v).abs(); if d.is_nan() { return f64::INFINITY; } e = e.max(d); }
        e
    }
}
impl Num for E {
    fn lit(v: f64) -> E { E { v, e: 0.0 } }
    fn add(&self, o: &E) -> E { let v = self.v + o.v; E { v, e: self.e + o.e + EPS * (v.abs() + self.v.abs() + o.v.abs()) } }
    fn sub(&self, o: &E) -> E { self.add(&E { v: -o.v, e: o.e }) }
    fn div(&self, o: &E) -> E {
        let v = self.v / o.v;
        let (lo, hi) = (o.v - o.e, o.v + o.e);
        if lo <= 0.0 && hi >= 0.0 { return E { v, e: f64::INFINITY }; }
        let e = E::hull(v, &[(self.v - self.e) / lo, (self.v + self.e) / lo, (self.v - self.e) / hi, (self.v + self.e) / hi]);
        E { v, e: e + EPS * v.abs() }
    }
    fn mulc(&self, c: f64) -> E { let v = self.v * c; E { v, e: self.e * c.abs() + EPS * v.abs() } }
    fn powc(&self, p: f64) -> E {
        let x = self.v.max(0.0);
        let v = x.powf(p);
        let lo = (self.v - self.e).max(0.0);
        let hi = (self.v + self.e).max(0.0);
        let mut e = E::hull(v, &[lo.powf(p), hi.powf(p)]);
        if lo < TINY { e = e.max(E::hull(v, &[0.0, TINY.max(hi).powf(p)])); }
        let big = if hi > 0.0 { (p * hi.ln()).abs().min(100.0) } else { 100.0 };
        E { v, e: e + EPS * 4.0 * v.abs() * (1.0 + big) + 1e-37 }
    }
    fn exp(&self) -> E {
        let v = self.v.exp();
        let e = E::hull(v, &[(self.v - self.e).exp(), (self.v + self.e).exp()]);
        E { v, e: e + EPS * 4.0 * v * (1.0 + self.v.abs()) + 1e-37 }
    }
    fn ln(&self) -> E {
        // below zero: unspecified, the enclosing select discards it
        if self.v + self.e <= 0.0 { return E { v: 0.0, e: f64::INFINITY }; }
        let v = self.v.max(TINY).ln();
        let e = E::hull(v, &[(self.v - self.e).max(TINY).ln(), (self.v + self.e).max(TINY).ln()]);
        E { v, e: e + EPS * 4.0 * (1.0 + v.abs()) }
    }
    fn sqrt(&self) -> E {
        let v = self.v.max(0.0).sqrt();
        let e = E::hull(v, &[(self.v - self.e).max(0.0).sqrt(), (self.v + self.e).max(0.0).sqrt()]);
        E { v, e: e + EPS * v }
    }
    fn upto(&self, m: f64) -> E { if self.v > m + 1e-6 { E { v: self.v, e: f64::INFINITY } } else { *self } }
    fn max0(&self) -> E { E { v: self.v.max(0.0), e: self.e } }
    fn select(&self, thr: f64, strict: bool, a: &E, b: &E) -> E {
        let ta = if strict { self.v < thr } else { self.v <= thr };
        let slack = self.e + EPS * thr.abs();
        let r = if ta { *a } else { *b };
        if (self.v - thr).abs() > slack { return r; }
        let o = if ta { *b } else { *a };
        E { v: r.v, e: r.e.max((o.v - r.v).abs() + o.e) }
    }
}
