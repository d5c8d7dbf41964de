//! C01-C07: the Decimal type against exact 512-bit arithmetic.
use crate::big::Big;
use crate::util::*;
use hmmcl_sandbox::decimal::*;
use std::cmp::Ordering;
use std::convert::TryInto;
use std::str::FromStr;

pub struct NC<'a> {
    pub prop: &'static str,
    pub cov: &'a mut Cov,
    pub scenario: u64,
}
impl<'a> NC<'a> {
    pub fn ck(&mut self, class: &str, ok: bool, what: impl FnOnce() -> String) {
        self.cov.eval(class);
        if !ok {
            let w = what();
            self.cov.fail(&format!("{}:{}", self.prop, class), w, &[], self.scenario);
        }
    }
}

const SCALES: [u8; 15] = [0, 1, 2, 3, 6, 8, 9, 12, 12, 12, 15, 18, 24, 30, 38];

pub fn val(r: &mut Rng, maxbits: u32) -> u128 {
    let cap = if maxbits >= 128 { u128::MAX } else { (1u128 << maxbits) - 1 };
    let v = match r.below(12) {
        0 => r.below(4) as u128,
        1 => 10u128.pow(r.below(39) as u32),
        2 => 10u128.pow(r.below(39) as u32) - 1,
        3 => 10u128.pow(r.below(38) as u32) + 1,
        4 => cap - r.below(3) as u128,
        5 => (1u128 << r.below(maxbits as u64 - 1)) + r.below(3) as u128 - 1,
        6 => (r.below(2000) as u128) * 10u128.pow(r.below(30) as u32),
        _ => r.u128_bits(maxbits),
    };
    v & cap
}
pub fn dec(r: &mut Rng, maxbits: u32) -> Decimal {
    Decimal::new(val(r, maxbits), *r.pick(&SCALES), r.chance(0.4))
}
fn p10(e: u8) -> Big {
    Big::pow10(e as u32)
}
fn show(d: &Decimal) -> String {
    format!("{}{}e-{}", if d.negative { "-" } else { "" }, d.value, d.scale)
}
fn isneg(d: &Decimal) -> bool {
    d.negative && d.value != 0
}
/// exact comparison of two decimals of any scale
fn order(a: &Decimal, b: &Decimal) -> Ordering {
    let m = a.scale.max(b.scale);
    let x = Big::from(a.value).mul(&p10(m - a.scale));
    let y = Big::from(b.value).mul(&p10(m - b.scale));
    match (isneg(a), isneg(b)) {
        (false, false) => x.cmp(&y),
        (true, true) => y.cmp(&x),
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
    }
}

/// A result must be exactly `want` (magnitude, sign, scale); when `want` or an intermediate does not
/// fit 128 bits the operation must refuse. `must`: the operation has to succeed.
fn judge(n: &mut NC, class: &str, got: Result<Decimal, String>, want: Option<Big>, neg: bool, scale: u8, must: bool, what: impl Fn() -> String) {
    match (got, want) {
        (Ok(g), Some(w)) => {
            let ok = w.to_u128() == Some(g.value) && g.scale == scale && (g.value == 0 || g.negative == neg);
            n.ck(class, ok, || format!("{} = {} expected {}{:?}e-{}", what(), show(&g), if neg { "-" } else { "" }, w.to_u128(), scale));
        }
        (Ok(g), None) => n.ck(class, false, || format!("{} = {} but there is no such value", what(), show(&g))),
        (Err(e), _) => {
            n.cov.count("refused (does not fit)");
            n.ck(class, !must, || format!("{} refused: {}", what(), e));
        }
    }
}
fn fits(b: &Big) -> bool {
    b.to_u128().is_some()
}

pub fn c01(r: &mut Rng, n: &mut NC) {
    for _ in 0..40 {
        let bits = *r.pick(&[30u32, 60, 64, 80, 100, 128]);
        let bb = (*r.pick(&[10u32, 40, 60, 80, 128])).min(bits);
        let (a, mut b) = (dec(r, bits), dec(r, bb));
        let same = r.chance(0.7);
        if same {
            b.scale = a.scale;
        }
        if r.chance(0.05) {
            b.value = a.value;
        }
        n.cov.state(hash64(&[a.value as i128, b.value as i128, a.scale as i128, b.scale as i128]));
        let neg = a.negative != b.negative;
        let (x, y) = (Big::from(a.value), Big::from(b.value));
        // add and sub
        for sub in [false, true].iter().copied() {
            let nb = b.negative != sub;
            let got = attempt(|| if sub { a.sub(b) } else { a.add(b) });
            let cl = if sub { "sub" } else { "add" };
            if a.scale != b.scale {
                n.ck("add/sub of different scales is an error", matches!(got, Ok(Err(_))) , || format!("{} {} {} = {:?}", show(&a), cl, show(&b), got));
                continue;
            }
            let (w, ng) = if a.negative == nb {
                (x.add(&y), a.negative)
            } else if x.cmp(&y) != Ordering::Less {
                (x.sub(&y), a.negative)
            } else {
                (y.sub(&x), nb)
            };
            let must = fits(&w);
            let got = match got {
                Ok(Ok(v)) => Ok(v),
                Ok(Err(e)) => Err(format!("{:?}", e)),
                Err(e) => Err(e),
            };
            judge(n, cl, got, Some(w), ng, a.scale, must, || format!("{} {} {}", show(&a), cl, show(&b)));
        }
        // multiplication
        let prod = x.mul(&y);
        let den = p10(b.scale);
        judge(n, "mul", attempt(|| a.mul(b)), Some(prod.div_floor(&den)), neg, a.scale, fits(&prod), || format!("{} mul {}", show(&a), show(&b)));
        let must = fits(&prod.add(&den));
        judge(n, "mul_up", attempt(|| a.mul_up(b)), Some(prod.div_ceil(&den)), neg, a.scale, must, || format!("{} mul_up {}", show(&a), show(&b)));
        let k = b.value;
        judge(n, "mul by integer", attempt(|| Mul::<u128>::mul(a, k)), Some(x.mul(&y)), a.negative, a.scale, fits(&prod), || format!("{} mul integer {}", show(&a), k));
        // division
        let num = x.mul(&den);
        let z = b.value == 0;
        let w = if z { None } else { Some(num.div_floor(&y)) };
        judge(n, "div", attempt(|| a.div(b)), w, neg, a.scale, fits(&num) && !z, || format!("{} div {}", show(&a), show(&b)));
        let w = if z { None } else { Some(num.div_ceil(&y)) };
        judge(n, "div_up", attempt(|| a.div_up(b)), w, neg, a.scale, !z && fits(&num.add(&y)), || format!("{} div_up {}", show(&a), show(&b)));
        let ts = *r.pick(&SCALES);
        let w = if z {
            None
        } else {
            Some(x.mul(&p10(ts)).mul(&den).div_floor(&y.mul(&p10(a.scale))))
        };
        let e = a.scale as i32 - ts as i32 - b.scale as i32;
        let must = !z && (e > 0 || (fits(&Big::pow10((-e) as u32)) && fits(&x.mul(&Big::pow10((-e) as u32)))));
        judge(n, "div_to_scale", attempt(|| a.div_to_scale(b, ts)), w, neg, ts, must, || format!("{} div_to_scale {} to {}", show(&a), show(&b), ts));
        n.cov.sample(|| format!("{} op {}", show(&a), show(&b)));
    }
}

pub fn c02(r: &mut Rng, n: &mut NC) {
    for _ in 0..40 {
        let bb = *r.pick(&[20u32, 60, 100, 128]);
        let a = dec(r, bb);
        let s = if r.chance(0.1) { r.below(39) as u8 } else { *r.pick(&SCALES) };
        n.cov.state(hash64(&[a.value as i128, a.scale as i128, s as i128]));
        let x = Big::from(a.value);
        let up = s >= a.scale;
        let f = p10(if up { s - a.scale } else { a.scale - s });
        let (lo, hi) = if up { (x.mul(&f), x.mul(&f)) } else { (x.div_floor(&f), x.div_ceil(&f)) };
        let ff_ = fits(&f);
        judge(n, "to_scale", attempt(|| a.to_scale(s)), Some(lo), a.negative, s, ff_ && fits(&lo), || format!("{} to_scale {}", show(&a), s));
        judge(n, "to_scale_up", attempt(|| a.to_scale_up(s)), Some(hi), a.negative, s, ff_ && fits(&hi) && fits(&x.add(&f)), || format!("{} to_scale_up {}", show(&a), s));
        let up12 = if a.scale <= 12 { x.mul(&p10(12 - a.scale)) } else { x.div_floor(&p10(a.scale - 12)) };
        judge(n, "to_compute_scale", attempt(|| a.to_compute_scale()), Some(up12), a.negative, 12, fits(&up12), || format!("{} to_compute_scale", show(&a)));
        // conversions to integers
        let fl = x.div_floor(&p10(a.scale)).to_u128();
        let ce = x.div_ceil(&p10(a.scale)).to_u128();
        let u = |v: Option<u128>| v.filter(|v| *v <= u64::MAX as u128).map(|v| v as u64);
        let g = attempt(|| a.abs()).ok();
        n.ck("abs", g == u(fl), || format!("{} abs = {:?}", show(&a), g));
        let g = attempt(|| a.abs_up()).ok();
        n.ck("abs_up", g == u(ce) || (g.is_none() && !fits(&x.add(&p10(a.scale)))), || format!("{} abs_up = {:?}", show(&a), g));
        let g = attempt(|| a.to_scaled_amount(s)).ok();
        n.ck("to_scaled_amount", g == u(lo.to_u128()) || (g.is_none() && !ff_), || format!("{} to_scaled_amount {} = {:?}", show(&a), s, g));
        let g = attempt(|| a.to_scaled_amount_up(s)).ok();
        n.ck("to_scaled_amount_up", g == u(hi.to_u128()) || (g.is_none() && !fits(&x.add(&f))), || format!("{} to_scaled_amount_up {} = {:?}", show(&a), s, g));
        let k = a.value as u64;
        let d = Decimal::from_scaled_amount(k, s);
        n.ck("from_scaled_amount", d.value == k as u128 && d.scale == s && !d.negative && d.to_scaled_amount(s) == k, || format!("{} {}", k, s));
        n.ck("from_u64/u128", {
            let d = Decimal::from_u64(k);
            let e = Decimal::from_u128(a.value);
            d.value == k as u128 && d.scale == 0 && !d.negative && d.to_u64() == k && e.value == a.value && e.scale == 0 && !e.negative
        }, || format!("{}", k));
        // integers out of scale-0 decimals
        let i = Decimal::new(a.value, 0, a.negative);
        let g64: Option<u64> = attempt(|| { let v: u64 = i.into(); v }).ok();
        let g128: Option<u128> = attempt(|| { let v: u128 = i.into(); v }).ok();
        let gus: Option<usize> = attempt(|| { let v: usize = i.into(); v }).ok();
        let gi: Option<i32> = attempt(|| { let v: i32 = i.into(); v }).ok();
        n.ck("into integer", g64 == u(Some(a.value)) && g128 == Some(a.value) && gus.map(|v| v as u64) == g64, || format!("{}: {:?} {:?} {:?}", show(&i), g64, g128, gus));
        let w: Option<i32> = a.value.try_into().ok().and_then(|v: i64| { let v = if a.negative { -v } else { v }; v.try_into().ok() });
        n.ck("into i32", gi == w || (gi.is_none() && w == Some(i32::MIN)), || format!("{}: {:?} expected {:?}", show(&i), gi, w));
        let gf: Result<f64, String> = attempt(|| { let v: f64 = a.into(); v });
        if let Ok(v) = gf {
            let w = a.value as f64 / 10f64.powi(a.scale as i32);
            n.ck("into f64", (v.abs() - w).abs() <= w * 1e-14, || format!("{}: {} expected {}", show(&a), v, w));
        }
        let isint = x.divrem(&p10(a.scale)).1.is_zero();
        let g = attempt(|| a.is_integer()).ok();
        n.ck("is_integer", g == Some(isint), || format!("{} {:?}", show(&a), g));
        n.ck("denominator", a.denominator() == 10u128.pow(a.scale as u32), || show(&a));
        n.cov.sample(|| format!("{} rescaled to {}", show(&a), s));
    }
    let (o, t) = (Decimal::one(), Decimal::two());
    n.ck("constants", o.value == 10u128.pow(12) && o.scale == 12 && t.value == 2 * 10u128.pow(12) && t.scale == 12 && !o.negative && !t.negative && COMPUTE_SCALE == 12, || format!("{} {}", show(&o), show(&t)));
    let z = Decimal::default();
    n.ck("default is zero", z.value == 0 && z.scale == 0 && !z.negative && z.is_zero(), || show(&z));
}

pub fn c03(r: &mut Rng, n: &mut NC) {
    for _ in 0..40 {
        let bb = *r.pick(&[4u32, 60, 128]);
        let a = dec(r, bb);
        let bb = *r.pick(&[4u32, 60, 128]);
        let mut b = dec(r, bb);
        let same = r.chance(0.8);
        if same {
            b.scale = a.scale;
        }
        match r.below(6) {
            0 => b.value = a.value,
            1 => b.value = a.value.saturating_add(1),
            2 => b.value = a.value.saturating_sub(1),
            _ => {}
        }
        n.cov.state(hash64(&[a.value as i128, b.value as i128, a.negative as i128 + 2 * b.negative as i128]));
        let all = attempt(|| (a.eq(b), a.lt(b), a.gt(b), a.lte(b), a.gte(b)));
        let all = match all {
            Ok(v) => v,
            Err(e) => {
                n.ck("comparison never panics", false, || format!("{} {}: {}", show(&a), show(&b), e));
                continue;
            }
        };
        if a.scale != b.scale {
            let err = all.0.is_err() && all.1.is_err() && all.2.is_err() && all.3.is_err() && all.4.is_err();
            n.ck("comparing different scales is an error", err, || format!("{} {}", show(&a), show(&b)));
        } else {
            let o = order(&a, &b);
            let (e, l, g, le, ge) = (all.0.ok(), all.1.ok(), all.2.ok(), all.3.ok(), all.4.ok());
            let ok = e == Some(o == Ordering::Equal) && l == Some(o == Ordering::Less) && g == Some(o == Ordering::Greater)
                && le == Some(o != Ordering::Greater) && ge == Some(o != Ordering::Less);
            n.ck("comparisons agree with the numeric order", ok, || format!("{} vs {}: eq {:?} lt {:?} gt {:?} lte {:?} gte {:?}", show(&a), show(&b), e, l, g, le, ge));
            let mn = attempt(|| a.min(b));
            let mx = attempt(|| a.max(b));
            let ok = match (&mn, &mx) {
                (Ok(p), Ok(q)) => {
                    order(p, if o == Ordering::Greater { &b } else { &a }) == Ordering::Equal
                        && order(q, if o == Ordering::Less { &b } else { &a }) == Ordering::Equal
                }
                _ => false,
            };
            n.ck("min and max", ok, || format!("{} {} min {:?} max {:?}", show(&a), show(&b), mn, mx));
        }
        n.ck("sign predicates", a.is_zero() == (a.value == 0) && a.is_positive() == (!a.negative && a.value != 0) && a.is_negative() == isneg(&a), || show(&a));
        let m = -a;
        let w = Decimal::new(a.value, a.scale, !a.negative);
        n.ck("negation", m.scale == a.scale && order(&m, &w) == Ordering::Equal, || format!("-({}) = {}", show(&a), show(&m)));
        n.cov.sample(|| format!("{} vs {}", show(&a), show(&b)));
    }
}

pub fn c04(r: &mut Rng, n: &mut NC) {
    for _ in 0..60 {
        let bb = *r.pick(&[4u32, 20, 60, 88, 128]);
        let mut a = dec(r, bb);
        if r.chance(0.3) {
            // perfect squares and their neighbours
            let q = r.u128_bits(40);
            a.scale = *r.pick(&[0u8, 2, 6, 12]);
            let sq = q.checked_mul(q).and_then(|v| v.checked_mul(10u128.pow(a.scale as u32 % 2)));
            if let Some(v) = sq {
                a.value = (v + r.below(3) as u128).saturating_sub(1);
            }
        }
        if r.chance(0.8) {
            a.negative = false;
        }
        n.cov.state(hash64(&[a.value as i128, a.scale as i128]));
        let g = attempt(|| a.sqrt());
        if isneg(&a) {
            n.ck("negative is an error", matches!(g, Ok(Err(_))), || format!("sqrt({}) = {:?}", show(&a), g));
            continue;
        }
        let t = Big::from(a.value).mul(&p10(a.scale));
        match g {
            Ok(Ok(v)) => {
                let w = t.isqrt().to_u128().unwrap();
                let d = if v.value > w { v.value - w } else { w - v.value };
                n.cov.maxv("sqrt error in units", d as f64);
                n.ck("within one unit of the root", d <= 1 && v.scale == a.scale && !isneg(&v), || format!("sqrt({}) = {} expected {}", show(&a), show(&v), w));
                let exact = Big::from(w).mul(&Big::from(w)).cmp(&t) == Ordering::Equal;
                if exact {
                    n.cov.count("perfect squares");
                }
                if a.value == 0 || (a.value == 10u128.pow(a.scale as u32)) {
                    n.ck("roots of zero and one are exact", v.value == a.value, || format!("sqrt({}) = {}", show(&a), show(&v)));
                }
            }
            Ok(Err(_)) | Err(_) => {
                n.ck("accepts every value that fits", !fits(&t), || format!("sqrt({}) = {:?}", show(&a), g));
            }
        }
        n.cov.sample(|| format!("sqrt {}", show(&a)));
    }
}

pub fn c05(r: &mut Rng, n: &mut NC) {
    for _ in 0..30 {
        let scale = *r.pick(&[2u8, 4, 6, 8, 9, 12, 12, 12]);
        let p = 10f64.powi(scale as i32);
        let lo = (1.0 / p).max(1e-12);
        let f = match r.below(5) {
            0 => r.logf(0.5, 2.0),
            1 => 2f64.powi(r.range(-30, 40) as i32) * (1.0 + (r.f() - 0.5) * 1e-9),
            2 => 1.0 + (r.f() - 0.5) * 10f64.powi(-(r.below(12) as i32)),
            3 if scale <= 12 => r.logf(1e12, 3e25),
            _ => r.logf(lo, 1e13),
        };
        let v = ((f * p).round() as u128).max(1);
        let v = if r.chance(0.5) { v } else { (v + r.below(3) as u128).saturating_sub(1).max(1) };
        let a = Decimal::new(v, scale, false);
        n.cov.state(hash64(&[v as i128, scale as i128]));
        let want = (v as f64 / p).ln();
        let unit = 1.0 / p;
        let g = attempt(|| a.ln());
        match g {
            Ok(Ok(g)) => {
                let got = if g.negative { -(g.value as f64) } else { g.value as f64 } / 10f64.powi(g.scale as i32);
                let tol = 2e-10 + if scale < 12 { unit } else { 0.0 } + want.abs() * 1e-14;
                n.cov.maxv("ln error at scale 12", if scale == 12 { (got - want).abs() } else { 0.0 });
                n.ck("accurate", (got - want).abs() <= tol && g.scale == scale, || format!("ln({}) = {} expected {}", show(&a), got, want));
            }
            g => n.ck("accurate", false, || format!("ln({}) = {:?}", show(&a), g)),
        }
        // monotone across neighbours
        let w = v + 1 + r.u128_bits(20);
        let b = Decimal::new(w, scale, false);
        if let (Ok(Ok(x)), Ok(Ok(y))) = (attempt(|| a.ln()), attempt(|| b.ln())) {
            // neighbours may agree to the last few digits: allow the accuracy of the method
            let f = |d: &Decimal| if d.negative { -(d.value as i128) } else { d.value as i128 };
            let slack = if scale == 12 { 200 } else { 1 + (2e-10 * p) as i128 };
            n.ck("increasing", f(&x) <= f(&y) + slack, || format!("ln({}) = {} > ln({}) = {}", show(&a), show(&x), show(&b), show(&y)));
        }
        if r.chance(0.1) {
            let m = Decimal::new(v, scale, true);
            let g = attempt(|| m.ln());
            n.ck("negative is an error", matches!(g, Ok(Err(_))), || format!("ln({}) = {:?}", show(&m), g));
            let z = Decimal::new(0, scale, false);
            let g = attempt(|| z.ln());
            n.ck("zero has no logarithm", !matches!(g, Ok(Ok(_))), || format!("ln(0) = {:?}", g));
        }
        n.cov.sample(|| format!("ln {}", show(&a)));
    }
}

pub fn c06(r: &mut Rng, n: &mut NC) {
    for _ in 0..30 {
        let scale = *r.pick(&[2u8, 4, 6, 9, 12, 12, 12]);
        let p = 10f64.powi(scale as i32);
        let unit = 1.0 / p;
        // integer exponents
        let f = match r.below(4) {
            0 => r.logf(0.001, 1000.0),
            1 => 1.0 + (r.f() - 0.3) * 10f64.powi(-(1 + r.below(6) as i32)),
            2 => r.below(20) as f64,
            _ => r.logf(0.9, 1.1),
        };
        let v = (f * p).round().max(0.0) as u128;
        let a = Decimal::new(v, scale, r.chance(0.3));
        let base = v as f64 / p;
        let e = match r.below(4) {
            0 => r.below(4) as u128,
            1 => r.below(20) as u128,
            2 => r.below(400) as u128,
            _ => r.below(90_000) as u128,
        };
        n.cov.state(hash64(&[v as i128, scale as i128, e as i128]));
        let want = base.powf(e as f64);
        let neg = a.negative && e % 2 == 1;
        let g = attempt(|| Pow::<u128>::pow(a, e));
        let err = |k: f64, w: f64| (2.0 * k + 4.0) * unit * w.max(1.0) * 1.5 + w * 1e-12 * (1.0 + k * 1e-3);
        match g {
            Ok(g) => {
                let got = g.value as f64 / p;
                let tol = err(e as f64, want);
                n.ck("integer power", (got - want).abs() <= tol && got <= want * (1.0 + 1e-11) + 1e-300 && g.scale == scale && (g.value == 0 || g.negative == neg), || {
                    format!("({})^{} = {} expected {} tol {}", show(&a), e, show(&g), want, tol)
                });
                if e <= 1 {
                    n.ck("powers 0 and 1 are exact", g.value == if e == 0 { 10u128.pow(scale as u32) } else { v }, || format!("({})^{} = {}", show(&a), e, show(&g)));
                }
            }
            Err(m) => {
                // allowed only when the last squaring cannot be held in 128 bits
                let need = want.max(want * want / base.max(1e-9)).max(want) * p * p * base.max(1.0);
                n.cov.count("refused (does not fit)");
                n.ck("integer power accepted when it fits", need * 4.0 >= 3.4e38 || want > 1e18, || format!("({})^{} refused: {} expected {}", show(&a), e, m, want));
            }
        }
        // fractional and negative exponents
        let exps: [(u128, f64); 9] = [(0, 0.0), (25, 0.25), (50, 0.5), (100, 1.0), (125, 1.25), (150, 1.5), (200, 2.0), (300, 3.0), (500, 5.0)];
        let (q, ef) = *r.pick(&exps);
        let ex = Decimal::new(q, 2, r.chance(0.4)).to_scale(scale);
        let v = ((r.logf(0.05, 60.0)) * p).round().max(1.0) as u128;
        let b = Decimal::new(v, scale, false);
        let base = v as f64 / p;
        let sf = if ex.negative { -ef } else { ef };
        let want = base.powf(sf);
        let g = attempt(|| Pow::<Decimal>::pow(b, ex));
        // relative uncertainty of the intermediate positive power
        let pos = base.powf(ef);
        let w4 = base.powf(0.25);
        let dpos = match q {
            0 | 100 => 0.0,
            25 => unit * (2.0 + 1.0 / base.sqrt().powf(0.5)),
            50 => 2.0 * unit,
            125 => unit * (2.0 + base * (2.0 + 1.0 / w4)),
            150 => unit * (2.0 + 2.0 * base),
            _ => err(ef, pos),
        } + pos * 1e-13;
        let tol = if ex.negative && q != 0 { 2.0 * (dpos / (pos - dpos).max(unit) * want) + 2.0 * unit } else { dpos + unit } + want * 1e-13;
        match g {
            Ok(g) => {
                let got = g.value as f64 / p * if g.negative { -1.0 } else { 1.0 };
                if pos > 10.0 * dpos {
                    n.ck("supported decimal exponents", (got - want).abs() <= tol && g.scale == scale, || format!("({})^{} = {} expected {} tol {}", show(&b), sf, got, want, tol));
                }
            }
            Err(m) => n.ck("supported decimal exponents", pos < 2.0 * unit + dpos, || format!("({})^{} refused: {}", show(&b), sf, m)),
        }
        // any other exponent is refused, never approximated by something else
        let odd = Decimal::new(*r.pick(&[10u128, 33, 75, 133, 175, 210, 225, 99, 101]), 2, r.chance(0.3)).to_scale(scale);
        let g = attempt(|| Pow::<Decimal>::pow(b, odd));
        let of = odd.value as f64 / p * if odd.negative { -1.0 } else { 1.0 };
        let want = base.powf(of);
        let near = |g: &Decimal| (g.value as f64 / p - want).abs() <= 1e-3 * want + 100.0 * unit * (1.0 + want) && !g.negative;
        n.ck("exponents are refused rather than approximated by another", g.as_ref().map(near).unwrap_or(true), || format!("({})^({}) = {:?}", show(&b), show(&odd), g));
        // whole powers of negative numbers
        let e = r.below(9) as i64 - 4;
        let ex = Decimal::new(e.abs() as u128 * 100, 2, e < 0).to_scale(scale);
        let base = -(r.range(1, 40) as f64) * 0.25;
        let nb = Decimal::new((-base * 100.0) as u128, 2, true).to_scale(scale);
        let want = base.powi(e as i32);
        let g = attempt(|| Pow::<Decimal>::pow(nb, ex));
        match g {
            Ok(g) => {
                let got = g.value as f64 / p * if g.negative { -1.0 } else { 1.0 };
                let pos = base.abs().powi(e.abs() as i32);
                let dpos = err(e.abs() as f64, pos) * (1.0 + base.abs());
                if pos > 10.0 * dpos {
                    let tol = if e < 0 { 2.0 * dpos / (pos - dpos) * want.abs() + 2.0 * unit } else { dpos } + want.abs() * 1e-13;
                    n.ck("whole powers of negative numbers", (got - want).abs() <= tol && g.scale == scale, || format!("({})^{} = {} expected {} tol {}", show(&nb), e, got, want, tol));
                }
            }
            Err(m) => n.ck("whole powers of negative numbers", base.abs().powi(e.abs() as i32) < 4.0 * unit, || format!("({})^{} refused: {}", show(&nb), e, m)),
        }
        n.cov.sample(|| format!("({})^{} and ({})^{}", show(&a), e, show(&b), sf));
    }
}

pub fn c07(r: &mut Rng, n: &mut NC) {
    for _ in 0..40 {
        // round trip
        let bb = *r.pick(&[10u32, 64, 128]);
        let mut a = dec(r, bb);
        a.scale = r.below(39) as u8;
        n.cov.state(hash64(&[a.value as i128, a.scale as i128]));
        let s = match attempt(|| a.to_string()) {
            Ok(s) => s,
            Err(e) => {
                n.ck("formats", false, || format!("{}: {}", show(&a), e));
                continue;
            }
        };
        let b = attempt(|| Decimal::from_str(&s));
        let ok = match &b {
            Ok(Ok(b)) => b.value == a.value && b.scale == a.scale && (b.negative == a.negative || a.value == 0),
            _ => false,
        };
        n.ck("parse(format(x)) = x", ok, || format!("{} -> {:?} -> {:?}", show(&a), s, b));
        // the text is the decimal notation of the value
        let digits: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
        let frac = s.find('.').map(|i| s.len() - i - 1).unwrap_or(0);
        let txt = digits.trim_start_matches('0');
        let ok = frac == a.scale as usize && (txt == a.value.to_string() || (a.value == 0 && txt.is_empty())) && (isneg(&a) == s.starts_with('-') || a.value == 0) && !s.starts_with('.');
        n.ck("format is the decimal notation", ok, || format!("{} -> {:?}", show(&a), s));
        // well-formed literals with exponents keep their exact value
        let ip = if r.chance(0.9) { (r.u128_bits(40)).to_string() } else { String::new() };
        let has_frac = r.chance(0.6) || ip.is_empty();
        let fp = if has_frac { format!("{:0width$}", r.below(1000), width = 1 + r.below(6) as usize) } else { String::new() };
        let e = r.range(-12, 12);
        let with_e = r.chance(0.6);
        let neg = r.chance(0.4);
        let lit = format!("{}{}{}{}{}", if neg { "-" } else { "" }, ip, if has_frac { "." } else { "" }, fp,
            if with_e { format!("{}{}", if r.chance(0.5) { "e" } else { "E" }, e) } else { String::new() });
        let e = if with_e { e } else { 0 };
        let m: u128 = format!("{}{}", ip, fp).parse().unwrap();
        match attempt(|| Decimal::from_str(&lit)) {
            Ok(Ok(d)) => {
                // m * 10^(e - frac) == value * 10^-scale
                let k = e - fp.len() as i64 + d.scale as i64;
                let (lhs, rhs) = if k >= 0 {
                    (Big::from(m).mul(&Big::pow10(k as u32)), Big::from(d.value))
                } else {
                    (Big::from(m), Big::from(d.value).mul(&Big::pow10((-k) as u32)))
                };
                n.ck("literal keeps its exact value", lhs.cmp(&rhs) == Ordering::Equal && (d.negative == neg || m == 0), || format!("{:?} -> {}", lit, show(&d)));
            }
            g => n.ck("literal accepted", false, || format!("{:?} -> {:?}", lit, g)),
        }
        // literals with extreme exponents: the exact value or an error
        let e = r.range(-45, 45);
        let big = format!("{}{}.{}e{}", if neg { "-" } else { "" }, r.u128_bits(90), fp, e);
        match attempt(|| Decimal::from_str(&big)) {
            Ok(Ok(d)) => {
                let m: u128 = big[neg as usize..].split('e').next().unwrap().replace('.', "").parse().unwrap();
                let k = e - fp.len() as i64 + d.scale as i64;
                let (lhs, rhs) = if k >= 0 {
                    (Big::from(m).mul(&Big::pow10(k as u32)), Big::from(d.value))
                } else {
                    (Big::from(m), Big::from(d.value).mul(&Big::pow10((-k) as u32)))
                };
                n.ck("literal with an extreme exponent keeps its value or is an error", lhs.cmp(&rhs) == Ordering::Equal && (d.negative == neg || m == 0), || format!("{:?} -> {}", big, show(&d)));
            }
            Ok(Err(_)) => n.cov.count("unrepresentable literals refused"),
            g => n.ck("literal with an extreme exponent keeps its value or is an error", false, || format!("{:?} -> {:?}", big, g)),
        }
        // malformed text is an error, never a panic or a wrong number
        let bad = match r.below(16) {
            0 => format!("{}x", lit),
            1 => format!("{}.", lit.replace('.', "") + "1.2.3"),
            2 => "".to_string(),
            3 => "-".to_string(),
            4 => ".".to_string(),
            5 => format!("1{}", lit.replace("-", "") + "-"),
            6 => format!(" {}", lit),
            7 => format!("{} ", lit),
            8 => format!("--{}", lit),
            9 => "1e".to_string(),
            10 => "e5".to_string(),
            11 => format!("1e{}", r.range(39, 400)),
            12 => format!("1e-{}", r.range(39, 400)),
            13 => "9".repeat(40 + r.below(20) as usize),
            14 => "NaN".to_string(),
            _ => format!("1,{}", r.below(1000)),
        };
        let g = attempt(|| Decimal::from_str(&bad));
        n.ck("malformed text is an error", matches!(g, Ok(Err(_))), || format!("{:?} -> {:?}", bad, g));
        // arbitrary bytes never panic
        let junk: String = (0..r.below(12)).map(|_| *r.pick(&['0', '1', '9', '.', '-', '+', 'e', 'E', ' ', '_', 'é', '٣', '\u{0}'])).collect();
        let g = attempt(|| Decimal::from_str(&junk));
        n.ck("arbitrary text never panics", g.is_ok(), || format!("{:?} -> {:?}", junk, g));
        n.cov.sample(|| format!("{} / {:?} / {:?}", s, lit, bad));
    }
}
