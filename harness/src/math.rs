//! C08, C09: ticks and liquidity formulas of both pools against independent arithmetic.
use crate::amm::{d, und};
use crate::big::Big;
use crate::num::NC;
use crate::util::*;
use hmmcl_sandbox::cl_pool as dp;
use hmmcl_sandbox::cl_pool::PoolMath as DM;
use hmmcl_sandbox::cl_pool_float as fp;
use hmmcl_sandbox::cl_pool_float::PoolMath as FM;

type D = dp::Pool<'static>;
type F = fp::Pool<'static>;

/// 1.0001^(t/2) in f64, good to about 1e-15 * (1 + t / 1e4)
fn price(t: u64) -> f64 {
    // ln(1.0001) to 20 digits is split in two so that t * ln does not lose digits
    let (hi, lo) = (9.99950003333083353317e-5f64, 0.0);
    (t as f64 * 0.5 * hi + lo).exp()
}

fn drp(t: i64) -> i128 {
    und(<D as DM>::tick_to_rp(t as u128))
}

/// every tick of 0..=TOP is visited once, in blocks
const TOP: i64 = 90_000;
/// the last tick whose root price fits the number type is 669249
const LAST: i64 = 669_240;
const BLOCK: i64 = 64;

pub fn c08(r: &mut Rng, n: &mut NC) {
    let blocks = (TOP / BLOCK) as u64 + 1;
    let lo = if n.scenario < blocks { n.scenario as i64 * BLOCK } else if r.chance(0.5) { r.below(TOP as u64) as i64 } else { r.range(TOP, LAST - 8) };
    let hi = if n.scenario < blocks { (lo + BLOCK).min(TOP) } else { lo + 6 };
    let mut last: Option<(i128, f64)> = None;
    for t in lo..=hi {
        n.cov.state(hash64(&[t as i128]));
        let want = price(t as u64);
        let got = drp(t);
        let g = ff(got);
        let e = (g - want).abs() / want;
        n.cov.maxv("decimal root price relative error", e);
        let tol = 2e-12 + t as f64 * 1e-12;
        n.ck("root price of a tick", e <= tol, || format!("tick {} root price {} expected {} (relative error {:e} tol {:e})", t, g, want, e, tol));
        let f = <F as FM>::tick_to_rp(t as u32);
        let ef = (f - want).abs() / want;
        n.cov.maxv("float root price relative error", ef);
        n.ck("float root price of a tick", ef <= 1e-14 + t as f64 * 3e-16, || format!("tick {} root price {} expected {} ({:e})", t, f, want, ef));
        if let Some((p, q)) = last {
            n.ck("root prices increase strictly", got > p && f > q, || format!("tick {}: {} after {}, float {} after {}", t, got, p, f, q));
        }
        if t == 0 {
            n.ck("tick 0 is price 1", got == ONE && f == 1.0, || format!("{} {}", got, f));
        }
        last = Some((got, f));
    }
    // the tick of a root price
    for _ in 0..6 {
        let t = r.range(lo, hi);
        let (a, b) = (drp(t), drp(t + 1));
        let rp = match r.below(6) {
            0 => a,
            1 => a + 1,
            2 => b - 1,
            3 => (a + b) / 2,
            _ => a + r.below((b - a) as u64) as i128,
        };
        let want_dn = t;
        let want_up = if rp == a { t } else { t + 1 };
        let hint = match r.below(6) {
            0 => t,
            1 => t + 1 + r.below(20) as i64,
            2 => (t - r.below(20) as i64).max(0),
            3 if r.chance(0.2) => 0,
            _ => (t - r.below(600) as i64).max(0),
        };
        let sp = *r.pick(&[1i64, 1, 2, 3, 5, 7, 10, 60, 200, 1000]);
        for up in [false, true].iter() {
            let w = if *up { want_up } else { want_dn };
            let g = attempt(|| <D as DM>::rp_to_tick_loop(d(rp), *up, hint as u128));
            n.ck("tick of a root price brackets it, from any hint", g.as_ref().ok() == Some(&(w as u128)), || {
                format!("rp {} between tick {} ({}) and {} ({}), up {} hint {}: {:?}", rp, t, a, t + 1, b, up, hint, g)
            });
            let ws = if *up { (w + sp - 1).div_euclid(sp) * sp } else { w.div_euclid(sp) * sp };
            let g = attempt(|| <D as DM>::rp_to_possible_tk(d(rp), sp as u128, *up, hint as u128));
            n.ck("usable tick of a root price", g.as_ref().ok() == Some(&(ws as u128)), || {
                format!("rp {} spacing {} up {} hint {}: {:?} expected {}", rp, sp, up, hint, g, ws)
            });
            let g = attempt(|| <D as DM>::tk_to_possible_tk(w as u128, sp as u128, *up));
            let h = attempt(|| <F as FM>::tk_to_possible_tk(w as u32, sp as u32, *up));
            n.ck("usable tick of a tick", g.as_ref().ok() == Some(&(ws as u128)) && h.as_ref().ok() == Some(&(ws as u32)), || {
                format!("tick {} spacing {} up {}: {:?} float {:?} expected {}", w, sp, up, g, h, ws)
            });
            // by logarithm: one tick of uncertainty
            let g = attempt(|| <D as DM>::rp_to_tick(d(rp), *up));
            let ok = match &g {
                Ok(v) => (*v as i64 - w).abs() <= 1 + (t as f64 * 4e-6) as i64,
                Err(_) => false,
            };
            // the logarithm of the base is good to a few parts in a million
            let m = ((b - a) as f64 * (0.02 + t as f64 * 4e-6)) as i128;
            let inside = rp > a + m && rp < b - m;
            n.ck("tick by logarithm", ok && (!inside || g == Ok(w as u128)), || format!("rp {} up {}: {:?} expected {}", rp, up, g, w));
        }
        // floating point
        let (a, b) = (<F as FM>::tick_to_rp(t as u32), <F as FM>::tick_to_rp(t as u32 + 1));
        let rp = match r.below(4) {
            0 => a,
            1 => f64::from_bits(b.to_bits() - 1),
            _ => (a + (b - a) * r.f()).min(f64::from_bits(b.to_bits() - 1)),
        };
        for up in [false, true].iter() {
            let w = if *up && rp > a { t + 1 } else { t };
            let ws = if *up { (w + sp - 1).div_euclid(sp) * sp } else { w.div_euclid(sp) * sp };
            let g = attempt(|| <F as FM>::rp_to_tick(rp, *up));
            n.ck("float tick of a root price brackets it", g == Ok(w as u32), || format!("rp {} up {}: {:?} expected {}", rp, up, g, w));
            let g = attempt(|| <F as FM>::rp_to_possible_tk(rp, sp as u32, *up));
            n.ck("float usable tick of a root price", g == Ok(ws as u32), || format!("rp {} spacing {} up {}: {:?} expected {}", rp, sp, up, g, ws));
        }
        n.cov.sample(|| format!("tick {} root price {} hint {} spacing {}", t, ff(drp(t)), hint, sp));
    }
}

/// a * b / c in units of 1e-12, exact quotient and whether it is whole: a, b, c already in units
fn frac(num: &[i128], den: &[i128]) -> (Big, bool) {
    let mut a = Big::from(1);
    for v in num {
        a = a.mul(&Big::from(*v as u128));
    }
    let mut b = Big::from(1);
    for v in den {
        b = b.mul(&Big::from(*v as u128));
    }
    let (q, r) = a.divrem(&b);
    (q, r.is_zero())
}
fn toi(b: Big) -> i128 {
    b.to_u128().map(|v| v as i128).unwrap_or(i128::MAX)
}

pub fn c09(r: &mut Rng, n: &mut NC) {
    for _ in 0..12 {
        let lt = match r.below(6) {
            0 => r.below(200) as i64,
            1 => r.below(46_000) as i64,
            2 => r.below(120_000) as i64,
            _ => r.below(12_000) as i64,
        };
        let widest = if r.chance(0.2) { 40_000.0 } else { 4000.0 };
        let w = 1 + r.logf(1.0, widest) as i64;
        let (ra, rb) = (drp(lt), drp(lt + w));
        let rp = match r.below(9) {
            0 => ra,
            1 => rb,
            2 => ra + 1,
            3 => rb - 1,
            4 => (ra - r.below(1 << 36) as i128).max(ONE),
            5 => rb + r.below(1 << 36) as i128,
            _ => ra + (r.u128() % (rb - ra) as u128) as i128,
        };
        let c = rp.max(ra).min(rb);
        n.cov.state(hash64(&[rp, ra, rb]));
        let big = 3.0e7 / ff(rb).max(1.0);
        // whole multiples of units, sometimes tiny
        let l = if r.chance(0.1) { r.below(1000) as i128 } else { fx(r.logf(1e-6, big)) + r.below(1000) as i128 };
        let inp = || format!("l {} rp {} range {} {}", l, rp, ra, rb);
        // value of liquidity, rounded down
        let x = attempt(|| und(D::x_from_l_rp_rng(d(l), d(rp), d(ra), d(rb))));
        let y = attempt(|| und(D::y_from_l_rp_rng(d(l), d(rp), d(ra), d(rb))));
        let (ex, _) = frac(&[l, rb - c, ONE], &[c, rb]);
        let (ey, _) = frac(&[l, c - ra], &[ONE]);
        let (ex, ey) = (toi(ex), toi(ey));
        let slack = 3 + ff(ex) as i128 * 2;
        match (&x, &y) {
            (Ok(x), Ok(y)) => {
                n.ck("X worth of liquidity never rounded up", *x >= 0 && *x <= ex, || format!("{} got {} exact {}", inp(), x, ex));
                n.ck("X worth of liquidity accurate", *x >= ex - slack, || format!("{} got {} exact {}", inp(), x, ex));
                n.ck("Y worth of liquidity rounded down", *y == ey, || format!("{} got {} exact {}", inp(), y, ey));
            }
            g => n.ck("worth of liquidity is defined", false, || format!("{}: {:?}", inp(), g)),
        }
        n.ck("one-sided outside the range", (rp > ra || y == Ok(0)) && (rp < rb || x == Ok(0)), || format!("{}: {:?} {:?}", inp(), x, y));
        // liquidity the amounts allow, never more
        let xi = if r.chance(0.1) { r.below(1000) as i128 } else { fx(r.logf(1e-6, big)) };
        let yi = if r.chance(0.1) { r.below(1000) as i128 } else { fx(r.logf(1e-6, big)) };
        let by_x = |xi: i128| if c < rb { Some(toi(frac(&[xi, c, rb], &[ONE, rb - c]).0)) } else { None };
        let by_y = |yi: i128| if c > ra { Some(toi(frac(&[yi, ONE], &[c - ra]).0)) } else { None };
        let (wx, wy) = (by_x(xi), by_y(yi));
        // each side loses a few units, magnified by how narrow its part of the range is
        let least = |w: i128, narrow: i128| w - 2 - ((ff(rb) + 2.0) * 1e12 / narrow as f64) as i128 - (ff(w) * 3.0) as i128;
        let (want, floor) = match (wx, wy) {
            (Some(p), Some(q)) => (p.min(q), least(p, rb - c).min(least(q, c - ra))),
            (Some(p), None) => (p, least(p, rb - c)),
            (None, Some(q)) => (q, least(q, c - ra)),
            (None, None) => (0, 0),
        };
        let huge = want > 100_000_000 * ONE;
        let g = attempt(|| und(D::liq_from_x_y_rp_rng(d(xi), d(yi), d(rp), d(ra), d(rb))));
        match g {
            Ok(g) => {
                n.ck("liquidity of amounts never rounded up", g >= 0 && g <= want, || format!("x {} y {} {} got {} exact {}", xi, yi, inp(), g, want));
                n.ck("liquidity of amounts accurate", g >= floor, || format!("x {} y {} {} got {} exact {} at least {}", xi, yi, inp(), g, want, floor));
                if g < 30_000_000 * ONE {
                    let (bx, by) = (
                        attempt(|| und(D::x_from_l_rp_rng(d(g), d(rp), d(ra), d(rb)))),
                        attempt(|| und(D::y_from_l_rp_rng(d(g), d(rp), d(ra), d(rb)))),
                    );
                    let ok = match (&bx, &by) {
                        (Ok(bx), Ok(by)) => *bx <= xi && *by <= yi,
                        _ => false,
                    };
                    n.ck("liquidity is never worth more than the amounts it came from", ok, || format!("x {} y {} {} liquidity {} worth {:?} {:?}", xi, yi, inp(), g, bx, by));
                }
            }
            Err(e) => n.ck("liquidity of amounts is defined", huge, || format!("x {} y {} {}: {}", xi, yi, inp(), e)),
        }
        // by tick instead of by root price
        let t = r.range((lt - 20).max(0), lt + w + 20);
        let (pt, ut) = (d(drp(t)), (lt + w) as u128);
        let (xx, yy, ll) = (
            attempt(|| (und(D::x_from_l_tick_rng(d(l), t as u128, lt as u128, ut)), und(D::x_from_l_rp_rng(d(l), pt, d(ra), d(rb))))),
            attempt(|| (und(D::y_from_l_tick_rng(d(l), t as u128, lt as u128, ut)), und(D::y_from_l_rp_rng(d(l), pt, d(ra), d(rb))))),
            attempt(|| (und(D::liq_from_x_y_tick_rng(d(xi), d(yi), t as u128, lt as u128, ut)), und(D::liq_from_x_y_rp_rng(d(xi), d(yi), pt, d(ra), d(rb))))),
        );
        let same = |g: &Result<(i128, i128), String>| g.as_ref().map(|g| g.0 == g.1).unwrap_or(false);
        n.ck("by tick the same as by root price", same(&xx) && same(&yy) && (same(&ll) || ll.is_err() && ff(xi.max(yi)) * 4e4 * ff(rb) > 1e7), || format!("tick {} {} {} l {} x {} y {}: {:?} {:?} {:?}", t, lt, ut, l, xi, yi, xx, yy, ll));
        // the same of the float pool
        let (ft, fl, fu) = (t as u32, lt as u32, (lt + w) as u32);
        let (pt, pl, pu) = (<F as FM>::tick_to_rp(ft), <F as FM>::tick_to_rp(fl), <F as FM>::tick_to_rp(fu));
        let (lf, xf, yf) = (ff(l), ff(xi), ff(yi));
        let g = [F::x_from_l_tick_rng(lf, ft, fl, fu), F::y_from_l_tick_rng(lf, ft, fl, fu), F::liq_from_x_y_tick_rng(xf, yf, ft, fl, fu)];
        let h = [F::x_from_l_rp_rng(lf, pt, pl, pu), F::y_from_l_rp_rng(lf, pt, pl, pu), F::liq_from_x_y_rp_rng(xf, yf, pt, pl, pu)];
        let near = g.iter().zip(h.iter()).all(|(a, b)| (a - b).abs() <= 1e-12 * b.abs());
        n.ck("float: by tick the same as by root price", near, || format!("tick {} {} {} l {} x {} y {}: {:?} {:?}", t, lt, ut, l, xi, yi, g, h));
        // empty and inverted ranges have no liquidity
        let e = [
            attempt(|| D::liq_x_only(d(ONE), d(ra), d(ra))).is_err(),
            attempt(|| D::liq_x_only(d(ONE), d(rb), d(ra))).is_err(),
            attempt(|| D::liq_y_only(d(ONE), d(ra), d(ra))).is_err(),
            attempt(|| D::liq_y_only(d(ONE), d(rb), d(ra))).is_err(),
            attempt(|| F::liq_x_only(1.0, ff(ra), ff(ra))).is_err(),
            attempt(|| F::liq_y_only(1.0, ff(rb), ff(ra))).is_err(),
        ];
        n.ck("empty and inverted ranges are refused", e.iter().all(|v| *v), || format!("{:?} {}", e, inp()));
        moves(r, n, l, ra, rb);
        bounds(r, n, lt, w);
        float(r, n, ff(l), ff(rp), ff(ra), ff(rb), ff(xi), ff(yi));
        n.cov.sample(|| format!("{} x {} y {}", inp(), xi, yi));
    }
}

/// price moves: amounts exchanged, and the price they lead to
fn moves(r: &mut Rng, n: &mut NC, l: i128, a: i128, b: i128) {
    let (p, q) = if r.chance(0.5) { (a, b) } else { (b, a) };
    let inp = || format!("l {} from {} to {}", l, p, q);
    let (hi, lo) = (a.max(b), a.min(b));
    let mx = toi(frac(&[l, hi - lo, ONE], &[hi, lo]).0);
    let my = toi(frac(&[l, hi - lo], &[ONE]).0);
    let up = q > p;
    let g = attempt(|| (und(D::dx_from_l_drp(d(l), d(p), d(q))), und(D::dy_from_l_drp(d(l), d(p), d(q)))));
    if let Ok((gx, gy)) = g {
        let slack = 3 + (ff(mx) * 2.0) as i128;
        let (sx, sy) = (if up { -gx } else { gx }, if up { gy } else { -gy });
        n.ck("X exchanged over a price move", sx >= 0 && sx <= mx && sx >= mx - slack, || format!("{}: {} exact magnitude {}", inp(), gx, mx));
        n.ck("Y exchanged over a price move", sy == my, || format!("{}: {} exact magnitude {}", inp(), gy, my));
    } else {
        n.ck("amounts over a price move are defined", false, || format!("{}: {:?}", inp(), g));
    }
    if l > 1_000_000 {
        // the price after an amount
        let dx = (r.f() * ff(l) / ff(p) * 0.5 * 1e12) as i128;
        let g = attempt(|| und(D::rp_new_from_l_dx(d(l), d(p), d(dx))));
        let den = l + toi(frac(&[dx, p], &[ONE]).0);
        let w = toi(frac(&[l, p], &[den]).0);
        let tol = 2 + 2 * (ff(p) * 1e12 / den as f64) as i128 + 2 * (ONE / den.max(1)) + (ff(p) * 2.0) as i128 * (ONE / den.max(1)).max(1) / 1;
        n.ck("price after receiving X", g.as_ref().map(|g| (g - w).abs() <= tol && *g <= p).unwrap_or(false), || format!("{} dx {}: {:?} expected {} tol {}", inp(), dx, g, w, tol));
        let dy = (r.f() * ff(l) * ff(p) * 0.5 * 1e12) as i128;
        let g = attempt(|| und(D::rp_new_from_l_dy(d(l), d(p), d(dy))));
        let w = p + toi(frac(&[dy, ONE], &[l]).0);
        n.ck("price after receiving Y", g == Ok(w), || format!("{} dy {}: {:?} expected {}", inp(), dy, g, w));
    }
    // HMM-adjusted amounts
    let cs = [1.0, 1.25, 1.5, 2.0];
    let c = *r.pick(&cs);
    let o = match r.below(4) {
        0 => q,
        1 => (ff(q) * r.logf(0.3, 3.0) * 1e12) as i128,
        _ => q + if up { r.below(1 << 38) as i128 } else { -(r.below(1 << 38) as i128).min(q / 2) },
    };
    let (lf, pf, qf, of) = (ff(l), ff(p), ff(q), ff(o));
    let (wx, wy);
    // ln(p/q) without cancellation
    let lnr = ((pf - qf) / qf).ln_1p();
    if c == 1.0 {
        wx = lf / of * lnr;
        wy = -lf * of * lnr;
    } else {
        let k = c - 1.0;
        // q^k - p^k without cancellation
        let dk = -qf.powf(k) * (k * lnr).exp_m1();
        wx = lf / of.powf(c) * dk / (1.0 - c);
        let di = -qf.powf(-k) * (-k * lnr).exp_m1();
        wy = lf * of.powf(c) * di / (1.0 - c);
    }
    let u = 1e-12;
    let oc = of.powf(c);
    // what the documented accuracy of ln and pow allows
    let (ed, eo) = if c == 1.0 { (4e-10, 0.0) } else { (6.0 * u * (1.0 + pf.max(qf)), u * (4.0 + 4.0 * of)) };
    let k1 = if c == 1.0 { 1.0 } else { 1.0 / (c - 1.0) };
    let tx = 2.0 * (lf / oc * ed * k1 + wx.abs() * (eo / oc + u / (lf / oc).max(u)) + 4.0 * u * k1) + wx.abs() * 1e-13;
    let ty = 2.0 * (lf * oc * ed * k1 + wy.abs() * (eo / oc + u / (lf * oc).max(u)) + 4.0 * u * k1) + wy.abs() * 1e-13;
    let g = attempt(|| {
        (
            und(D::dx_from_l_drp_hmm(d(l), d(p), d(q), d(fx(c)), d(o))),
            und(D::dy_from_l_drp_hmm(d(l), d(p), d(q), d(fx(c)), d(o))),
        )
    });
    match g {
        Ok((gx, gy)) => {
            n.cov.maxv("hmm dx err/tol", (ff(gx) - wx).abs() / tx);
            n.cov.maxv("hmm dy err/tol", (ff(gy) - wy).abs() / ty);
            n.ck("HMM-adjusted amounts", (ff(gx) - wx).abs() <= tx && (ff(gy) - wy).abs() <= ty, || format!("{} c {} oracle {}: {} {} expected {} {} tol {} {}", inp(), c, o, ff(gx), ff(gy), wx, wy, tx, ty));
        }
        Err(e) => n.ck("HMM-adjusted amounts are defined", lf * oc > 1e12 || lf.max(1.0) * oc * (pf + qf) > 1e13, || format!("{} c {} oracle {}: {}", inp(), c, o, e)),
    }
    let g = attempt(|| (und(D::dx_from_l_drp_hmm(d(l), d(p), d(p), d(fx(c)), d(o))), und(D::dy_from_l_drp_hmm(d(l), d(p), d(p), d(fx(c)), d(o)))));
    n.ck("no move exchanges nothing", g == Ok((0, 0)), || format!("{} c {}: {:?}", inp(), c, g));
    let cl = fx(r.f() * 0.999);
    n.ck("c below 1 is refused", attempt(|| D::dx_from_l_drp_hmm(d(l), d(p), d(q), d(cl), d(o))).is_err() && attempt(|| D::dy_from_l_drp_hmm(d(l), d(p), d(q), d(cl), d(o))).is_err(), || format!("c {}", cl));
    let gf = (F::dx_from_l_drp_hmm(lf, pf, qf, c, of), F::dy_from_l_drp_hmm(lf, pf, qf, c, of));
    let (fx_, fy_) = (lf / oc * 1e-15 * k1 * 8.0 * pf.max(qf).powf(c - 1.0).max(1.0) + wx.abs() * 1e-12, lf * oc * 1e-15 * k1 * 8.0 + wy.abs() * 1e-12);
    n.ck("float HMM-adjusted amounts", (gf.0 - wx).abs() <= fx_ && (gf.1 - wy).abs() <= fy_, || format!("{} c {} oracle {}: {:?} expected {} {}", inp(), c, o, gf, wx, wy));
}

/// bounds of a range from its liquidity or amounts
fn bounds(r: &mut Rng, n: &mut NC, lt: i64, w: i64) {
    let (ra, rb) = (drp(lt), drp(lt + w));
    let k = 1 + (r.f() * (rb - ra - 2) as f64) as i128;
    let rp = ra + k;
    let l = fx(r.logf(1.0, 1e5));
    let (x, y) = match attempt(|| (und(D::x_from_l_rp_rng(d(l), d(rp), d(ra), d(rb))), und(D::y_from_l_rp_rng(d(l), d(rp), d(ra), d(rb))))) {
        Ok(v) => v,
        Err(_) => return,
    };
    let (lf, rpf, raf, rbf, xf, yf) = (ff(l), ff(rp), ff(ra), ff(rb), ff(x), ff(y));
    let u = 1e-12;
    let inp = || format!("l {} rp {} ra {} rb {} x {} y {}", l, rp, ra, rb, x, y);
    let near = |g: &Result<i128, String>, want: f64, tol: f64| g.as_ref().map(|g| (ff(*g) - want).abs() <= tol).unwrap_or(false);
    let g = attempt(|| und(D::rpa_from_l_rp_y(d(l), d(rp), d(y))));
    n.ck("lower bound from liquidity and Y", near(&g, raf, 4.0 * u * (1.0 + 1.0 / lf)), || format!("{}: {:?}", inp(), g));
    let g = attempt(|| und(D::rpb_from_l_rp_x(d(l), d(rp), d(x))));
    let den = lf - rpf * xf;
    let t = 4.0 * u * (1.0 + (1.0 + rbf) * (1.0 + rpf) / den + rbf * rbf) + rbf * 1e-13;
    n.ck("upper bound from liquidity and X", near(&g, rbf, t), || format!("{}: {:?} tol {}", inp(), g, t));
    // amounts determine the other bound: uncertainty of y / (rp x) with x, y good to a unit
    if x > 1000 && y > 1000 {
        let q = yf / (rpf * xf);
        let rel = 4.0 * u * (1.0 / xf + 1.0 / yf + 1.0 / (rpf * xf) + (1.0 + rpf) / rpf) + 1e-13;
        let t = 4.0 * (q * rel + u) + raf * 1e-13;
        let g = attempt(|| und(D::rpa_from_x_y_rp_rpb(d(x), d(y), d(rp), d(rb))));
        n.ck("lower bound from amounts", near(&g, raf, t) || (g.is_err() && t > raf / 2.0), || format!("{}: {:?} tol {}", inp(), g, t));
        let g = attempt(|| und(D::rpb_from_x_y_rp_rpa(d(x), d(y), d(rp), d(ra))));
        let d1 = (rpf - raf) * rpf * xf;
        let den = yf - d1;
        let rel = (4.0 * u * (1.0 + rpf * xf + xf + rpf + yf + (rpf - raf) * rpf) + 4e-16 * yf) / den;
        let t = 4.0 * rbf * rel + 4.0 * u * (1.0 + 1.0 / den);
        n.ck("upper bound from amounts", near(&g, rbf, t) || (rel > 0.2), || format!("{}: {:?} tol {}", inp(), g, t));
    }
    // floating point
    let (x, y) = (F::x_from_l_rp_rng(lf, rpf, raf, rbf), F::y_from_l_rp_rng(lf, rpf, raf, rbf));
    let e = 1e-13 * rbf * rbf * rbf / ((rbf - raf) * 1.0).min(1.0);
    let g = [F::rpa_from_l_rp_y(lf, rpf, y), F::rpb_from_l_rp_x(lf, rpf, x), F::rpa_from_x_y_rp_rpb(x, y, rpf, rbf), F::rpb_from_x_y_rp_rpa(x, y, rpf, raf)];
    let side = (rpf - raf).min(rbf - rpf);
    let e2 = e / side.min(1.0) * 4.0;
    n.ck("float bounds", (g[0] - raf).abs() <= e && (g[1] - rbf).abs() <= e && (g[2] - raf).abs() <= e2 && (g[3] - rbf).abs() <= e2, || format!("{}: {:?} tol {} {}", inp(), g, e, e2));
}

fn float(r: &mut Rng, n: &mut NC, l: f64, rp: f64, ra: f64, rb: f64, x: f64, y: f64) {
    let c = rp.max(ra).min(rb);
    let ulp = |v: f64| v.abs() * 4e-16;
    let wx = l * (1.0 / c - 1.0 / rb);
    let wy = l * (c - ra);
    let (gx, gy) = (F::x_from_l_rp_rng(l, rp, ra, rb), F::y_from_l_rp_rng(l, rp, ra, rb));
    n.ck("float worth of liquidity", (gx - wx).abs() <= ulp(wx) + l * 4e-16 && (gy - wy).abs() <= ulp(wy), || format!("l {} rp {} {} {}: {} {} expected {} {}", l, rp, ra, rb, gx, gy, wx, wy));
    let wl = match (c < rb, c > ra) {
        (true, true) => (x / (1.0 / c - 1.0 / rb)).min(y / (c - ra)),
        (true, false) => x / (1.0 / c - 1.0 / rb),
        _ => y / (c - ra),
    };
    let g = F::liq_from_x_y_rp_rng(x, y, rp, ra, rb);
    let cond = 1.0 + rb / (if c < rb { rb - c } else { 1.0 }).min(if c > ra { c - ra } else { 1.0 });
    n.ck("float liquidity of amounts", (g - wl).abs() <= wl * 1e-15 * cond, || format!("x {} y {} rp {} {} {}: {} expected {}", x, y, rp, ra, rb, g, wl));
    let (p, q) = if r.chance(0.5) { (ra, rb) } else { (rb, ra) };
    let (dx, dy) = (F::dx_from_l_drp(l, p, q), F::dy_from_l_drp(l, p, q));
    let (ex, ey) = (l * (p - q) / (p * q), l * (q - p));
    n.ck("float amounts over a price move", (dx - ex).abs() <= l * 4e-16 + ulp(ex) && (dy - ey).abs() <= ulp(ey), || format!("l {} {} {}: {} {} expected {} {}", l, p, q, dx, dy, ex, ey));
    if l > 1e-6 {
        let (gp, gq) = (F::rp_new_from_l_dx(l, p, ex), F::rp_new_from_l_dy(l, p, ey));
        n.ck("float price after an amount", (gp - q).abs() <= 1e-14 * (p + q) * (p + q) && (gq - q).abs() <= 1e-14 * (p + q), || format!("l {} {} {}: {} {}", l, p, q, gp, gq));
    }
}
