//! C35: new pools.
use crate::amm::*;
use crate::hist::{apply, Op};
use crate::num::NC;
use crate::util::*;
use hmmcl_sandbox::cl_pool as dp;

fn fresh<A: Amm>(r: &mut Rng, n: &mut NC) {
    let sp = *r.pick(&[1i64, 1, 2, 3, 5, 10, 60, 200, 1000]);
    let t = match r.below(4) {
        0 => r.below(3 * sp as u64) as i64,
        1 => (1 + r.below(40) as i64) * sp + r.range(-1, 1),
        _ => r.below(60_000) as i64,
    };
    let (a, b) = (A::rp_of(t), A::rp_of(t + 1));
    let m = if A::FLOAT { 1 } else { 0 };
    let rp0 = match r.below(4) {
        0 => a + m,
        1 => b - 1 - m,
        _ => a + m + r.below((b - a - 2 * m) as u64) as i128,
    };
    let p = Params { rp0, spacing: sp, c: fx(*r.pick(&[0.0, 1.0, 1.25, 1.5, 2.0])), fee: fx(*r.pick(&[0.0, 0.0005, 0.003, 0.3])) };
    n.cov.state(hash64(&[rp0, sp as i128, p.c, p.fee, m]));
    let w = t.div_euclid(sp) * sp;
    let q = match attempt(|| A::new(&p)) {
        Ok(q) => q,
        Err(e) => return n.ck("a pool can be created at any price", false, || format!("{} {:?}: {}", A::NAME, p, e)),
    };
    let s = q.snap();
    n.ck("a new pool is at the usable tick at or below its price", s.tick == w && s.rp == A::rp_of(w), || format!("{} {:?} (tick {}): at tick {} price {}", A::NAME, p, t, s.tick, s.rp));
    let empty = s.x == [0; 3] && s.y == [0; 3] && s.liq == 0 && s.fg == [0; 4] && s.pos.is_empty() && s.ticks.is_empty() && s.npos == 0 && s.ntick == 0;
    n.ck("a new pool is empty", empty, || format!("{} {:?}: {:?}", A::NAME, p, s));
    // nothing can be had from it
    let mut z = q.clone();
    let op = match r.below(4) {
        0 => Op::Withdraw { u: 0, lt: w, ut: w + sp, l: ONE * r.below(2) as i128 },
        1 => Op::Deposit { u: 0, lt: w, ut: w + sp, x: 0, y: 0, exact: false },
        _ => Op::Swap { from_x: r.chance(0.5), amt: 1 + r.below(1 << 50) as i128, oracle: fx(s.rpf * (0.9 + 0.2 * r.f())), hit: false },
    };
    let out = apply(&mut z, &op);
    let e = z.snap();
    let none = match &out {
        Ok(Some(o)) => o.recv == 0 && o.send == 0 && o.adj == 0 && o.fee == 0,
        _ => true,
    };
    n.ck("nothing moves in an empty pool", none && e == s, || format!("{} {:?} {:?}: {:?} {:?}", A::NAME, p, op, out, e));
    // and the first deposit alone decides what is in it
    let k = 1 + r.below(50) as i64;
    let (lt, ut) = ((w - k * sp).max(0), w + k * sp);
    let d = Op::Deposit { u: 1, lt, ut, x: ONE * 1000, y: ONE * 1000, exact: false };
    let out = apply(&mut z, &d);
    let e = z.snap();
    let ok = out.is_ok() && e.npos == 1 && e.ntick == 2 && e.keys == vec![lt, ut] && e.pos.len() == 1 && e.pos[0].3 == e.liq && e.liq > 0 && e.tick == s.tick && e.rp == s.rp;
    n.ck("the first deposit is all there is", ok, || format!("{} {:?} {:?}: {:?} {:?}", A::NAME, p, d, out, e));
}

pub fn c35(r: &mut Rng, n: &mut NC) {
    fresh::<Dec>(r, n);
    fresh::<Flo>(r, n);
    // what makes no sense is refused
    let rp = ONE + r.below(1 << 42) as i128;
    let v = 1 + if r.chance(0.5) { r.below(10) } else { r.below(1 << 41) } as i128;
    let (c, fee) = (fx(*r.pick(&[0.0, 1.0, 1.5, 2.0])), fx(*r.pick(&[0.0, 0.003])));
    let mk = |rp: i128, c: i128, fee: i128| attempt(|| dp::Pool::new("X", 9, "Y", 6, d(rp), 1, d(c), d(fee))).is_err();
    let bad = [mk(-rp, c, fee), mk(rp, -v, fee), mk(rp, 2 * ONE + v, fee), mk(rp, c, -v)];
    n.ck("a pool with a negative price, fee or HMM strength, or one above 2, is refused", bad.iter().all(|b| *b), || format!("price {} c {} fee {} by {}: {:?}", rp, c, fee, v, bad));
    n.cov.sample(|| format!("root price {} off by {}", rp, v));
}
