//! Pool histories: workload generator, shadow model and online monitors.
use crate::amm::*;
use crate::refamm::*;
use crate::util::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub enum Op {
    Deposit { u: usize, lt: i64, ut: i64, x: i128, y: i128, exact: bool },
    Withdraw { u: usize, lt: i64, ut: i64, l: i128 },
    Swap { from_x: bool, amt: i128, oracle: i128, hit: bool },
}

/// fees owed to one position, according to the shadow model: [x fee, y fee, x adj, y adj]
#[derive(Clone, Default, Debug)]
struct Acc {
    owed: [f64; 4],
    tol: [f64; 4],
}

pub struct Ctx<'a> {
    pub prop: &'a str,
    pub cov: &'a mut Cov,
    pub scenario: u64,
    pub trace: Vec<String>,
    pub explore: bool,
    /// rounding dust the swaps so far may have taken from (or left in) the reserves
    pub dust: [f64; 2],
    /// the most every reserve and pot ever held: floating-point sums are as coarse as that
    pub peak: [f64; 6],
}
impl<'a> Ctx<'a> {
    fn on(&self, p: &str) -> bool {
        self.explore || self.prop == p
    }
    fn check(&mut self, p: &str, class: &str, ok: bool, what: impl FnOnce() -> String) -> bool {
        if !self.on(p) {
            return true;
        }
        self.cov.eval(class);
        if !ok {
            let w = what();
            let t = self.trace.clone();
            let c = format!("{}:{}", p, class);
            self.cov.fail(&c, w, &t, self.scenario);
        }
        ok
    }
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub p: Params,
    pub tick0: i64,
    pub lscale: f64,
    pub width: i64,
    pub nops: usize,
    pub gaps: bool,
    pub hits: f64,
}

pub fn gen_profile<A: Amm>(r: &mut Rng) -> Profile {
    let centres = [60i64, 900, 2300, 4055, 9000, 15000, 23027, 23028, 31000, 46054, 92_109, 110_000];
    let w = [3u64, 4, 4, 4, 3, 2, 2, 1, 1, 1, 1, 1];
    let mut k = r.below(w.iter().sum());
    let mut i = 0;
    while k >= w[i] {
        k -= w[i];
        i += 1;
    }
    let tick0 = centres[i] + r.range(-40, 40);
    let spacing = if r.chance(0.7) { 1 } else { *r.pick(&[2i64, 3, 5, 7, 10, 20, 60, 200]) };
    let cs = [0.0, 1.0, 1.25, 1.5, 2.0];
    let c = if r.chance(0.35) { 0.0 } else { *r.pick(&cs) };
    // any strength of at least one will do in floating point
    let c = if A::FLOAT && r.chance(0.1) { *r.pick(&[1.0625, 1.75, 2.5, 3.0]) } else { c };
    let fee = *r.pick(&[0.0, 0.0005, 0.003, 0.003, 0.01, 0.05, 0.3]);
    let fee = if r.chance(0.2) { if r.chance(0.1) { 0.5 + r.f() * 0.45 } else { r.logf(1e-5, 0.5) } } else { fee };
    let width = *r.pick(&[1i64, 3, 8, 30, 100, 400]);
    // now and then very long ranges: tens of thousands of ticks between two active ticks
    let width = if r.chance(0.06) { *r.pick(&[2000i64, 6000, 15000]) } else { width };
    let lo = (A::rp_of(tick0) + A::rp_of(tick0 + 1)) / 2;
    let rich = if tick0 > 80_000 { 0.01 } else { 1.0 };
    Profile {
        p: Params { rp0: lo, spacing, c: fx(c), fee: fx(fee) },
        tick0,
        lscale: rich * if r.chance(0.06) { r.logf(3e6, if A::FLOAT { 3e7 } else { 1e9 }) } else { r.logf(10.0, 3e6) },
        width: width * spacing,
        // now and then a pool with dozens of positions, crossed many ticks at a time
        nops: if r.chance(0.03) { 60 + r.below(140) as usize } else { 8 + r.below(28) as usize },
        gaps: r.chance(0.3),
        hits: if r.chance(0.4) { 0.25 } else { 0.02 },
    }
}

pub fn mid<A: Amm>(t: i64) -> i128 {
    (A::rp_of(t) + A::rp_of(t + 1)) / 2
}

pub fn gen_op<A: Amm>(r: &mut Rng, pf: &Profile, s: &Snap) -> Op {
    let sp = pf.p.spacing;
    let live: Vec<_> = s.pos.iter().filter(|p| p.3 > 0).cloned().collect();
    let roll = if live.is_empty() { 0.0 } else { r.f() };
    if roll < 0.30 {
        // deposit; often re-use an existing range or bound
        let (mut lt, mut ut);
        let q = r.f();
        if !live.is_empty() && q < 0.25 {
            let p = r.pick(&live);
            lt = p.1;
            ut = p.2;
        } else if !live.is_empty() && q < 0.5 {
            let p = r.pick(&live);
            let edge = if r.chance(0.5) { p.1 } else { p.2 };
            let w = 1 + r.below(pf.width as u64) as i64;
            if r.chance(0.5) {
                lt = edge;
                ut = edge + w;
            } else {
                lt = edge - w;
                ut = edge;
            }
        } else {
            let off = if pf.gaps { 4 } else { 1 };
            let a = s.tick + r.range(-off * pf.width, off * pf.width);
            let w = 1 + r.below(2 * pf.width as u64) as i64;
            lt = a - w / 2;
            ut = lt + w;
        }
        // amounts stay well below where the numbers run out of digits
        let (low, high) = if pf.tick0 > 80_000 { (80_000, 140_000) } else { (2 * sp, 100_000) };
        lt = lt.clamp(low, high - sp);
        ut = ut.min(high);
        lt = lt.div_euclid(sp) * sp;
        ut = ut.div_euclid(sp) * sp;
        if ut <= lt {
            ut = lt + sp;
        }
        let u = r.below(USERS.len() as u64) as usize;
        let l = pf.lscale * r.logf(0.02, 20.0);
        let (ra, rb, rp) = (A::rpf_of(lt), A::rpf_of(ut), s.rpf);
        let c = rp.max(ra).min(rb);
        let x = l * (rb - c) / (c * rb);
        let y = l * (c - ra);
        let (mut x, mut y) = (fx(x), fx(y));
        match r.below(8) {
            0 => x = fx(ff(x) * (1.0 + r.f())),
            1 => y = fx(ff(y) * (1.0 + r.f())),
            2 => {
                x = fx(ff(x) * 1.0000001) + 3;
                y = fx(ff(y) * 1.0000001) + 3;
            }
            3 => {
                // whole amounts
                x = (x / ONE + 1) * ONE;
                y = (y / ONE + 1) * ONE;
            }
            4 if r.chance(0.3) => {
                x = r.below(1000) as i128;
                y = r.below(1000) as i128;
            }
            5 if r.chance(0.3) => {
                x = 0;
                y = 0;
            }
            _ => {}
        }
        return Op::Deposit { u, lt, ut, x, y, exact: r.chance(0.1) };
    }
    if roll < 0.50 {
        let p = r.pick(&live).clone();
        let l = match r.below(9) {
            0 | 1 | 2 => p.3,
            3 => 0,
            // leave a whole number of units: amounts to the next tick are then exact
            8 => p.3 % ONE,
            4 => 1.max(p.3 / 2),
            5 => {
                let v = p.3 - 1;
                if v < 0 {
                    0
                } else {
                    v
                }
            }
            _ => (p.3 as f64 * r.f()) as i128,
        };
        let l = if A::FLOAT && l != p.3 { l / ONE * ONE } else { l };
        return Op::Withdraw { u: p.0, lt: p.1, ut: p.2, l };
    }
    let from_x = r.chance(0.5);
    // size relative to liquidity around
    let lref = if s.liq > 0 {
        ff(s.liq)
    } else {
        live.iter().map(|p| ff(p.3)).fold(0.0, f64::max)
    };
    let rp = s.rpf;
    let width = pf.width as f64 * 5e-5;
    let mv = match r.below(6) {
        0 => width * r.logf(1e-4, 1e-1),
        1 | 2 => width * r.logf(0.05, 1.0),
        3 | 4 => width * r.logf(0.5, 6.0),
        _ => 5e-5 * r.logf(0.01, 3.0),
    };
    let mut amt = if from_x { lref / rp * mv } else { lref * rp * mv };
    let mut hit = false;
    let mut exact: Option<i128> = None;
    if r.chance(pf.hits) && s.liq > 0 {
        // aim exactly at an active tick price, plus or minus a few ulps
        let g = if from_x {
            s.keys.iter().rev().find(|k| A::rpf_of(**k) < rp)
        } else {
            s.keys.iter().find(|k| A::rpf_of(**k) > rp)
        };
        if let Some(g) = g {
            let rg = A::rpf_of(*g);
            let l = ff(s.liq);
            let done = if from_x { l * (rp - rg) / (rp * rg) } else { l * (rg - rp) };
            amt = done / (1.0 - ff(pf.p.fee));
            hit = true;
            if !from_x && pf.p.fee == 0 && r.chance(0.5) {
                exact = s.liq.checked_mul(A::rp_of(*g) - s.rp).map(|v| v / ONE);
            }
        }
    }
    let mut a = fx(amt);
    if let Some(e) = exact {
        a = e;
    } else if hit {
        a += r.range(-3, 3) as i128;
    }
    if r.chance(0.02) {
        a = r.below(50) as i128;
    }
    if a < 1 {
        a = 1;
    }
    let oracle = if pf.p.c == 0 && r.chance(0.7) {
        0
    } else {
        match r.below(6) {
            0 if !A::FLOAT => 0,
            1 => s.rp,
            2 => fx(rp * (1.0 - 1.5 * width * r.f()).max(0.01)),
            3 => fx(rp * (1.0 + 1.5 * width * r.f())),
            4 => fx(rp * (1.0 - mv * r.f()).max(0.01)),
            _ => fx(rp * (1.0 + mv * r.f())),
        }
    };
    Op::Swap { from_x, amt: a, oracle: oracle.max(if A::FLOAT { 1 } else { 0 }), hit }
}

pub fn apply<A: Amm>(p: &mut A, op: &Op) -> Result<Option<Out>, String> {
    match op {
        Op::Deposit { u, lt, ut, x, y, exact } => {
            let (a, b) = if *exact {
                // one ulp-ish above the tick price
                (A::rp_of(*lt) + 40, A::rp_of(*ut) + 40)
            } else {
                (mid::<A>(*lt), mid::<A>(*ut))
            };
            attempt(|| p.deposit(*u, *x, *y, a, b)).map(|_| None)
        }
        Op::Withdraw { u, lt, ut, l } => {
            attempt(|| p.withdraw(*u, *l, mid::<A>(*lt), mid::<A>(*ut))).map(|_| None)
        }
        Op::Swap { from_x, amt, oracle, .. } => attempt(|| {
            if *from_x {
                p.swap_x(*amt, *oracle)
            } else {
                p.swap_y(*amt, *oracle)
            }
        })
        .map(Some),
    }
}

pub struct Tol {
    pub u1: f64,
    pub u2: f64,
    pub rel: f64,
}
fn tol<A: Amm>() -> Tol {
    if A::FLOAT {
        Tol { u1: 1e-13, u2: 1e-15, rel: 2e-11 }
    } else {
        Tol { u1: 8e-12, u2: 2e-15, rel: 1e-11 }
    }
}
impl Tol {
    /// absolute tolerance for an amount computed from liquidity l around root price rp over n segments
    pub fn amt(&self, l: f64, rp: f64, n: usize, v: f64) -> f64 {
        (n as f64 + 2.0) * (l * self.u1 + l * rp * self.u2 + 4e-12 * (1.0 + rp * rp)) + self.rel * v.abs()
    }
}

type Key = (usize, i64, i64);

/// payout of a full or partial withdrawal measured through reserves and pots
fn payout(a: &Snap, b: &Snap) -> [i128; 6] {
    [
        a.x[0] - b.x[0],
        a.y[0] - b.y[0],
        a.x[2] - b.x[2],
        a.y[2] - b.y[2],
        a.x[1] - b.x[1],
        a.y[1] - b.y[1],
    ]
}

pub fn run_history<A: Amm>(seed: u64, scenario: u64, cx: &mut Ctx) {
    let mut r = Rng::new(seed, scenario);
    let pf = gen_profile::<A>(&mut r);
    cx.scenario = scenario;
    cx.trace.clear();
    cx.dust = [1e-9; 2];
    cx.peak = [0.0; 6];
    cx.trace.push(format!(
        "pool={} rp0={} spacing={} c={} fee={} (tick0={} L~{:.3} width={})",
        A::NAME, pf.p.rp0, pf.p.spacing, ff(pf.p.c), ff(pf.p.fee), pf.tick0, pf.lscale, pf.width
    ));
    let mut pool = match attempt(|| A::new(&pf.p)) {
        Ok(p) => p,
        Err(e) => {
            cx.check("C11", "bootstrap", false, || format!("pool creation rejected: {}", e));
            return;
        }
    };
    let mut s = pool.snap();
    let fee = ff(pf.p.fee);
    let c = ff(pf.p.c);
    let tl = tol::<A>();
    // the floating-point pool keeps back 1e-12 of every output
    let adjr = if A::FLOAT { 4e-12 } else { 2e-13 };
    let rpf = |t: i64| A::rpf_of(t);
    let mut tp = TickPrice::new(&rpf);
    let mut acc: HashMap<Key, Acc> = HashMap::new();
    let sp = pf.p.spacing;
    let want_boot = pf.tick0.div_euclid(sp) * sp;
    let (bt, brp) = (s.tick, s.rp);
    cx.check("C11", "bootstrap", bt == want_boot && brp == A::rp_of(want_boot), || {
        format!("bootstrap tick {} rp {} expected tick {}", bt, brp, want_boot)
    });
    for step in 0..pf.nops {
        let op = gen_op::<A>(&mut r, &pf, &s);
        cx.trace.push(format!("[{}] {:?}", step, op));
        let pre = s.clone();
        let before = pool.clone();
        let res = apply(&mut pool, &op);
        match res {
            Err(e) => {
                pool = before;
                let short: String = e.chars().take(60).collect();
                cx.cov.count(&format!("rejected {}", kind(&op)));
                cx.trace.push(format!("    rejected: {}", e));
                on_reject::<A>(cx, &pf, &pre, &op, &e, &mut tp);
                let _ = short;
            }
            Ok(out) => {
                s = pool.snap();
                for (m, v) in cx.peak.iter_mut().zip(s.x.iter().chain(s.y.iter())) {
                    *m = m.max(ff(*v));
                }
                // ... and as the rounding of the price times the liquidity
                let l = 0.05 * s.pos.iter().map(|p| ff(p.3)).fold(0.0, f64::max);
                cx.peak[0] = cx.peak[0].max(l / s.rpf);
                cx.peak[3] = cx.peak[3].max(l * s.rpf);
                cx.cov.count(&format!("op {}", kind(&op)));
                if let Op::Deposit { u, lt, ut, .. } | Op::Withdraw { u, lt, ut, .. } = &op {
                    let l = ff((liq_of(&s, (*u, *lt, *ut)) - liq_of(&pre, (*u, *lt, *ut))).abs());
                    let d = tl.amt(l, s.rpf, 1, 0.0);
                    cx.dust[0] += d + tl.rel * ff((s.x[0] - pre.x[0]).abs());
                    cx.dust[1] += d + tl.rel * ff((s.y[0] - pre.y[0]).abs());
                }
                cx.cov.state(hash64(&[
                    s.tick as i128,
                    s.rp,
                    s.liq,
                    s.x[0],
                    s.y[0],
                    s.npos as i128,
                    s.ntick as i128,
                ]));
                book::<A>(cx, &pre, &s, &op);
                price::<A>(cx, &pf, &pre, &s, &op, &mut tp);
                match &op {
                    Op::Swap { from_x, amt, oracle, hit } => {
                        let o = out.unwrap();
                        cx.trace.push(format!("    -> {:?} tick={} rp={}", o, s.tick, s.rp));
                        let pos: Vec<(i64, i64, f64)> =
                            pre.pos.iter().map(|p| (p.1, p.2, ff(p.3))).collect();
                        let rf = swap(
                            *from_x, ff(*amt), ff(*oracle), pre.rpf, pre.tick, &pos, fee, c, &mut tp,
                        );
                        swap_checks::<A>(cx, &pf, &pre, &s, &op, &o, &rf, &tl, &before, *hit);
                        let mr = pre.rpf.max(s.rpf).max(rf.rp_end);
                        let mn = pre.rpf.min(s.rpf).min(rf.rp_end);
                        let d = tl.amt(rf.max_l, mr, rf.segments + 2, 0.0);
                        cx.dust[0] += d / (mn * mn).min(1.0) + adjr * ff(s.x[0].max(pre.x[0]));
                        cx.dust[1] += d + adjr * ff(s.y[0].max(pre.y[0]));
                        // shadow fee accrual
                        let n = rf.segments + 1;
                        for (i, p) in pre.pos.iter().enumerate() {
                            let sh = rf.share[i];
                            let e = acc.entry((p.0, p.1, p.2)).or_default();
                            let (fi, ai) = if *from_x { (0, 3) } else { (1, 2) };
                            e.owed[fi] += sh.0;
                            e.owed[ai] += sh.1;
                            let l = ff(p.3);
                            let frac = if rf.max_l > 0.0 { l / rf.max_l } else { 0.0 };
                            let t = tl.amt(rf.max_l, pre.rpf.max(rf.rp_end), n, 0.0) * frac
                                + n as f64 * (l * 4e-12 + 1e-11);
                            let t = t + rf.slop * (l / rf.min_l).min(1.0) * (1.0 + pre.rpf * pre.rpf);
                            e.tol[fi] += t + sh.0 * 1e-10;
                            e.tol[ai] += t + sh.1 * 1e-10 + n as f64 * lntol(c, rf.max_l, pre.rpf, *from_x) * frac;
                        }
                    }
                    Op::Deposit { u, lt, ut, x, y, .. } => {
                        cx.trace.push(format!("    -> liq={} tick={}", s.liq, s.tick));
                        claims::<A>(cx, &pre, &s, (*u, *lt, *ut), &mut acc, "deposit");
                        deposit_checks::<A>(cx, &pf, &pre, &s, (*u, *lt, *ut), *x, *y, &tl);
                        if r.chance(0.3) {
                            roundtrip_lp::<A>(cx, &before, &pool, &pre, &s, (*u, *lt, *ut), &tl);
                        }
                        if r.chance(0.3) {
                            isolation::<A>(cx, &before, &pool, &pre, &s, (*u, *lt, *ut));
                        }
                    }
                    Op::Withdraw { u, lt, ut, l } => {
                        cx.trace.push(format!("    -> liq={} tick={}", s.liq, s.tick));
                        claims::<A>(cx, &pre, &s, (*u, *lt, *ut), &mut acc, "withdraw");
                        withdraw_checks::<A>(cx, &pre, &s, (*u, *lt, *ut), *l, &tl);
                        if r.chance(0.3) {
                            isolation::<A>(cx, &before, &pool, &pre, &s, (*u, *lt, *ut));
                        }
                    }
                }
                pots::<A>(cx, &s, &acc);
                solvency::<A>(cx, &s, &mut tp);
                if cx.on("C17") || cx.on("C18") {
                    if r.chance(0.5) {
                        metamorphic::<A>(cx, &mut r, &pf, &pool, &s, &tl);
                    }
                }
                if cx.on("C21") && r.chance(0.3) {
                    hostile::<A>(cx, &mut r, sp, &pool, &s);
                }
                if cx.on("C12") && (r.chance(0.15) || step + 1 == pf.nops) {
                    exit_all::<A>(cx, &mut r, &pool, &s, &acc, &tl);
                }
            }
        }
        if !cx.cov.violations.is_empty() && cx.cov.violations.len() >= 20 && !cx.explore {
            break;
        }
    }
    let t = cx.trace.clone();
    cx.cov.sample(|| format!("{} ... {} ops", t[0], t.len()));
}

fn kind(op: &Op) -> &'static str {
    match op {
        Op::Deposit { .. } => "deposit",
        Op::Withdraw { .. } => "withdraw",
        Op::Swap { from_x: true, .. } => "swap_x",
        Op::Swap { from_x: false, .. } => "swap_y",
    }
}

/// C10: positions, tick table and active liquidity always agree
fn book<A: Amm>(cx: &mut Ctx, pre: &Snap, s: &Snap, op: &Op) {
    if !cx.on("C10") {
        return;
    }
    let mut want: BTreeMap<i64, (i128, i128)> = BTreeMap::new();
    let mut inrange = 0i128;
    for p in &s.pos {
        if p.3 == 0 {
            continue;
        }
        let a = want.entry(p.1).or_insert((0, 0));
        a.0 += p.3;
        a.1 += p.3;
        let b = want.entry(p.2).or_insert((0, 0));
        b.0 -= p.3;
        b.1 += p.3;
        if p.1 <= s.tick && s.tick < p.2 {
            inrange += p.3;
        }
    }
    let got: BTreeMap<i64, (i128, i128)> = s.ticks.iter().map(|t| (t.0, (t.1, t.2))).collect();
    cx.check("C10", "tick table = sum of positions", got == want, || {
        format!("tick table {:?} expected {:?}", got, want)
    });
    let keys: Vec<i64> = want.keys().copied().collect();
    cx.check("C10", "active tick list", s.keys == keys && s.ntick == keys.len() && s.npos == s.pos.len(), || {
        format!("keys {:?} count {} expected {:?}", s.keys, s.ntick, keys)
    });
    cx.check("C10", "active liquidity = sum of in-range positions", s.liq == inrange, || {
        format!(
            "active liquidity {} but in-range positions sum to {} (tick {}, ticks {:?})",
            s.liq, inrange, s.tick, s.keys
        )
    });
    // only the addressed position changes
    let a: HashMap<Key, i128> = pre.pos.iter().map(|p| ((p.0, p.1, p.2), p.3)).collect();
    let b: HashMap<Key, i128> = s.pos.iter().map(|p| ((p.0, p.1, p.2), p.3)).collect();
    let (k, exp): (Option<Key>, Option<i128>) = match op {
        Op::Swap { .. } => (None, None),
        Op::Deposit { u, lt, ut, .. } => (Some((*u, *lt, *ut)), None),
        Op::Withdraw { u, lt, ut, l } => (Some((*u, *lt, *ut)), Some(-*l)),
    };
    let mut ok = true;
    for (key, v) in a.iter() {
        if Some(*key) == k {
            continue;
        }
        if b.get(key) != Some(v) {
            ok = false;
        }
    }
    for (key, _) in b.iter() {
        if Some(*key) != k && !a.contains_key(key) {
            ok = false;
        }
    }
    if let Some(k) = k {
        let d = b.get(&k).copied().unwrap_or(0) - a.get(&k).copied().unwrap_or(0);
        match exp {
            Some(e) => ok = ok && d == e,
            None => ok = ok && d >= 0,
        }
        if b.get(&k) == Some(&0) {
            cx.cov.count("zero-liquidity position");
        }
    }
    cx.check("C10", "only the addressed position changes", ok, || {
        format!("positions before {:?} after {:?} op {:?}", pre.pos, s.pos, op)
    });
}

/// C11: price, tick and direction
fn price<A: Amm>(cx: &mut Ctx, pf: &Profile, pre: &Snap, s: &Snap, op: &Op, tp: &mut TickPrice) {
    if !cx.on("C11") {
        return;
    }
    match op {
        Op::Swap { from_x, .. } => {
            // a crossing to the left leaves the tick on the next lower multiple of the spacing
            let sp = pf.p.spacing;
            let (t0, t1) = (pre.tick.div_euclid(sp), s.tick.div_euclid(sp));
            let ok = if *from_x { s.rp <= pre.rp && t1 <= t0 } else { s.rp >= pre.rp && t1 >= t0 };
            cx.check("C11", "swap moves price in its direction", ok, || {
                format!("from_x={} rp {} -> {} tick {} -> {}", from_x, pre.rp, s.rp, pre.tick, s.tick)
            });
        }
        _ => {
            cx.check("C11", "deposit/withdraw keep the price", s.rp == pre.rp && s.tick == pre.tick, || {
                format!("rp {} -> {} tick {} -> {}", pre.rp, s.rp, pre.tick, s.tick)
            });
        }
    }
    // price lies in the bucket of the current tick; the right edge is included
    let eps = s.rpf * 1e-9;
    let lo = tp.get(s.tick);
    // (the bucket of the current tick is one tick wide, except that a swap to the left that stops on the
    // tick it has just crossed keeps that price with the next lower multiple of the spacing as its tick)
    let on_crossed = (s.rp - A::rp_of(s.tick + pf.p.spacing)).abs() <= 2 && s.tick % pf.p.spacing == 0;
    let hi = if on_crossed { tp.get(s.tick + pf.p.spacing) } else { tp.get(s.tick + 1) };
    cx.check("C11", "price inside the current tick", s.rpf >= lo - eps && s.rpf <= hi + eps, || {
        format!("tick {} [{}, {}] but rp {}", s.tick, lo, hi, s.rpf)
    });
    // no active tick separates tick and price
    let t = s.tick;
    let bad = s.keys.iter().any(|k| {
        let v = A::rp_of(*k);
        (*k > t && v < s.rp - 2) || (*k <= t && v > s.rp + 2)
    });
    let keys = s.keys.clone();
    cx.check("C11", "no active tick between tick and price", !bad, || {
        format!("tick {} rp {} active ticks {:?}", t, s.rp, keys)
    });
}

fn swap_checks<A: Amm>(
    cx: &mut Ctx, pf: &Profile, pre: &Snap, s: &Snap, op: &Op, o: &Out, rf: &RefSwap, tl: &Tol, before: &A, hit: bool,
) {
    let (from_x, amt, oracle) = match op {
        Op::Swap { from_x, amt, oracle, .. } => (*from_x, *amt, *oracle),
        _ => return,
    };
    let fee = ff(pf.p.fee);
    let c = ff(pf.p.c);
    let (pi, po, qi, qo) = if from_x { (&pre.x, &pre.y, &s.x, &s.y) } else { (&pre.y, &pre.x, &s.y, &s.x) };
    let slack: i128 = if A::FLOAT {
        2 + (ff(pi[0].max(po[0]).max(qi[0]).max(pi[2]).max(po[1]).max(amt)) * 1e-3) as i128
    } else {
        0
    };
    let near = |a: i128, b: i128| (a - b).abs() <= slack;
    // C14 exact conservation
    cx.check("C14", "input reserve and fee pot grow by what was received",
        near(qi[0] - pi[0], o.recv - o.fee) && near(qi[2] - pi[2], o.fee) && qi[1] == pi[1], || {
        format!("in before {:?} after {:?} out {:?}", pi, qi, o)
    });
    cx.check("C14", "output reserve falls by output plus adjustment",
        near(po[0] - qo[0], -o.send + o.adj) && near(qo[1] - po[1], o.adj) && qo[2] == po[2], || {
        format!("out before {:?} after {:?} out {:?}", po, qo, o)
    });
    cx.check("C14", "never takes more than offered", o.recv >= 0 && o.recv <= amt + slack && o.send <= 0 && o.fee >= 0 && o.adj >= 0, || {
        format!("amt {} out {:?}", amt, o)
    });
    let n = rf.segments;
    let mr = pre.rpf.max(s.rpf);
    let ta = tl.amt(rf.max_l, mr, n, rf.recv);
    cx.check("C14", "fee is the fee rate of the input", (ff(o.fee) - fee * ff(o.recv)).abs() <= n as f64 * 4e-12 / (1.0 - fee) + 1e-10 * ff(o.fee).abs() + 4e-12, || {
        format!("fee {} recv {} rate {}", o.fee, o.recv, fee)
    });
    let nz = -o.send;
    cx.check("C14", "fills whole order unless liquidity runs out", if rf.filled { near(o.recv, amt) || (s.liq == 0 && o.recv < amt && ff(amt - o.recv) <= ta / (1.0 - fee)) } else { (ff(o.recv) - rf.recv).abs() <= ta / (1.0 - fee) }, || {
        format!("amt {} recv {} reference recv {} filled {}", amt, o.recv, rf.recv, rf.filled)
    });
    let rep = if o.recv > 0 && (!A::FLOAT || (o.recv > 10_000 && nz > 10_000)) {
        let avg = if from_x { nz as f64 / o.recv as f64 } else { o.recv as f64 / (nz as f64) };
        (ff(o.avg) - avg).abs() <= 2e-12 + avg * (1e-9 + if A::FLOAT { 1.0 / nz.min(o.recv) as f64 } else { 0.0 }) && (ff(o.end) - s.rpf * s.rpf).abs() <= 2e-12 + s.rpf * s.rpf * 1e-11
    } else {
        (o.avg == 0 || A::FLOAT) && (ff(o.end) - s.rpf * s.rpf).abs() <= 2e-12 + s.rpf * s.rpf * 1e-11
    };
    cx.check("C14", "reported average and end price", rep, || format!("{:?} rp {}", o, s.rp));
    // C15: constant product curve
    let to = tl.amt(rf.max_l, mr, n, rf.send) + rf.slop + n as f64 * lntol(c, rf.max_l, if from_x { mr } else { pre.rpf }, from_x);
    let got = ff(nz + o.adj);
    let want = rf.send + rf.adj;
    cx.cov.maxv("curve err/tol", (got - want).abs() / tl.amt(rf.max_l, mr, n, want));
    cx.check("C15", "swap follows the liquidity curve", (got - want).abs() <= tl.amt(rf.max_l, mr, n, want) + rf.slop, || {
        format!("gross output {} reference {} tol {} segs {}", got, want, tl.amt(rf.max_l, mr, n, want), n)
    });
    let etol = s.rpf * 3e-12 * (n as f64 + 2.0) + 4e-12 + if rf.max_l > 0.0 && rf.filled { 4e-12 * mr * mr / rf.max_l.max(1e-12) } else { 0.0 } + rf.rp_unc;
    if rf.border {
        cx.cov.count("swaps ending within rounding of a tick");
    } else {
        cx.cov.maxv("end price err/tol", (s.rpf - rf.rp_end).abs() / etol);
    }
    cx.check("C15", "end price", rf.border || (s.rpf - rf.rp_end).abs() <= etol, || {
        format!("end rp {} reference {} tol {}", s.rpf, rf.rp_end, etol)
    });
    if o.recv > 0 {
        let net = ff(o.recv - o.fee);
        let (p0, p1) = (pre.rpf * pre.rpf, s.rpf * s.rpf);
        // with gaps the trade happens below/above the start price, still bounded by start
        let (best, worst) = if from_x { (net * p0, net * p1) } else { (net / p0, net / p1) };
        cx.check("C15", "execution price between start and end price", ff(nz) <= best + to && got >= worst - to, || {
            format!("net in {} out {} gross {} best {} worst {}", net, ff(nz), got, best, worst)
        });
    }
    // C16
    if cx.on("C16") {
        let wa = rf.adj;
        let tt = tl.amt(rf.max_l, mr, n, wa) + n as f64 * lntol(c, rf.max_l, if from_x { mr } else { pre.rpf }, from_x) + rf.slop;
        cx.cov.maxv("adj err/tol", (ff(o.adj) - wa).abs() / tt);
        cx.check("C16", "adjustment matches the formula", (ff(o.adj) - wa).abs() <= tt, || {
            format!("adj {} reference {} tol {} (c={}, oracle={})", ff(o.adj), wa, tt, c, oracle)
        });
        if !rf.adjusted {
            cx.check("C16", "no adjustment away from the oracle", o.adj == 0, || format!("adj {}", o.adj));
        } else {
            cx.cov.count("adjusted swaps");
            if rf.oracle_inside {
                cx.cov.count("oracle reached inside a segment");
            }
        }
        if rf.adjusted {
            let mut q = before.clone();
            let away = if from_x { pre.rp * 2 } else { if A::FLOAT { 1 } else { 0 } };
            let t = apply(&mut q, &Op::Swap { from_x, amt, oracle: away, hit });
            match t {
                Ok(Some(t)) => {
                    let q = q.snap();
                    let ok = t.recv == o.recv && t.fee == o.fee && q.rp == s.rp && q.tick == s.tick
                        && q.liq == s.liq && near(q.x[0], s.x[0]) && near(q.y[0], s.y[0])
                        && near(-t.send, nz + o.adj) && t.adj == 0;
                    cx.check("C16", "adjustment changes only the split of the output", ok, || {
                        format!("with oracle {:?} rp {} / without {:?} rp {}", o, s.rp, t, q.rp)
                    });
                }
                _ => {}
            }
        }
    }
    if rf.crossed > 0 {
        cx.cov.count("swaps crossing ticks");
    }
    if rf.gaps > 0 {
        cx.cov.count("swaps over liquidity gaps");
    }
    if !rf.filled {
        cx.cov.count("swaps exhausting liquidity");
    }
    if hit {
        cx.cov.count("swaps aimed exactly at a tick");
    }
}

/// C13: what is paid out of the pots at deposit/withdraw time
fn claims<A: Amm>(cx: &mut Ctx, pre: &Snap, s: &Snap, k: Key, acc: &mut HashMap<Key, Acc>, what: &str) {
    let existed = pre.pos.iter().any(|p| (p.0, p.1, p.2) == k);
    let e = if existed { acc.remove(&k).unwrap_or_default() } else { Acc::default() };
    if s.pos.iter().any(|p| (p.0, p.1, p.2) == k) {
        acc.insert(k, Acc::default());
    } else {
        acc.remove(&k);
    }
    if !cx.on("C13") {
        return;
    }
    let paid = [
        ff(pre.x[2] - s.x[2]),
        ff(pre.y[2] - s.y[2]),
        ff(pre.x[1] - s.x[1]),
        ff(pre.y[1] - s.y[1]),
    ];
    let names = ["x fee", "y fee", "x adj", "y adj"];
    for i in 0..4 {
        let fl = if A::FLOAT { 1e-12 * ff(pre.x[2].max(pre.y[2]).max(pre.x[1]).max(pre.y[1]))
            + ff(pre.pos.iter().find(|p| (p.0, p.1, p.2) == k).map(|p| p.3).unwrap_or(0)) * ff(pre.fg[i]) * 4e-15 } else { 0.0 };
        let t = e.tol[i] + 1e-10 + fl;
        if e.owed[i] > 0.0 {
            cx.cov.maxv("claim err/tol", (paid[i] - e.owed[i]).abs() / t);
        }
        let ok = (paid[i] - e.owed[i]).abs() <= t;
        let cl = if existed { "existing position is paid exactly its accrued share" } else { "new position is paid nothing" };
        if e.owed[i] > t * 10.0 {
            cx.cov.count("material claims");
        }
        cx.check("C13", cl, ok, || {
            format!("{} {}: paid {} owed {} tol {} key {:?}", what, names[i], paid[i], e.owed[i], t, k)
        });
    }
}

fn pots<A: Amm>(cx: &mut Ctx, s: &Snap, acc: &HashMap<Key, Acc>) {
    if !cx.on("C13") {
        return;
    }
    let pot = [ff(s.x[2]), ff(s.y[2]), ff(s.x[1]), ff(s.y[1])];
    let mut owed = [0.0; 4];
    let pk = [cx.peak[2], cx.peak[5], cx.peak[1], cx.peak[4]];
    let flt = pk.map(|m| if A::FLOAT { 1e-7 + 1e-14 * m } else { 0.0 });
    let mut tolr = flt.map(|f| 1e-10 + f);
    for a in acc.values() {
        for i in 0..4 {
            owed[i] += a.owed[i];
            tolr[i] += a.tol[i];
        }
    }
    for i in 0..4 {
        cx.check("C13", "pots cover all unclaimed fees", pot[i] >= owed[i] - tolr[i] && pot[i] >= -flt[i], || {
            format!("pot {} = {} but owed {} (tol {})", i, pot[i], owed[i], tolr[i])
        });
    }
}

/// C12: the reserves are what all positions together are worth
fn solvency<A: Amm>(cx: &mut Ctx, s: &Snap, tp: &mut TickPrice) {
    if !cx.on("C12") {
        return;
    }
    let (mut x, mut y, mut l) = (0.0, 0.0, 0.0);
    for p in &s.pos {
        let (ra, rb) = (tp.get(p.1), tp.get(p.2));
        let c = s.rpf.max(ra).min(rb);
        x += ff(p.3) * (rb - c) / (c * rb);
        y += ff(p.3) * (c - ra);
        l += ff(p.3);
    }
    let tl = tol::<A>();
    let n = s.pos.len();
    let dx = cx.dust[0] + tl.amt(l, s.rpf, n, x);
    let dy = cx.dust[1] + tl.amt(l, s.rpf, n, y);
    cx.cov.maxv("reserve vs claims err/dust", ((ff(s.x[0]) - x).abs() / dx).max((ff(s.y[0]) - y).abs() / dy));
    cx.check("C12", "reserves cover what all positions are worth", ff(s.x[0]) >= x - dx && ff(s.y[0]) >= y - dy, || {
        format!("reserves {} {} but positions are worth {} {} (dust {} {})", ff(s.x[0]), ff(s.y[0]), x, y, dx, dy)
    });
    cx.check("C12", "no reserves beyond what the positions are worth", ff(s.x[0]) <= x + dx && ff(s.y[0]) <= y + dy, || {
        format!("reserves {} {} but positions are worth {} {} (dust {} {})", ff(s.x[0]), ff(s.y[0]), x, y, dx, dy)
    });
    let held = s.x.iter().chain(s.y.iter());
    let least = cx.peak.map(|m| if A::FLOAT { -1e-7 - 1e-14 * m } else { 0.0 });
    let fine = held.zip(least).all(|(v, m)| ff(*v) >= m);
    cx.check("C12", "reserves never negative", fine, || {
        format!("{:?} {:?}", s.x, s.y)
    });
}

/// a full withdrawal may be refused only where the reserves are short of it by no more than rounding dust
fn short_by_dust<A: Amm>(cx: &Ctx, s: &Snap, k: Key, l: i128) -> bool {
    let (x, y) = xy_of::<A>(ff(l), s.rpf, k);
    let tl = tol::<A>();
    let t = tl.amt(ff(l), s.rpf, 1, 0.0);
    let short = |want: f64, have: i128, dust: f64| {
        let m = t + tl.rel * want;
        want > ff(have) - m && want <= ff(have) + dust + m
    };
    short(x, s.x[0], cx.dust[0]) || short(y, s.y[0], cx.dust[1])
}

fn liq_of(s: &Snap, k: Key) -> i128 {
    s.pos.iter().find(|p| (p.0, p.1, p.2) == k).map(|p| p.3).unwrap_or(0)
}

fn xy_of<A: Amm>(l: f64, rp: f64, k: Key) -> (f64, f64) {
    let (ra, rb) = (A::rpf_of(k.1), A::rpf_of(k.2));
    let c = rp.max(ra).min(rb);
    (l * (rb - c) / (c * rb), l * (c - ra))
}

/// C19: deposits
fn deposit_checks<A: Amm>(cx: &mut Ctx, _pf: &Profile, pre: &Snap, s: &Snap, k: Key, x: i128, y: i128, tl: &Tol) {
    if !cx.on("C19") {
        return;
    }
    let dl = ff(liq_of(s, k) - liq_of(pre, k));
    let (xin, yin) = (s.x[0] - pre.x[0], s.y[0] - pre.y[0]);
    let fl = if A::FLOAT { 2 + (ff(s.x[0].max(s.y[0])) * 1e-3) as i128 } else { 0 };
    cx.check("C19", "deposit never debits more than offered", xin <= x + fl && yin <= y + fl && xin >= -fl && yin >= -fl, || {
        format!("offered {} {} debited {} {}", x, y, xin, yin)
    });
    let (wx, wy) = xy_of::<A>(dl, pre.rpf, k);
    let t = tl.amt(dl, pre.rpf, 1, wx.max(wy)) + ff(fl);
    cx.check("C19", "debit is the value of the minted liquidity", (ff(xin) - wx).abs() <= t && (ff(yin) - wy).abs() <= t, || {
        format!("debited {} {} for L {} worth {} {} tol {}", ff(xin), ff(yin), dl, wx, wy, t)
    });
    // maximal: at least one offered amount is used up
    let (ux, uy) = xy_of::<A>(1.0, pre.rpf, k);
    let lx = if ux > 0.0 { ff(x) / ux } else { f64::INFINITY };
    let ly = if uy > 0.0 { ff(y) / uy } else { f64::INFINITY };
    let want = lx.min(ly);
    let ul = ux.min(if uy > 0.0 { uy } else { f64::INFINITY }).min(if ux > 0.0 { ux } else { f64::INFINITY });
    let _ = ul;
    let m = if ux > 0.0 && uy > 0.0 { ux.min(uy) } else { ux.max(uy) };
    let tlq = want * 1e-9 + 1e-8 + 2e-11 / m + if A::FLOAT { 1.0 } else { 0.0 } + want * 2e-11 * pre.rpf / (m.min(1.0));
    cx.cov.maxv("deposit liq err/tol", (dl - want).abs() / tlq);
    cx.check("C19", "liquidity is the most the amounts allow", (dl - want).abs() <= tlq, || {
        format!("minted {} expected {} tol {}", dl, want, tlq)
    });
}

fn withdraw_checks<A: Amm>(cx: &mut Ctx, pre: &Snap, s: &Snap, k: Key, l: i128, tl: &Tol) {
    if !cx.on("C19") {
        return;
    }
    let (xo, yo) = (ff(pre.x[0] - s.x[0]), ff(pre.y[0] - s.y[0]));
    let (wx, wy) = xy_of::<A>(ff(l), pre.rpf, k);
    let mut t = tl.amt(ff(l), pre.rpf, 1, wx.max(wy));
    if A::FLOAT {
        t += ff(pre.x[0].max(pre.y[0])) * 1e-12;
    }
    cx.check("C19", "withdrawal pays the value of the burnt liquidity", (xo - wx).abs() <= t && (yo - wy).abs() <= t && xo >= -t && yo >= -t, || {
        format!("paid {} {} for L {} worth {} {} tol {}", xo, yo, ff(l), wx, wy, t)
    });
}

fn roundtrip_lp<A: Amm>(cx: &mut Ctx, before: &A, after: &A, pre: &Snap, s: &Snap, k: Key, tl: &Tol) {
    if !cx.on("C19") {
        return;
    }
    let dl = liq_of(s, k) - liq_of(pre, k);
    let mut q = after.clone();
    let _ = before;
    match apply(&mut q, &Op::Withdraw { u: k.0, lt: k.1, ut: k.2, l: dl }) {
        Ok(_) => {
            let t = q.snap();
            let inx = ff(s.x[0] - pre.x[0]);
            let iny = ff(s.y[0] - pre.y[0]);
            let ox = ff(s.x[0] - t.x[0]);
            let oy = ff(s.y[0] - t.y[0]);
            let fl = if A::FLOAT { 1e-12 * ff(s.x[0].max(s.y[0])) } else { 0.0 };
            let lo = tl.amt(ff(dl), s.rpf, 1, inx.max(iny)) + fl;
            cx.check("C19", "deposit then withdraw never profits", ox <= inx + 1e-15 + fl && oy <= iny + 1e-15 + fl, || {
                format!("in {} {} out {} {}", inx, iny, ox, oy)
            });
            cx.check("C19", "deposit then withdraw loses only rounding", ox >= inx - lo && oy >= iny - lo, || {
                format!("in {} {} out {} {} tol {}", inx, iny, ox, oy, lo)
            });
            let same = t.liq == pre.liq && t.tick == pre.tick && t.rp == pre.rp && t.ticks == pre.ticks;
            cx.check("C19", "deposit then withdraw restores the tables", same, || {
                format!("before {:?} after {:?}", pre.ticks, t.ticks)
            });
        }
        Err(e) => {
            cx.check("C19", "fresh deposit can be withdrawn", false, || format!("rejected: {}", e));
        }
    }
}

/// C20: an LP operation by one user never changes what another position could take out
fn isolation<A: Amm>(cx: &mut Ctx, before: &A, after: &A, pre: &Snap, s: &Snap, k: Key) {
    if !cx.on("C20") {
        return;
    }
    let fl = |s: &Snap| if A::FLOAT { 4 + (ff(s.x[0].max(s.y[0]).max(s.x[1]).max(s.y[1]).max(s.x[2]).max(s.y[2])) * 1e-2) as i128 } else { 0 };
    for p in &pre.pos {
        let kk = (p.0, p.1, p.2);
        if kk == k || p.3 == 0 {
            continue;
        }
        let op = Op::Withdraw { u: p.0, lt: p.1, ut: p.2, l: p.3 };
        let mut a = before.clone();
        let mut b = after.clone();
        let ra = apply(&mut a, &op);
        let rb = apply(&mut b, &op);
        match (ra, rb) {
            (Ok(_), Ok(_)) => {
                let pa = payout(pre, &a.snap());
                let pb = payout(s, &b.snap());
                let tf = fl(pre) + fl(s);
                let ok = (0..6).all(|i| (pa[i] - pb[i]).abs() <= tf);
                cx.check("C20", "other positions' payouts unchanged", ok, || {
                    format!("position {:?} would get {:?} before and {:?} after op on {:?}", kk, pa, pb, k)
                });
            }
            (Ok(_), Err(_)) if short_by_dust::<A>(cx, s, kk, p.3) => {
                cx.cov.count("redemptions short by rounding dust");
            }
            (Ok(_), Err(e)) => {
                cx.check("C20", "other positions still redeemable", false, || {
                    format!("position {:?} redeemable before, after op on {:?}: {}", kk, k, e)
                });
            }
            _ => {}
        }
    }
}

fn exit_all<A: Amm>(cx: &mut Ctx, r: &mut Rng, pool: &A, s: &Snap, _acc: &HashMap<Key, Acc>, tl: &Tol) {
    let mut q = pool.clone();
    let mut live: Vec<_> = s.pos.clone();
    let mut cur = s.clone();
    let mut n = 0;
    while !live.is_empty() {
        let i = r.below(live.len() as u64) as usize;
        let p = live.swap_remove(i);
        let op = Op::Withdraw { u: p.0, lt: p.1, ut: p.2, l: p.3 };
        let b = q.clone();
        match apply(&mut q, &op) {
            Ok(_) => {
                cur = q.snap();
                n += 1;
                cx.check("C12", "every position can be withdrawn in full", true, || String::new());
            }
            Err(e) => {
                q = b;
                let dust = short_by_dust::<A>(cx, &cur, (p.0, p.1, p.2), p.3);
                if dust {
                    cx.cov.count("full exits short by rounding dust");
                }
                cx.check("C12", "every position can be withdrawn in full", dust, || {
                    format!("full withdrawal of {:?} rejected: {} (reserves x {:?} y {:?})", p, e, cur.x, cur.y)
                });
            }
        }
    }
    let _ = (tl, n);
    cx.cov.maxv("left over reserve x", ff(cur.x[0]));
    cx.cov.maxv("left over reserve y", ff(cur.y[0]));
}

fn on_reject<A: Amm>(cx: &mut Ctx, pf: &Profile, pre: &Snap, op: &Op, e: &str, tp: &mut TickPrice) {
    match op {
        Op::Deposit { x, y, .. } => {
            let (x, y) = (*x, *y);
            cx.check("C30", "valid deposit accepted", false, || format!("deposit {} {} rejected: {}", x, y, e));
        }
        Op::Withdraw { u, lt, ut, l } => {
            let dust = short_by_dust::<A>(cx, pre, (*u, *lt, *ut), *l);
            cx.check("C12", "valid withdrawal accepted", dust, || format!("{:?} rejected: {} x {:?} y {:?}", op, e, pre.x, pre.y));
        }
        Op::Swap { from_x, amt, oracle, .. } => {
            let pos: Vec<(i64, i64, f64)> = pre.pos.iter().map(|p| (p.1, p.2, ff(p.3))).collect();
            let rf = swap(*from_x, ff(*amt), ff(*oracle), pre.rpf, pre.tick, &pos, ff(pf.p.fee), ff(pf.p.c), tp);
            let dust = rf.send < 1e-6 * rf.max_l.max(1.0) * 1e-3;
            // an order that takes the last of the reserves may be refused where they are short by dust
            let (have, d) = if *from_x { (pre.y[0], cx.dust[1]) } else { (pre.x[0], cx.dust[0]) };
            let drains = rf.send + rf.adj >= ff(have) - d - tol::<A>().amt(rf.max_l, pre.rpf.max(rf.rp_end), rf.segments + 2, rf.send);
            if drains {
                cx.cov.count("rejected swaps that drain the reserves");
            }
            if rf.noisy {
                cx.cov.count("rejected swaps priced by rounding");
            }
            let ok = dust || drains || rf.noisy || (*from_x && rf.border) || rf.segments == 0;
            cx.check("C30", "valid swap accepted", ok, || format!("{:?} rejected: {} (expected out {} segs {})", op, e, rf.send, rf.segments));
        }
    }
}

fn metamorphic<A: Amm>(cx: &mut Ctx, r: &mut Rng, pf: &Profile, pool: &A, s: &Snap, tl: &Tol) {
    let live: Vec<_> = s.pos.iter().filter(|p| p.3 > 0).collect();
    if live.is_empty() || s.liq == 0 {
        return;
    }
    let lmax: f64 = live.iter().map(|p| ff(p.3)).sum();
    let l = ff(s.liq);
    let from_x = r.chance(0.5);
    let mv = pf.width as f64 * 5e-5 * if r.chance(0.7) { r.logf(0.05, 4.0) } else { r.logf(1e-7, 0.05) };
    let mut a = fx(if from_x { l / s.rpf * mv } else { l * s.rpf * mv });
    // sometimes just up to the next active tick
    let next = if from_x { s.keys.iter().rev().find(|k| A::rpf_of(**k) < s.rpf) } else { s.keys.iter().find(|k| A::rpf_of(**k) > s.rpf) };
    let mut aim = 0.0;
    if let (Some(g), true) = (next, r.chance(0.2)) {
        let g = A::rpf_of(*g);
        aim = g;
        a = fx(if from_x { l * (s.rpf - g) / (s.rpf * g) } else { l * (g - s.rpf) } / (1.0 - ff(pf.p.fee))) + r.range(-3, 3) as i128;
    }
    if a < 1000 {
        return;
    }
    let oracle = if r.chance(0.5) { if A::FLOAT { s.rp } else { 0 } } else { fx(s.rpf * (1.0 + mv * (r.f() * 3.0 - 1.5)).max(0.01)) };
    let k = if r.chance(0.2) { 6 + r.below(10) } else { 2 + r.below(4) } as i128;
    // C17 one order against the same order in k parts
    if cx.on("C17") {
        let mut one = pool.clone();
        if let Ok(Some(o)) = apply(&mut one, &Op::Swap { from_x, amt: a, oracle, hit: false }) {
            let mut many = pool.clone();
            let (mut recv, mut send, mut ok) = (0i128, 0i128, true);
            let w: Vec<f64> = match r.below(4) {
                0 => (0..k).map(|_| 1.0).collect(),
                1 => (0..k).map(|_| 0.05 + r.f()).collect(),
                2 => (0..k).map(|_| r.logf(1e-9, 1.0)).collect(),
                _ => {
                    let (tiny, at) = (r.logf(1e-12, 1e-2), r.below(k as u64) as i128);
                    (0..k).map(|i| if i == at { tiny } else { 1.0 }).collect()
                }
            };
            let sum: f64 = w.iter().sum();
            let mut parts: Vec<i128> = w.iter().map(|v| ((a as f64 * v / sum) as i128).max(1)).collect();
            let big = (0..k as usize).max_by_key(|i| parts[*i]).unwrap();
            parts[big] += a - parts.iter().sum::<i128>();
            for part in parts.iter().cloned() {
                match apply(&mut many, &Op::Swap { from_x, amt: part, oracle, hit: false }) {
                    Ok(Some(q)) => {
                        recv += q.recv;
                        send += q.send;
                    }
                    _ => ok = false,
                }
            }
            if ok {
                let (e1, e2) = (one.snap(), many.snap());
                let mr = s.rpf.max(e1.rpf);
                let t = tl.amt(lmax, mr, 6 * k as usize + s.keys.len(), ff(o.send)) * 3.0 + lntol(ff(pf.p.c), lmax, if from_x { mr } else { s.rpf }, from_x) * (k as f64 + 2.0);
                cx.check("C17", "splitting an order gains nothing", ff(-send) <= ff(-o.send) + t, || {
                    format!("amt {} oracle {} one shot {:?}, parts {:?} recv {} send {} tol {}", a, oracle, o, parts, recv, send, t)
                });
                cx.check("C17", "splitting an order loses nothing", ff(-send) >= ff(-o.send) - t && (ff(recv - o.recv)).abs() <= t, || {
                    format!("amt {} oracle {} one shot {:?}, parts {:?} recv {} send {} tol {}", a, oracle, o, parts, recv, send, t)
                });
                let et = 1e-9 * mr;
                // rounding may decide whether a gap, or next to no liquidity, at the end is traversed
                let (lo, hi) = (e1.rpf.min(e2.rpf), e1.rpf.max(e2.rpf));
                let between: f64 = (s.pos.iter())
                    .map(|p| (A::rpf_of(p.1).max(lo), A::rpf_of(p.2).min(hi), ff(p.3)))
                    .map(|(u, v, l)| l * (v - u).max(0.0) * (1.0f64).max(1.0 / (u * v)))
                    .sum();
                let same = hi - lo <= et && e1.liq == e2.liq || between <= t
                    || aim > 0.0 && (e1.rpf - aim).abs().min((e2.rpf - aim).abs()) <= 1e-6 * aim;
                cx.check("C17", "splitting ends at the same price", same, || {
                    format!("one shot rp {} liq {} / split rp {} liq {}", e1.rpf, e1.liq, e2.rpf, e2.liq)
                });
            }
        }
    }
    // C18 there and back
    if cx.on("C18") {
        let mut q = pool.clone();
        if let Ok(Some(o)) = apply(&mut q, &Op::Swap { from_x, amt: a, oracle, hit: false }) {
            if o.send < 0 {
                let mid = q.snap();
                let o2 = if r.chance(0.5) { oracle } else { fx(s.rpf * (1.0 + mv * (r.f() * 3.0 - 1.5)).max(0.01)) };
                if let Ok(Some(b)) = apply(&mut q, &Op::Swap { from_x: !from_x, amt: -o.send, oracle: o2, hit: false }) {
                    let e = q.snap();
                    let mr = s.rpf.max(mid.rpf);
                    let t = tl.amt(lmax, mr, 8 + s.keys.len(), ff(o.recv)) * 2.0 + 2.0 * (lntol(ff(pf.p.c), lmax, mr, true) + lntol(ff(pf.p.c), lmax, s.rpf.min(mid.rpf), false));
                    // value received back never exceeds value paid
                    cx.check("C18", "round trip never profits", ff(-b.send) <= ff(o.recv) + t, || {
                        format!("paid {} got back {} (mid {:?}) tol {}", o.recv, -b.send, o, t)
                    });
                    if b.recv == -o.send {
                        let f = ff(pf.p.fee);
                        // with a fee the loss is at least about the fee
                        let most = ff(o.recv) * (1.0 - f) + t;
                        cx.check("C18", "round trip pays the fees", ff(-b.send) <= most, || {
                            format!("paid {} got back {} fee {}", o.recv, -b.send, f)
                        });
                    }
                    let _ = e;
                }
            }
        }
    }
}

fn hostile<A: Amm>(cx: &mut Ctx, r: &mut Rng, sp: i64, pool: &A, s: &Snap) {
    let live: Vec<_> = s.pos.iter().filter(|p| p.3 > 0).cloned().collect();
    if live.is_empty() {
        return;
    }
    let p = r.pick(&live).clone();
    let one = if A::FLOAT { ONE } else { 1 };
    let other = (0..USERS.len()).find(|u| !s.pos.iter().any(|q| q.0 == *u && q.1 == p.1 && q.2 == p.2));
    let mut bad: Vec<(&str, Op)> = vec![
        ("withdraw more than the position", Op::Withdraw { u: p.0, lt: p.1, ut: p.2, l: p.3 + one * (1 + r.below(1000) as i128) }),
        ("withdraw one unit more", Op::Withdraw { u: p.0, lt: p.1, ut: p.2, l: p.3 + one }),
        ("withdraw negative", Op::Withdraw { u: p.0, lt: p.1, ut: p.2, l: -one }),
        ("withdraw negative all", Op::Withdraw { u: p.0, lt: p.1, ut: p.2, l: -p.3 }),
        ("deposit negative x", Op::Deposit { u: p.0, lt: p.1, ut: p.2, x: -one, y: ONE, exact: false }),
        ("deposit negative y", Op::Deposit { u: p.0, lt: p.1, ut: p.2, x: ONE, y: -one, exact: false }),
        ("deposit inverted range", Op::Deposit { u: p.0, lt: p.2, ut: p.1, x: ONE, y: ONE, exact: false }),
        ("deposit empty range", Op::Deposit { u: p.0, lt: p.1, ut: p.1, x: ONE, y: ONE, exact: false }),
        ("withdraw inverted range", Op::Withdraw { u: p.0, lt: p.2, ut: p.1, l: one }),
        ("swap zero x", Op::Swap { from_x: true, amt: 0, oracle: s.rp, hit: false }),
        ("swap zero y", Op::Swap { from_x: false, amt: 0, oracle: s.rp, hit: false }),
        ("swap negative x", Op::Swap { from_x: true, amt: -ONE, oracle: s.rp, hit: false }),
        ("swap negative y", Op::Swap { from_x: false, amt: -ONE, oracle: s.rp, hit: false }),
    ];
    if let Some(u) = other {
        bad.push(("withdraw another user's position", Op::Withdraw { u, lt: p.1, ut: p.2, l: p.3 }));
        bad.push(("withdraw a unit of another user's position", Op::Withdraw { u, lt: p.1, ut: p.2, l: one }));
    }
    if !s.pos.iter().any(|q| q.0 == p.0 && q.1 == p.1 && q.2 == p.2 + 10000 * sp) {
        bad.push(("withdraw a range never deposited", Op::Withdraw { u: p.0, lt: p.1, ut: p.2 + 10000 * sp, l: one }));
    }
    for (name, op) in bad {
        let mut q = pool.clone();
        let res = apply(&mut q, &op);
        let n = q.snap();
        let changed = n != *s;
        let ok = res.is_err();
        let _ = changed;
        cx.check("C21", name, ok, || format!("{:?} was accepted; before {:?} after {:?}", op, s, n));
    }
}

/// Fixed history behind the known finding of C12: swaps from X leave the root price rounded down, so the
/// X reserve ends a few units of 1e-12 per unit of liquidity short of the last position's claim.
pub fn dust_exit<A: Amm>(cov: &mut Cov) {
    let p = Params { rp0: 10 * ONE, spacing: 1, c: 0, fee: fx(0.003) };
    let mut q = match attempt(|| A::new(&p)) {
        Ok(q) => q,
        Err(_) => return,
    };
    let t = q.snap().tick;
    let dep = Op::Deposit { u: 0, lt: t - 400, ut: t + 400, x: 1000 * ONE, y: 100_000 * ONE, exact: false };
    if apply(&mut q, &dep).is_err() {
        return;
    }
    for k in 0..12 {
        let a = (3 + k) * ONE;
        if apply(&mut q, &Op::Swap { from_x: true, amt: a, oracle: 0, hit: false }).is_err() {
            return;
        }
    }
    let s = q.snap();
    cov.eval("fixed history of the known finding");
    let l = s.pos[0].3;
    let res = apply(&mut q, &Op::Withdraw { u: 0, lt: t - 400, ut: t + 400, l });
    if let Err(e) = res {
        let (x, _) = xy_of::<A>(ff(l), s.rpf, (0, t - 400, t + 400));
        let short = x - ff(s.x[0]);
        // only the documented shortage, never anything larger, counts as this finding
        if short >= -1e-6 && short <= ff(l) * 1e-10 {
            cov.findings.insert("exit-after-12-x-swaps".into(), format!("the only position cannot be withdrawn in full after 12 swaps from X: the X reserve is {:.3e} short of it ({})", short, e.chars().take(90).collect::<String>()));
        } else {
            cov.fail("C12:fixed history", format!("exit refused: {} short {}", e, short), &[], 0);
        }
    }
}
