//! Independent reference of the concentrated-liquidity swap, in f64, working
//! directly from the list of positions (no tick table, no fee-growth accounting).
use std::collections::HashMap;

pub struct RefSwap {
    pub recv: f64,
    pub send: f64, // positive, net of the HMM adjustment
    pub adj: f64,
    pub fee: f64,
    pub rp_end: f64,
    pub segments: usize,
    pub crossed: usize,
    pub gaps: usize,
    pub filled: bool,
    pub max_l: f64,
    pub min_l: f64,
    /// per position index: (fee in input token, adj in output token)
    pub share: Vec<(f64, f64)>,
    pub oracle_inside: bool,
    pub adjusted: bool,
    /// a segment ends within rounding of its goal tick: whether it crosses is not determined
    pub border: bool,
    /// output that is undetermined because of such a border
    pub slop: f64,
    /// uncertainty of the end price: rounding of the segments before the last, spent in the last one
    pub rp_unc: f64,
    /// in some segment rounding decides whether the average price beats the starting price
    pub noisy: bool,
    /// smallest distance (relative to rp) between a segment end and a tick price that is not equal
    pub tick_lo: i64, // tick bucket after the swap, by crossing convention (lower bound on active ranges)
}

pub struct TickPrice<'a> {
    pub f: &'a dyn Fn(i64) -> f64,
    pub cache: HashMap<i64, f64>,
}
impl<'a> TickPrice<'a> {
    pub fn new(f: &'a dyn Fn(i64) -> f64) -> Self {
        TickPrice {
            f,
            cache: HashMap::new(),
        }
    }
    pub fn get(&mut self, t: i64) -> f64 {
        let f = self.f;
        *self.cache.entry(t).or_insert_with(|| f(t))
    }
}

/// amount of output token given for the price move a -> b, under HMM with exponent c and oracle o
pub fn hmm_out(l: f64, a: f64, b: f64, c: f64, o: f64, from_x: bool) -> f64 {
    if from_x {
        // dy = l o^c (b^(1-c) - a^(1-c)) / (1-c)   (<= 0)
        let v = if c == 1.0 {
            l * o * (b / a).ln()
        } else {
            l * o.powf(c) * (b.powf(1.0 - c) - a.powf(1.0 - c)) / (1.0 - c)
        };
        -v
    } else {
        // dx = l o^-c (b^(c-1) - a^(c-1)) / (1-c)   (<= 0)
        let v = if c == 1.0 {
            l / o * (a / b).ln()
        } else {
            l / o.powf(c) * (b.powf(c - 1.0) - a.powf(c - 1.0)) / (1.0 - c)
        };
        -v
    }
}
pub fn cpmm_out(l: f64, a: f64, b: f64, from_x: bool) -> f64 {
    if from_x {
        l * (a - b)
    } else {
        l * (b - a) / (a * b)
    }
}

/// positions: (lower, upper, liq)
pub fn swap(
    from_x: bool,
    amount: f64,
    oracle: f64,
    rp0: f64,
    tick0: i64,
    pos: &[(i64, i64, f64)],
    fee_rate: f64,
    c: f64,
    tp: &mut TickPrice,
) -> RefSwap {
    let mut bounds: Vec<i64> = vec![];
    for p in pos {
        if p.2 > 0.0 {
            bounds.push(p.0);
            bounds.push(p.1);
        }
    }
    bounds.sort();
    bounds.dedup();
    let mut r = RefSwap {
        recv: 0.0,
        send: 0.0,
        adj: 0.0,
        fee: 0.0,
        rp_end: rp0,
        segments: 0,
        crossed: 0,
        gaps: 0,
        filled: false,
        max_l: 0.0,
        min_l: f64::INFINITY,
        share: vec![(0.0, 0.0); pos.len()],
        oracle_inside: false,
        adjusted: false,
        border: false,
        rp_unc: 0.0,
        slop: 0.0,
        noisy: false,
        tick_lo: tick0,
    };
    let mut rem = amount;
    let mut unc = 0.0;
    let mut tick = tick0;
    let mut rp = rp0;
    loop {
        let l: f64 = pos
            .iter()
            .filter(|p| p.0 <= tick && tick < p.1)
            .map(|p| p.2)
            .sum();
        let next = if from_x {
            bounds.iter().rev().find(|b| **b <= tick).copied()
        } else {
            bounds.iter().find(|b| **b > tick).copied()
        };
        let goal = match next {
            None => break,
            Some(g) => g,
        };
        if l <= 0.0 {
            rp = tp.get(goal);
            tick = if from_x { goal - 1 } else { goal };
            r.gaps += 1;
            continue;
        }
        if l > r.max_l {
            r.max_l = l;
        }
        r.segments += 1;
        r.min_l = r.min_l.min(l);
        let rg = tp.get(goal);
        let doable = if from_x {
            l * (rp - rg) / (rp * rg)
        } else {
            l * (rg - rp)
        };
        let avail = rem * (1.0 - fee_rate);
        let amb = (r.segments as f64 + 2.0) * (l * 2e-11 + l * rp * 5e-14 + 1e-11) + 1e-10 * avail;
        if (doable - avail).abs() <= amb {
            r.border = true;
            // whether the swap enters the next range is undetermined, and so is the rounding there
            // (past a gap, if there is one)
            let mut g2 = goal;
            let l2 = loop {
                let t2 = if from_x { g2 - 1 } else { g2 };
                let l2: f64 = pos.iter().filter(|p| p.0 <= t2 && t2 < p.1).map(|p| p.2).sum();
                let far = if from_x { bounds.iter().rev().find(|b| **b <= t2) } else { bounds.iter().find(|b| **b > t2) };
                match far {
                    Some(b) if l2 <= 0.0 => g2 = *b,
                    _ => break l2,
                }
            };
            if l2 > r.max_l {
                r.max_l = l2;
            }
            if l2 > 0.0 {
                r.min_l = r.min_l.min(l2);
            }
            r.slop += if from_x { amb * rp * rp } else { amb / (rp * rp) };
        }
        let (done, fee, end, cross);
        if doable < avail {
            done = doable;
            fee = done / (1.0 - fee_rate) * fee_rate;
            end = rg;
            cross = true;
        } else {
            done = avail;
            fee = rem - avail;
            end = if from_x {
                l * rp / (done * rp + l)
            } else {
                rp + done / l
            };
            cross = false;
        }
        let full = cpmm_out(l, rp, end, from_x);
        let away = c == 0.0
            || oracle == 0.0
            || (if from_x { oracle >= rp } else { oracle <= rp });
        let out = if away {
            full
        } else if (from_x && oracle >= end) || (!from_x && oracle <= end) {
            r.oracle_inside = true;
            r.adjusted = true;
            hmm_out(l, rp, oracle, c, oracle, from_x) + cpmm_out(l, oracle, end, from_x)
        } else {
            r.adjusted = true;
            hmm_out(l, rp, end, c, oracle, from_x)
        };
        let adj = full - out;
        let r_adj = !away;
        if from_x && (out + if r_adj { lntol(c, l, rp, true) } else { 0.0 } + 4e-12 * l + 4e-12 * (1.0 + rp * rp)) * (1.0 + 1e-11) >= (done + fee) * rp * rp {
            r.noisy = true;
        }
        r.recv += done + fee;
        r.fee += fee;
        r.send += out;
        r.adj += adj;
        for (i, p) in pos.iter().enumerate() {
            if p.0 <= tick && tick < p.1 && p.2 > 0.0 {
                r.share[i].0 += fee * p.2 / l;
                r.share[i].1 += adj * p.2 / l;
            }
        }
        rp = end;
        rem -= done + fee;
        if cross {
            unc += (l * (1.0 + rp) * 4e-16 + done * 4e-12 + 4e-12) / (1.0 - fee_rate);
            r.crossed += 1;
            tick = if from_x { goal - 1 } else { goal };
        } else {
            r.rp_unc = unc / l * if from_x { rp * rp } else { 1.0 };
            r.filled = true;
            break;
        }
    }
    r.rp_end = rp;
    r.tick_lo = tick;
    r
}

/// output uncertainty of the HMM formulas: c = 1 uses natural logs that are good to about 1.4e-10 each,
/// c > 1 a difference of powers, each good to a few 1e-12, scaled by oracle^c / (c - 1)
pub fn lntol(c: f64, l: f64, rp: f64, from_x: bool) -> f64 {
    if c == 1.0 {
        (if from_x { l * rp } else { l / rp }) * 2.0e-10
    } else if c > 1.0 {
        (if from_x { l * rp.powf(c) } else { l / rp.powf(c) }) * 1.0e-11 / (c - 1.0)
    } else {
        0.0
    }
}

