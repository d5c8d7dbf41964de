//! C36: what a pool does depends on its price and positions only.
use crate::amm::*;
use crate::hist::{apply, gen_op, gen_profile, mid, Op};
use crate::num::NC;
use crate::util::*;

/// the owners under other names
fn other(p: &[usize; 6], op: &Op) -> Op {
    match op {
        Op::Deposit { u, lt, ut, x, y, exact } => Op::Deposit { u: p[*u], lt: *lt, ut: *ut, x: *x, y: *y, exact: *exact },
        Op::Withdraw { u, lt, ut, l } => Op::Withdraw { u: p[*u], lt: *lt, ut: *ut, l: *l },
        o => o.clone(),
    }
}
fn renamed(p: &[usize; 6], s: &Snap) -> Snap {
    let mut s = s.clone();
    for q in s.pos.iter_mut() {
        q.0 = p[q.0];
    }
    s.pos.sort();
    s
}
fn same_out(a: &Out, b: &Out) -> bool {
    [a.recv, a.send, a.adj, a.fee, a.avg, a.end] == [b.recv, b.send, b.adj, b.fee, b.avg, b.end]
}
fn perm(r: &mut Rng) -> [usize; 6] {
    let mut p = [0, 1, 2, 3, 4, 5];
    for i in (1..6).rev() {
        p.swap(i, r.below(i as u64 + 1) as usize);
    }
    p
}

/// a new pool at the same price with the same positions, made in any order
fn rebuild<A: Amm>(r: &mut Rng, prm: &Params, s: &Snap, names: &[usize; 6]) -> Result<A, &'static str> {
    let k = r.below(6) as usize;
    let mut q = match attempt(|| A::of_tokens(prm, k)) {
        Ok(q) => q,
        Err(_) => return Err("not created"),
    };
    q.place(s);
    let mut todo = s.pos.clone();
    while !todo.is_empty() {
        let (u, lt, ut, l) = todo.swap_remove(r.below(todo.len() as u64) as usize);
        let (u, a, b, p) = (names[u], A::rpf_of(lt), A::rpf_of(ut), s.rpf);
        let lf = ff(l) + if A::FLOAT { 1.5 } else { 0.0 };
        let x = lf * (1.0 / p.max(a).min(b) - 1.0 / b).max(0.0);
        let y = lf * (p.min(b).max(a) - a).max(0.0);
        let slack = 1.0 + 1e-5;
        let (x, y) = (fx(x * slack) + 100_000, fx(y * slack) + 100_000);
        let (ra, rb) = (mid::<A>(lt), mid::<A>(ut));
        if attempt(|| q.deposit(u, x, y, ra, rb)).is_err() {
            return Err("deposit refused");
        }
        let got = match q.snap().pos.iter().find(|z| (z.0, z.1, z.2) == (u, lt, ut)) {
            Some(z) => z.3,
            None => 0,
        };
        if got < l {
            return Err("too little liquidity");
        }
        if got > l && attempt(|| q.withdraw(u, got - l, ra, rb)).is_err() {
            return Err("surplus not withdrawn");
        }
    }
    Ok(q)
}

fn same<A: Amm>(r: &mut Rng, n: &mut NC) {
    let mut pf = gen_profile::<A>(r);
    pf.nops = pf.nops.min(60);
    let names = perm(r);
    let t = tokens(&pf.p) + 1 + r.below(5) as usize;
    let (mut a, mut b) = match (attempt(|| A::new(&pf.p)), attempt(|| A::of_tokens(&pf.p, t))) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return n.ck("names do not decide what is accepted", a.is_err() == b.is_err(), || format!("{} {:?}", A::NAME, pf)),
    };
    let mut log = format!("{} {:?}", A::NAME, pf.p);
    let mut s = a.snap();
    for _ in 0..pf.nops {
        let op = gen_op::<A>(r, &pf, &s);
        log.push_str(&format!(" | {:?}", op));
        let before = (a.clone(), b.clone());
        let (x, y) = (apply(&mut a, &op), apply(&mut b, &other(&names, &op)));
        let ok = match (&x, &y) {
            (Ok(Some(x)), Ok(Some(y))) => same_out(x, y),
            (Ok(None), Ok(None)) | (Err(_), Err(_)) => true,
            _ => false,
        };
        n.ck("the same operation under other names gives the same result", ok, || format!("{}: {:?} and under other names {:?}", log, x, y));
        if x.is_err() || y.is_err() {
            // refused: undone, as on chain
            a = before.0;
            b = before.1;
            continue;
        }
        s = a.snap();
        n.cov.state(hash64(&[s.tick as i128, s.rp, s.liq, s.x[0], s.y[0], s.npos as i128]));
        let (u, v) = (renamed(&names, &s), b.snap());
        n.ck("the same history under other names gives the same state", u == v, || format!("{}: {:?} and under other names {:?}", log, u, v));
        // two owners' deposits can be exchanged
        if r.chance(0.1) {
            let (o, p) = (gen_op::<A>(r, &pf, &s), gen_op::<A>(r, &pf, &s));
            if let (Op::Deposit { u: u1, lt: l1, ut: h1, .. }, Op::Deposit { u: u2, lt: l2, ut: h2, .. }) = (&o, &p) {
                if (u1, l1, h1) != (u2, l2, h2) {
                    let (mut c, mut e) = (a.clone(), a.clone());
                    let k = [apply(&mut c, &o).is_ok(), apply(&mut c, &p).is_ok(), apply(&mut e, &p).is_ok(), apply(&mut e, &o).is_ok()];
                    if k == [true; 4] {
                        let (c, e) = (c.snap(), e.snap());
                        let near = |u: &[i128], v: &[i128]| u.iter().zip(v).all(|(u, v)| (u - v).abs() as f64 <= if A::FLOAT { 2.0 + 1e-14 * *u.max(v) as f64 } else { 0.0 });
                        let eq = c.pos == e.pos && c.ticks == e.ticks && c.liq == e.liq && c.tick == e.tick && c.rp == e.rp && c.fg == e.fg && near(&c.x, &e.x) && near(&c.y, &e.y);
                        n.ck("deposits of different positions can be exchanged", eq, || format!("{}: then {:?} and {:?} give {:?}, the other way round {:?}", log, o, p, c, e));
                    } else {
                        n.cov.count("one of two deposits refused");
                    }
                }
            }
        }
        if r.chance(0.15) {
            tail(r, n, &pf.p, &a, &names, &log);
        }
    }
}

/// the pool against a new one with its price and positions
fn tail<A: Amm>(r: &mut Rng, n: &mut NC, prm: &Params, a: &A, names: &[usize; 6], log: &str) {
    let s = a.snap();
    if A::FLOAT && s.pos.iter().any(|q| q.3 % ONE != 0) {
        return n.cov.count("position not of whole liquidity");
    }
    let mut q = match rebuild::<A>(r, prm, &s, names) {
        Ok(q) => q,
        Err(e) => return n.cov.count(&format!("not rebuilt: {}", e)),
    };
    let (u, v) = (renamed(names, &s), q.snap());
    let eq = u.pos == v.pos && u.ticks == v.ticks && u.keys == v.keys && u.liq == v.liq && u.tick == v.tick && u.rp == v.rp && u.npos == v.npos;
    n.ck("the same positions at the same price make the same pool", eq, || format!("{}: {:?} and rebuilt {:?}", log, u, v));
    let mut p = a.clone();
    let mut log = log.to_string();
    let (s0, q0) = (p.snap(), q.snap());
    // doubles lose what the reserves were largest with
    let mut big = 0.0f64;
    for _ in 0..1 + r.below(4) {
        let s = p.snap();
        let vol = if r.chance(0.5) { s.x[0].max(s.y[0]) as f64 } else { s.liq.max(ONE) as f64 / 1000.0 };
        let amt = (vol * r.logf(1e-4, 3.0)) as i128 + 1000;
        let oracle = if r.chance(0.4) { 0 } else { fx(s.rpf * (1.0 + (r.f() - 0.5) * *r.pick(&[0.001, 0.05, 0.6]))) };
        let op = Op::Swap { from_x: r.chance(0.5), amt, oracle, hit: false };
        log.push_str(&format!(" | {:?}", op));
        let (x, y) = (apply(&mut p, &op), apply(&mut q, &op));
        match (&x, &y) {
            (Ok(Some(x)), Ok(Some(y))) => n.ck("a pool rebuilt from its positions trades the same", same_out(x, y), || format!("{}: {:?} and rebuilt {:?}", log, x, y)),
            (Err(_), Err(_)) => return,
            _ => return n.cov.count("refused by one of the two"),
        }
        let (u, v) = (renamed(names, &p.snap()), q.snap());
        let eq = u.pos == v.pos && u.ticks == v.ticks && u.liq == v.liq && u.tick == v.tick && u.rp == v.rp;
        n.ck("a pool rebuilt from its positions goes the same way", eq, || format!("{}: {:?} and rebuilt {:?}", log, u, v));
        for v in s0.x.iter().chain(&s0.y).chain(&u.x).chain(&u.y).chain(&v.x).chain(&v.y) {
            big = big.max(v.abs() as f64 + amt as f64);
        }
        let near = |a: &[i128], b: &[i128], c: &[i128], d: &[i128]| (0..a.len()).all(|i| ((a[i] - b[i]) - (c[i] - d[i])).abs() as f64 <= if A::FLOAT { 100.0 + 1e-12 * big } else { 0.0 });
        let eq = near(&u.x, &s0.x, &v.x, &q0.x) && near(&u.y, &s0.y, &v.y, &q0.y) && (A::FLOAT || near(&u.fg, &s0.fg, &v.fg, &q0.fg));
        n.ck("a pool rebuilt from its positions takes and gives the same", eq, || format!("{}: {:?} {:?} and rebuilt {:?} {:?}", log, s0, u, q0, v));
    }
}

pub fn c36(r: &mut Rng, n: &mut NC) {
    if r.chance(0.75) {
        same::<Dec>(r, n)
    } else {
        same::<Flo>(r, n)
    }
}
