//! Uniform view of the two in-memory pools (Decimal and f64) for the monitors.
//! All quantities are exposed as i128 in units of 1e-12.
use crate::util::*;
use hmmcl_sandbox::cl_pool as dp;
use hmmcl_sandbox::cl_pool::PoolMath as _;
use hmmcl_sandbox::cl_pool_float as fp;
use hmmcl_sandbox::cl_pool_float::PoolMath as _;
use hmmcl_sandbox::decimal::Decimal;

pub fn d(v: i128) -> Decimal {
    Decimal::new(v.unsigned_abs(), 12, v < 0)
}
pub fn und(v: Decimal) -> i128 {
    let v = if v.scale == 12 { v } else { v.to_compute_scale() };
    if v.negative {
        -(v.value as i128)
    } else {
        v.value as i128
    }
}

#[derive(Clone, Debug)]
pub struct Out {
    pub recv: i128,
    pub send: i128, // as reported (<= 0)
    pub adj: i128,
    pub fee: i128,
    pub avg: i128,
    pub end: i128,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub x: [i128; 3], // reserve, adj pot, fee pot
    pub y: [i128; 3],
    pub liq: i128,
    pub tick: i64,
    pub rp: i128,
    pub rpf: f64,
    pub fg: [i128; 4],
    pub pos: Vec<(usize, i64, i64, i128)>, // sorted
    pub ticks: Vec<(i64, i128, i128)>,
    pub npos: usize,
    pub ntick: usize,
    pub keys: Vec<i64>,
}

/// owners that are told apart only by their whole names
pub const USERS: [&str; 6] = ["u0", "u1", "U0", "u0 ", "", "u1u0"];
/// tokens of a pool: nothing but a label, whatever their names and decimals
const TOKENS: [(&str, u8, &str, u8); 6] = [("X", 9, "Y", 6), ("Y", 6, "X", 9), ("SOL", 9, "USDC", 6), ("A", 0, "A", 0), ("", 12, "B", 0), ("BTC", 6, "ETH", 9)];
pub fn tokens(p: &Params) -> usize {
    (p.rp0 / 7).rem_euclid(TOKENS.len() as i128) as usize
}
fn uid(s: &str) -> usize {
    USERS.iter().position(|u| *u == s).unwrap_or(99)
}

#[derive(Clone, Debug)]
pub struct Params {
    pub rp0: i128, // requested bootstrap root price
    pub spacing: i64,
    pub c: i128,
    pub fee: i128,
}

pub trait Amm: Clone {
    const NAME: &'static str;
    const FLOAT: bool;
    fn new(p: &Params) -> Self {
        Self::of_tokens(p, tokens(p))
    }
    fn of_tokens(p: &Params, k: usize) -> Self;
    /// put a pool without positions at a price
    fn place(&mut self, s: &Snap);
    fn deposit(&mut self, u: usize, x: i128, y: i128, rpa: i128, rpb: i128);
    fn withdraw(&mut self, u: usize, l: i128, rpa: i128, rpb: i128);
    fn swap_x(&mut self, a: i128, o: i128) -> Out;
    fn swap_y(&mut self, a: i128, o: i128) -> Out;
    fn snap(&self) -> Snap;
    fn rp_of(t: i64) -> i128;
    fn rpf_of(t: i64) -> f64;
}

#[derive(Clone)]
pub struct Dec(pub dp::Pool<'static>);
impl Amm for Dec {
    const NAME: &'static str = "decimal";
    const FLOAT: bool = false;
    fn of_tokens(p: &Params, k: usize) -> Self {
        let k = TOKENS[k % TOKENS.len()];
        Dec(dp::Pool::new(
            k.0,
            k.1,
            k.2,
            k.3,
            d(p.rp0),
            p.spacing as u128,
            d(p.c),
            d(p.fee),
        ))
    }
    fn place(&mut self, s: &Snap) {
        self.0.set_glbl_tick(s.tick as u128);
        self.0.set_glbl_rp(d(s.rp));
    }
    fn deposit(&mut self, u: usize, x: i128, y: i128, rpa: i128, rpb: i128) {
        self.0.deposit(USERS[u], d(x), d(y), d(rpa), d(rpb))
    }
    fn withdraw(&mut self, u: usize, l: i128, rpa: i128, rpb: i128) {
        self.0.withdraw(USERS[u], d(l), d(rpa), d(rpb))
    }
    fn swap_x(&mut self, a: i128, o: i128) -> Out {
        conv(self.0.execute_swap_from_x(d(a), d(o)))
    }
    fn swap_y(&mut self, a: i128, o: i128) -> Out {
        conv(self.0.execute_swap_from_y(d(a), d(o)))
    }
    fn snap(&self) -> Snap {
        let p = &self.0;
        let t3 = |t: (Decimal, Decimal, Decimal)| [und(t.0), und(t.1), und(t.2)];
        let fg = p.glbl_fees();
        let mut pos: Vec<_> = p
            .verif_positions()
            .into_iter()
            .map(|(u, a, b, l)| (uid(u), a as i64, b as i64, und(l)))
            .collect();
        pos.sort();
        let mut ticks: Vec<_> = p
            .verif_ticks()
            .into_iter()
            .map(|(t, n, g)| (t as i64, und(n), und(g)))
            .collect();
        ticks.sort();
        let rp = und(p.glbl_rp());
        Snap {
            x: t3(p.x_info()),
            y: t3(p.y_info()),
            liq: und(p.glbl_liq()),
            tick: p.glbl_tick() as i64,
            rp,
            rpf: ff(rp),
            fg: [und(fg.0), und(fg.1), und(fg.2), und(fg.3)],
            pos,
            ticks,
            npos: p.position_count(),
            ntick: p.tick_count(),
            keys: p.tick_keys_cloned(false).into_iter().map(|t| t as i64).collect(),
        }
    }
    fn rp_of(t: i64) -> i128 {
        und(dp::Pool::tick_to_rp(t as u128))
    }
    fn rpf_of(t: i64) -> f64 {
        ff(Self::rp_of(t))
    }
}
fn conv(o: dp::SwapOutput) -> Out {
    Out {
        recv: und(o.recv_amount()),
        send: und(o.send_amount()),
        adj: und(o.send_hmm_adj()),
        fee: und(o.recv_fee()),
        avg: und(o.avg_price()),
        end: und(o.end_price()),
    }
}

#[derive(Clone)]
pub struct Flo(pub fp::Pool<'static>);
fn convf(o: fp::SwapOutput) -> Out {
    Out {
        recv: fx(o.recv_amount()),
        send: fx(o.send_amount()),
        adj: fx(o.send_hmm_adj()),
        fee: fx(o.recv_fee()),
        avg: fx(o.avg_price()),
        end: fx(o.end_price()),
    }
}
impl Amm for Flo {
    const NAME: &'static str = "float";
    const FLOAT: bool = true;
    fn of_tokens(p: &Params, k: usize) -> Self {
        let k = TOKENS[k % TOKENS.len()];
        Flo(fp::Pool::new(
            k.0,
            k.1,
            k.2,
            k.3,
            ff(p.rp0),
            p.spacing as u32,
            ff(p.c),
            ff(p.fee),
        ))
    }
    fn place(&mut self, s: &Snap) {
        self.0.set_glbl_tick(s.tick as u32);
        self.0.set_glbl_rp(s.rpf);
    }
    fn deposit(&mut self, u: usize, x: i128, y: i128, rpa: i128, rpb: i128) {
        self.0.deposit(USERS[u], ff(x), ff(y), ff(rpa), ff(rpb))
    }
    fn withdraw(&mut self, u: usize, l: i128, rpa: i128, rpb: i128) {
        self.0.withdraw(USERS[u], ff(l), ff(rpa), ff(rpb))
    }
    fn swap_x(&mut self, a: i128, o: i128) -> Out {
        convf(self.0.execute_swap_from_x(ff(a), ff(o)))
    }
    fn swap_y(&mut self, a: i128, o: i128) -> Out {
        convf(self.0.execute_swap_from_y(ff(a), ff(o)))
    }
    fn snap(&self) -> Snap {
        let p = &self.0;
        let t3 = |t: (f64, f64, f64)| [fx(t.0), fx(t.1), fx(t.2)];
        let fg = p.glbl_fees();
        let mut pos: Vec<_> = p
            .verif_positions()
            .into_iter()
            .map(|(u, a, b, l)| (uid(u), a as i64, b as i64, fx(l)))
            .collect();
        pos.sort();
        let mut ticks: Vec<_> = p
            .verif_ticks()
            .into_iter()
            .map(|(t, n, g)| (t as i64, fx(n), fx(g)))
            .collect();
        ticks.sort();
        Snap {
            x: t3(p.x_info()),
            y: t3(p.y_info()),
            liq: fx(p.glbl_liq()),
            tick: p.glbl_tick() as i64,
            rp: fx(p.glbl_rp()),
            rpf: p.glbl_rp(),
            fg: [fx(fg.0), fx(fg.1), fx(fg.2), fx(fg.3)],
            pos,
            ticks,
            npos: p.position_count(),
            ntick: p.tick_count(),
            keys: p.tick_keys_cloned(false).into_iter().map(|t| t as i64).collect(),
        }
    }
    fn rp_of(t: i64) -> i128 {
        fx(fp::Pool::tick_to_rp(t as u32))
    }
    fn rpf_of(t: i64) -> f64 {
        fp::Pool::tick_to_rp(t as u32)
    }
}
