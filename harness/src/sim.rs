//! C24-C28: the on-chain program, instruction by instruction, in the runtime of chain.rs.
use crate::big::Big;
use crate::chain::*;
use crate::util::*;
use anchor_lang::{AccountDeserialize, Discriminator, InstructionData, ToAccountMetas};
use hmmcl_sandbox::accounts as ac;
use hmmcl_sandbox::cl_pool as dp;
use hmmcl_sandbox::cl_pool::PoolMath as DM;
use hmmcl_sandbox::constants::*;
use hmmcl_sandbox::instruction as ix;
use hmmcl_sandbox::state::pool_state::PoolState;
use hmmcl_sandbox::state::position_state::PositionState;
use hmmcl_sandbox::state::tick_bitmap::PoolTickBitmap;
use hmmcl_sandbox::state::tick_state::TickState;
use solana_program::instruction::AccountMeta;
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};
use std::collections::BTreeMap;

const ID: Pubkey = hmmcl_sandbox::ID;

pub struct S<'a> {
    pub prop: &'static str,
    pub cov: &'a mut Cov,
    pub scenario: u64,
    pub trace: Vec<String>,
}
impl<'a> S<'a> {
    fn ck(&mut self, prop: &str, class: &str, ok: bool, what: impl FnOnce() -> String) {
        if self.prop != prop && self.prop != "prog" {
            return;
        }
        self.cov.eval(class);
        if !ok {
            let w = what();
            let t = self.trace.clone();
            self.cov.fail(&format!("{}:{}", prop, class), w, &t, self.scenario);
        }
    }
    fn on(&self, prop: &str) -> bool {
        self.prop == prop || self.prop == "prog"
    }
    fn log(&mut self, s: String) {
        self.trace.push(s);
    }
}

fn key(r: &mut Rng) -> Pubkey {
    let mut b = [0u8; 32];
    for c in b.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    Pubkey::new_from_array(b)
}
fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &ID).0
}
fn bump(seeds: &[&[u8]]) -> u8 {
    Pubkey::find_program_address(seeds, &ID).1
}

#[derive(Clone)]
struct PoolK {
    name: &'static str,
    state: Pubkey,
    lp: Pubkey,
    xm: Pubkey,
    ym: Pubkey,
    xv: Pubkey,
    yv: Pubkey,
    lpv: Pubkey,
    bitmap: Pubkey,
    authority: Pubkey,
    tick: u64,
    ticks: Vec<u64>,
}
impl PoolK {
    fn new(name: &'static str, xm: Pubkey, ym: Pubkey, lp: Pubkey, authority: Pubkey, tick: u64) -> PoolK {
        let state = pda(&[POOL_STATE_SEED, lp.as_ref()]);
        PoolK {
            name,
            state,
            lp,
            xm,
            ym,
            xv: pda(&[TOKEN_VAULT_SEED, xm.as_ref(), lp.as_ref()]),
            yv: pda(&[TOKEN_VAULT_SEED, ym.as_ref(), lp.as_ref()]),
            lpv: pda(&[LP_TOKEN_VAULT_SEED, state.as_ref(), lp.as_ref()]),
            bitmap: pda(&[b"bitmap", state.as_ref()]),
            authority,
            tick,
            ticks: vec![],
        }
    }
    fn tick_key(&self, t: u64) -> Pubkey {
        pda(&[b"tick", self.state.as_ref(), &t.to_le_bytes()])
    }
    fn pos_key(&self, user: &Pubkey, l: u64, u: u64) -> Pubkey {
        pda(&[b"position", self.state.as_ref(), user.as_ref(), &l.to_le_bytes(), &u.to_le_bytes()])
    }
}

/// token accounts of a user, by mint
#[derive(Clone)]
struct User {
    name: &'static str,
    key: Pubkey,
    tok: BTreeMap<Pubkey, Pubkey>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Pos {
    pool: usize,
    user: usize,
    l: u64,
    u: u64,
}

#[derive(Clone)]
struct Env {
    w: World,
    pools: Vec<PoolK>,
    users: Vec<User>,
    payer: Pubkey,
    positions: BTreeMap<Pubkey, Pos>,
    ticks: BTreeMap<Pubkey, (usize, u64)>,
    /// accounts an attacker prepared, and other accounts lying around
    forged: Vec<Pubkey>,
    /// C34: fee growth of each pool: at which tick, and how much of fees in X, Y and adjustments in X, Y
    growth: Vec<Vec<(u64, [u128; 4])>>,
}

fn de<T: AccountDeserialize>(w: &World, k: &Pubkey) -> Option<T> {
    let a = w.accs.get(k)?;
    if a.owner != ID {
        return None;
    }
    T::try_deserialize(&mut &a.data[..]).ok()
}
fn bitmap_of(w: &World, k: &Pubkey) -> Option<(Vec<u8>, u8)> {
    let a = w.accs.get(k)?;
    if a.owner != ID || a.data.len() < 8 + TICK_BYTES + 1 || a.data[..8] != PoolTickBitmap::discriminator() {
        return None;
    }
    Some((a.data[8..8 + TICK_BYTES].to_vec(), a.data[8 + TICK_BYTES]))
}
const TICK_BYTES: usize = hmmcl_sandbox::state::tick_bitmap::TICK_BITMAP_SIZE;

/// a fixed point number of the chain state, in units of 1e-12
fn fixed(v: u128, scale: u8) -> i128 {
    if scale <= 12 {
        (v * 10u128.pow(12 - scale as u32)) as i128
    } else {
        (v / 10u128.pow(scale as u32 - 12)) as i128
    }
}
fn rp(t: u64) -> i128 {
    crate::amm::und(<dp::Pool<'static> as DM>::tick_to_rp(t as u128))
}

/// what liquidity (1e-12) in [l, u] is worth at tick t: exact, rounded down to 1e-12
fn worth(liq: i128, t: u64, l: u64, u: u64) -> (i128, i128) {
    let (p, a, b) = (rp(t), rp(l), rp(u));
    let q = p.max(a).min(b);
    let big = |v: i128| Big::from(v as u128);
    let x = big(liq).mul(&big(b - q)).mul(&big(ONE)).div_floor(&big(q).mul(&big(b)));
    let y = big(liq).mul(&big(q - a)).div_floor(&big(ONE));
    (x.to_u128().unwrap_or(0) as i128, y.to_u128().unwrap_or(0) as i128)
}
/// the most liquidity (1e-12) that x and y whole tokens support in [l, u] at tick t
fn most(x: u64, y: u64, t: u64, l: u64, u: u64) -> i128 {
    let (p, a, b) = (rp(t), rp(l), rp(u));
    let q = p.max(a).min(b);
    let big = |v: i128| Big::from(v as u128);
    let lx = || big(x as i128 * ONE).mul(&big(q)).mul(&big(b)).div_floor(&big(b - q).mul(&big(ONE))).to_u128().unwrap_or(u128::MAX >> 2) as i128;
    let ly = || big(y as i128 * ONE).mul(&big(ONE)).div_floor(&big(q - a)).to_u128().unwrap_or(u128::MAX >> 2) as i128;
    if p <= a {
        lx()
    } else if p >= b {
        ly()
    } else {
        lx().min(ly())
    }
}

impl Env {
    fn dep(&self, p: usize, u: usize, l: u64, up: u64) -> ac::Deposit {
        let (pk, us) = (&self.pools[p], &self.users[u]);
        ac::Deposit {
            pool_state: pk.state,
            tick_bitmap: pk.bitmap,
            position_state: pk.pos_key(&us.key, l, up),
            lower_tick_state: pk.tick_key(l),
            upper_tick_state: pk.tick_key(up),
            current_tick_state: pk.tick_key(pk.tick),
            lp_token_mint: pk.lp,
            user_token_x: us.tok[&pk.xm],
            user_token_y: us.tok[&pk.ym],
            token_x_vault: pk.xv,
            token_y_vault: pk.yv,
            lp_token_vault: pk.lpv,
            lp_token_to: us.tok[&pk.lp],
            token_program: spl_token::ID,
            user: us.key,
            payer: self.payer,
        }
    }
    fn wd(&self, p: usize, u: usize, l: u64, up: u64) -> ac::Withdraw {
        let (pk, us) = (&self.pools[p], &self.users[u]);
        ac::Withdraw {
            pool_state: pk.state,
            tick_bitmap: pk.bitmap,
            position_state: pk.pos_key(&us.key, l, up),
            lower_tick_state: pk.tick_key(l),
            upper_tick_state: pk.tick_key(up),
            current_tick_state: pk.tick_key(pk.tick),
            lp_token_mint: pk.lp,
            user_token_x: us.tok[&pk.xm],
            user_token_y: us.tok[&pk.ym],
            token_x_vault: pk.xv,
            token_y_vault: pk.yv,
            lp_token_vault: pk.lpv,
            lp_token_user_account: us.tok[&pk.lp],
            token_program: spl_token::ID,
            user: us.key,
            payer: self.payer,
        }
    }
    fn crp(&self, p: usize, u: usize, l: u64, up: u64) -> ac::CreatePosition {
        let (pk, us) = (&self.pools[p], &self.users[u]);
        ac::CreatePosition {
            pool_state: pk.state,
            position_state: pk.pos_key(&us.key, l, up),
            lower_tick_state: pk.tick_key(l),
            upper_tick_state: pk.tick_key(up),
            user: us.key,
            payer: self.payer,
            system_program: system_program::ID,
        }
    }
    fn init(&self, pk: &PoolK) -> ac::InitializePool {
        ac::InitializePool {
            authority: pk.authority,
            payer: self.payer,
            pool_state: pk.state,
            token_x_mint: pk.xm,
            token_y_mint: pk.ym,
            lp_token_mint: pk.lp,
            token_x_vault: pk.xv,
            token_y_vault: pk.yv,
            lp_token_vault: pk.lpv,
            system_program: system_program::ID,
            token_program: spl_token::ID,
            rent: sysvar::rent::ID,
        }
    }
    fn liq(&self, k: &Pubkey) -> i128 {
        liq_in(&self.w, k)
    }
}
fn liq_in(w: &World, k: &Pubkey) -> i128 {
    de::<PositionState>(w, k).map(|p| fixed(p.liquidity, p.liq_scale)).unwrap_or(0)
}

fn events(ev: &[Vec<u8>], disc: [u8; 8]) -> Vec<Vec<u64>> {
    ev.iter().filter(|e| e.len() >= 8 && e[..8] == disc).map(|e| e[8..].chunks(8).filter(|c| c.len() == 8).map(|c| {
        let mut b = [0u8; 8];
        b.copy_from_slice(c);
        u64::from_le_bytes(b)
    }).collect()).collect()
}

/// Token balances and records after any successful instruction: whoever signed, whatever accounts were named.
fn judge(s: &mut S, e: &Env, before: &World, signers: &[Pubkey], what: &str) {
    let w = &e.w;
    let mut touched: Vec<Pubkey> = vec![];
    for (k, a) in &w.accs {
        match before.accs.get(k) {
            Some(b) if b == a => {}
            _ => touched.push(*k),
        }
    }
    // tokens: only signers' own accounts and vaults are debited
    for k in &touched {
        if let (Some(b), Some(a)) = (before.token(k), w.token(k)) {
            let vault = e.pools.iter().any(|p| p.xv == *k || p.yv == *k);
            if a.amount < b.amount && !vault {
                s.ck("C25", "tokens leave an account only with its owner's signature", signers.contains(&b.owner), || format!("{}: account {} of {} lost {}", what, k, b.owner, b.amount - a.amount));
            }
            s.ck("C25", "owner, mint and delegates of token accounts never change", a.owner == b.owner && a.mint == b.mint && a.delegate == b.delegate && a.close_authority == b.close_authority && a.state == b.state, || {
                format!("{}: token account {} changed hands", what, k)
            });
        }
    }
    // conservation per mint
    let mut mints: BTreeMap<Pubkey, i128> = BTreeMap::new();
    for k in &touched {
        if let Some(a) = w.token(k) {
            *mints.entry(a.mint).or_insert(0) += a.amount as i128;
        }
        if let Some(b) = before.token(k) {
            *mints.entry(b.mint).or_insert(0) -= b.amount as i128;
        }
    }
    for (m, d) in mints {
        let ds = w.supply(&m) as i128 - before.supply(&m) as i128;
        let lp = e.pools.iter().any(|p| p.lp == m);
        s.ck("C24", "tokens are conserved and only LP tokens are minted or burnt", d == ds && (lp || ds == 0), || format!("{}: mint {} balances changed by {} supply by {}", what, m, d, ds));
    }
    // every pool's records
    for (i, p) in e.pools.iter().enumerate() {
        let g = match de::<PoolState>(w, &p.state) {
            Some(g) => g,
            None => continue,
        };
        let mut active = 0i128;
        let (mut wx, mut wy, mut total) = (0i128, 0i128, 0i128);
        let mut net: BTreeMap<u64, (i128, i128)> = BTreeMap::new();
        for (k, q) in &e.positions {
            if q.pool != i {
                continue;
            }
            let l = liq_in(w, k);
            total += l;
            if q.l <= p.tick && p.tick < q.u {
                active += l;
            }
            let n = net.entry(q.l).or_insert((0, 0));
            n.0 += l;
            n.1 += l;
            let n = net.entry(q.u).or_insert((0, 0));
            n.0 -= l;
            n.1 += l;
            if s.on("C27") && l > 0 {
                let (x, y) = worth(l, p.tick, q.l, q.u);
                wx += x;
                wy += y;
            }
        }
        let gl = fixed(g.pool_global_state.liquidity, g.pool_global_state.liq_scale);
        s.ck("C26", "active liquidity is that of the positions in range", gl == active, || format!("{}: pool {} records active liquidity {} positions in range hold {}", what, p.name, ff(gl), ff(active)));
        for (k, (ti, t)) in &e.ticks {
            if *ti != i {
                continue;
            }
            let (n, gr) = net.get(t).cloned().unwrap_or((0, 0));
            if let Some(ts) = de::<TickState>(w, k) {
                let v = fixed(ts.liq_net, ts.liq_net_scale);
                let v = if ts.liq_net_neg != 0 { -v } else { v };
                let gv = fixed(ts.liq_gross, ts.liq_gross_scale);
                s.ck("C26", "a tick records the net and gross liquidity of the positions bounded by it", v == n && gv == gr, || {
                    format!("{}: pool {} tick {} net {} gross {}, positions add up to {} and {}", what, p.name, t, ff(v), ff(gv), ff(n), ff(gr))
                });
            }
        }
        s.ck("C28", "pool records of price, tick, mints, vaults and authority never change", g.pool_global_state.tick == p.tick && fixed(g.pool_global_state.root_price, g.pool_global_state.rp_scale) == rp(p.tick) && g.token_x_mint == p.xm && g.token_y_mint == p.ym && g.token_x_vault == p.xv && g.token_y_vault == p.yv && g.lp_token_mint == p.lp && g.authority == p.authority, || {
            format!("{}: pool {} record changed: tick {} price {}", what, p.name, g.pool_global_state.tick, g.pool_global_state.root_price)
        });
        if s.on("C27") {
            let (vx, vy) = (w.amount(&p.xv) as i128 * ONE, w.amount(&p.yv) as i128 * ONE);
            let dust = |v: i128| 20 * (1 + e.positions.len() as i128) + v / 100_000_000_000;
            s.ck("C27", "vaults hold at least what all positions are worth", vx + dust(wx) >= wx && vy + dust(wy) >= wy, || format!("{}: pool {} vaults {} {} positions are worth {} {}", what, p.name, ff(vx), ff(vy), ff(wx), ff(wy)));
            let sup = w.supply(&p.lp) as i128 * ONE;
            s.ck("C27", "LP tokens never exceed the liquidity they stand for", sup <= total, || format!("{}: pool {} has {} LP tokens for liquidity {}", what, p.name, ff(sup), ff(total)));
        }
        s.cov.state(hash64(&[i as i128, gl, total, w.amount(&p.xv) as i128, w.amount(&p.yv) as i128]));
    }
}

fn fee4(f: &hmmcl_sandbox::state::fees::Fee) -> ([u128; 4], u8) {
    ([f.f_x, f.f_y, f.h_x, f.h_y], f.fee_scale)
}
fn set4(f: &mut hmmcl_sandbox::state::fees::Fee, v: [u128; 4]) {
    f.f_x = v[0];
    f.f_y = v[1];
    f.h_x = v[2];
    f.h_y = v[3];
}
fn rewrite<T: AccountDeserialize + anchor_lang::AccountSerialize>(w: &mut World, k: &Pubkey, f: impl FnOnce(&mut T)) {
    if let Some(mut t) = de::<T>(w, k) {
        f(&mut t);
        let a = w.accs.get_mut(k).unwrap();
        let mut b: Vec<u8> = vec![];
        t.try_serialize(&mut b).unwrap();
        std::rc::Rc::make_mut(&mut a.data)[..b.len()].copy_from_slice(&b);
    }
}
/// fees of swaps that happened at various ticks, as swaps would leave them in the pool's and ticks' records (the
/// program has no swap yet): a tick's record is the growth on the side of it where the price is not
fn grow(s: &mut S, r: &mut Rng, e: &mut Env) {
    let i = r.below(e.pools.len() as u64) as usize;
    let p = e.pools[i].clone();
    if p.ticks.is_empty() {
        return;
    }
    let mut note = String::new();
    for _ in 0..1 + r.below(3) {
        let t = *r.pick(&p.ticks);
        let at = match r.below(4) {
            0 => t,
            1 => t.saturating_sub(1),
            2 => p.tick,
            _ => t.saturating_add(r.below(100)),
        };
        let mut g = [0u128; 4];
        for v in g.iter_mut() {
            *v = if r.chance(0.3) { 0 } else { r.u128_bits(34) };
        }
        note.push_str(&format!(" {:?} at {}", g, at));
        e.growth[i].push((at, g));
    }
    s.log(format!("fees grow in {}:{}", p.name, note));
    s.cov.count("fee growth recorded");
    let sum = |f: &dyn Fn(u64) -> bool| {
        let mut t = [0u128; 4];
        for (q, g) in &e.growth[i] {
            if f(*q) {
                for n in 0..4 {
                    t[n] += g[n];
                }
            }
        }
        t
    };
    let all = sum(&|_| true);
    rewrite::<PoolState>(&mut e.w, &p.state, |ps| set4(&mut ps.pool_global_state.global_fee, all));
    settle(e, i);
}
/// every tick record of pool i says what grew on its far side
fn settle(e: &mut Env, i: usize) {
    let p = e.pools[i].clone();
    if e.growth[i].is_empty() {
        return;
    }
    for t in &p.ticks {
        let mut o = [0u128; 4];
        for (q, g) in &e.growth[i] {
            if (*q < *t) == (p.tick >= *t) {
                for n in 0..4 {
                    o[n] += g[n];
                }
            }
        }
        rewrite::<TickState>(&mut e.w, &p.tick_key(*t), |ts| set4(&mut ts.tick_fee, o));
    }
}
/// C34, after a deposit or withdrawal on position k
fn fees(s: &mut S, e: &Env, before: &World, k: &Pubkey, what: &str) {
    if !s.on("C34") {
        return;
    }
    for (j, q) in &e.positions {
        let (a, b) = match (de::<PositionState>(&e.w, j), de::<PositionState>(before, j)) {
            (Some(a), Some(b)) => (fee4(&a.last_collected_fee), fee4(&b.last_collected_fee)),
            _ => continue,
        };
        if j != k {
            s.ck("C34", "other positions keep their fee record", a == b, || format!("{}: fee record of {:?} was {:?} is {:?}", what, q, b, a));
            continue;
        }
        let mut want = [0u128; 4];
        for (at, g) in &e.growth[q.pool] {
            if q.l <= *at && *at < q.u {
                for n in 0..4 {
                    want[n] += g[n];
                }
            }
        }
        let kind = if e.growth[q.pool].is_empty() {
            "without fees a position's fee record is zero"
        } else {
            "a position's fee record is the growth inside its range"
        };
        s.ck("C34", kind, a.0 == want && a.1 == FEE_SCALE, || format!("{}: fee record {:?} growth inside the range {:?}", what, a, want));
        s.cov.state(hash64(&[q.l as i128, q.u as i128, want[0] as i128, want[1] as i128, want[2] as i128, want[3] as i128]));
    }
    for p in &e.pools {
        if let (Some(a), Some(b)) = (de::<PoolState>(&e.w, &p.state), de::<PoolState>(before, &p.state)) {
            let (a, b) = (fee4(&a.pool_global_state.global_fee), fee4(&b.pool_global_state.global_fee));
            s.ck("C34", "deposits and withdrawals leave the pool's fee record", a == b, || format!("{}: pool {} fee record was {:?} is {:?}", what, p.name, b, a));
        }
        for t in &p.ticks {
            if let (Some(a), Some(b)) = (de::<TickState>(&e.w, &p.tick_key(*t)), de::<TickState>(before, &p.tick_key(*t))) {
                let (a, b) = (fee4(&a.tick_fee), fee4(&b.tick_fee));
                s.ck("C34", "deposits and withdrawals leave the ticks' fee records", a == b, || format!("{}: tick {} of {} fee record was {:?} is {:?}", what, t, p.name, b, a));
            }
        }
    }
}

/// which accounts may an instruction on one position change?
fn confined(s: &mut S, e: &Env, before: &World, allowed: &[Pubkey], what: &str) {
    let bad: Vec<String> = e.w.accs.iter().filter(|(k, a)| before.accs.get(k) != Some(a) && !allowed.contains(k)).map(|(k, _)| {
        let n = if let Some(q) = e.positions.get(k) { format!("position {:?}", q) } else if let Some(t) = e.ticks.get(k) { format!("tick {:?}", t) } else { format!("account {}", k) };
        n
    }).collect();
    s.ck("C26", "an instruction changes only the records and balances it names", bad.is_empty(), || format!("{}: also changed {:?}", what, bad));
}

fn meta<T: ToAccountMetas>(a: &T) -> Vec<AccountMeta> {
    a.to_account_metas(None)
}

fn try_deposit(s: &mut S, e: &mut Env, q: Pos, x: u64, y: u64, expect: bool) -> bool {
    let p = e.pools[q.pool].clone();
    let u = e.users[q.user].clone();
    let a = e.dep(q.pool, q.user, q.l, q.u);
    let what = format!("deposit of {} X {} Y by {} in {} [{},{}] at tick {}", x, y, u.name, p.name, q.l, q.u, p.tick);
    let before = e.w.clone();
    let data = ix::Deposit { lower_tick: q.l, upper_tick: q.u, current_tick: p.tick, token_x_amount: x, token_y_amount: y }.data();
    let r = e.w.exec(&meta(&a), &data);
    s.log(format!("{} -> {}", what, match &r { Ok(_) => "ok".into(), Err(m) => m.clone() }));
    match r {
        Err(m) => {
            s.cov.count("deposits refused");
            if expect {
                s.ck("C24", "valid deposits and withdrawals are accepted", false, || format!("{}: {}", what, m));
            }
            s.ck("C26", "a refused instruction changes nothing", e.w.accs == before.accs, || what.clone());
            false
        }
        Ok(ev) => {
            s.cov.count("deposits accepted");
            if expect {
                s.ck("C24", "valid deposits and withdrawals are accepted", true, || String::new());
            }
            let d = |k: &Pubkey| e.w.amount(k) as i128 - before.amount(k) as i128;
            let (dx, dy) = (d(&p.xv), d(&p.yv));
            let (ux, uy) = (d(&a.user_token_x), d(&a.user_token_y));
            let lp = d(&a.lp_token_to);
            s.ck("C24", "vaults receive what the depositor pays", ux == -dx && uy == -dy && dx >= 0 && dy >= 0, || format!("{}: vaults changed by {} {} user by {} {}", what, dx, dy, ux, uy));
            s.ck("C24", "no more is taken than offered", dx <= x as i128 && dy <= y as i128, || format!("{}: took {} {}", what, dx, dy));
            let evs = events(&ev, hmmcl_sandbox::events::LiquidityAdded::discriminator());
            s.ck("C24", "the event reports the amounts moved", evs == vec![vec![dx as u64, dy as u64, lp as u64]], || format!("{}: events {:?}, moved {} {} minted {}", what, evs, dx, dy, lp));
            let k = p.pos_key(&u.key, q.l, q.u);
            let dl = e.liq(&k) - liq_in(&before, &k);
            s.ck("C24", "LP tokens minted are the whole units of liquidity credited", lp >= 0 && dl >= lp * ONE && dl < (lp + 1) * ONE, || format!("{}: minted {} LP for liquidity {}", what, lp, ff(dl)));
            // fair: pays what the liquidity is worth, rounded up to whole tokens
            let (wx, wy) = worth(dl.max(0), p.tick, q.l, q.u);
            let ex = 20 + wx / 100_000_000_000;
            let ey = 20 + wy / 100_000_000_000;
            let fair = |paid: i128, w: i128, eps: i128| paid * ONE >= w - eps && paid * ONE < w + ONE + eps;
            s.ck("C24", "a deposit pays what its liquidity is worth, rounded up", fair(dx, wx, ex) && fair(dy, wy, ey), || format!("{}: paid {} {} for liquidity {} worth {} {}", what, dx, dy, ff(dl), ff(wx), ff(wy)));
            let m = most(x, y, p.tick, q.l, q.u);
            let em = 1000 + m / 100_000_000_000;
            s.ck("C24", "a deposit is credited the most its offer allows", dl <= m + em && dl >= m - em, || format!("{}: credited {} the offer allows {}", what, ff(dl), ff(m)));
            let allowed = [p.state, p.bitmap, k, a.lower_tick_state, a.upper_tick_state, p.lp, a.user_token_x, a.user_token_y, p.xv, p.yv, a.lp_token_to];
            confined(s, e, &before, &allowed, &what);
            records(s, e, &before, &what);
            fees(s, e, &before, &k, &what);
            judge(s, e, &before, &[u.key, e.payer], &what);
            true
        }
    }
}

/// the fields of positions and ticks other than liquidity stay
fn records(s: &mut S, e: &Env, before: &World, what: &str) {
    if !s.on("C28") {
        return;
    }
    for (k, q) in &e.positions {
        if let (Some(a), Some(b)) = (de::<PositionState>(&e.w, k), de::<PositionState>(before, k)) {
            s.ck("C28", "positions keep their range and bump", a.lower_tick == q.l && a.upper_tick == q.u && a.bump == b.bump, || format!("{}: position {:?} now {} {} bump {}", what, q, a.lower_tick, a.upper_tick, a.bump));
        }
    }
    for (k, t) in &e.ticks {
        if let (Some(a), Some(b)) = (de::<TickState>(&e.w, k), de::<TickState>(before, k)) {
            s.ck("C28", "ticks keep their index and bump", a.tick == t.1 && a.bump == b.bump, || format!("{}: tick {:?} now {} bump {}", what, t, a.tick, a.bump));
        }
    }
    for p in &e.pools {
        if let (Some(a), Some(b)) = (bitmap_of(&e.w, &p.bitmap), bitmap_of(before, &p.bitmap)) {
            s.ck("C28", "bitmaps keep their bump", a.1 == b.1, || format!("{}: bitmap bump {}", what, a.1));
        }
    }
}

fn try_withdraw(s: &mut S, e: &mut Env, q: Pos, lp: u64, expect: Option<bool>) -> bool {
    let p = e.pools[q.pool].clone();
    let u = e.users[q.user].clone();
    let a = e.wd(q.pool, q.user, q.l, q.u);
    let k = p.pos_key(&u.key, q.l, q.u);
    let had = e.liq(&k);
    let what = format!("withdrawal of {} LP by {} from {} [{},{}] at tick {} (position {})", lp, u.name, p.name, q.l, q.u, p.tick, ff(had));
    let before = e.w.clone();
    let data = ix::Withdraw { lower_tick: q.l, upper_tick: q.u, current_tick: p.tick, lp_token_amount: lp }.data();
    let r = e.w.exec(&meta(&a), &data);
    s.log(format!("{} -> {}", what, match &r { Ok(_) => "ok".into(), Err(m) => m.clone() }));
    if expect == Some(false) {
        s.ck("C25", "withdrawing more than the position or the LP tokens held is refused", r.is_err(), || what.clone());
    }
    match r {
        Err(m) => {
            s.cov.count("withdrawals refused");
            if expect == Some(true) {
                s.ck("C27", "a withdrawal covered by position and LP tokens is paid", false, || format!("{}: {}", what, m));
            }
            s.ck("C26", "a refused instruction changes nothing", e.w.accs == before.accs, || what.clone());
            false
        }
        Ok(ev) => {
            s.cov.count("withdrawals accepted");
            if expect == Some(true) {
                s.ck("C27", "a withdrawal covered by position and LP tokens is paid", true, || String::new());
            }
            let d = |k: &Pubkey| e.w.amount(k) as i128 - before.amount(k) as i128;
            let (dx, dy) = (-d(&p.xv), -d(&p.yv));
            s.ck("C24", "the withdrawer receives what the vaults pay", d(&a.user_token_x) == dx && d(&a.user_token_y) == dy && dx >= 0 && dy >= 0, || format!("{}: vaults paid {} {} user got {} {}", what, dx, dy, d(&a.user_token_x), d(&a.user_token_y)));
            s.ck("C24", "LP tokens burnt are those asked for", -d(&a.lp_token_user_account) == lp as i128 && before.supply(&p.lp) - e.w.supply(&p.lp) == lp, || format!("{}: burnt {}", what, -d(&a.lp_token_user_account)));
            let evs = events(&ev, hmmcl_sandbox::events::LiquidityRemoved::discriminator());
            s.ck("C24", "the event reports the amounts moved", evs == vec![vec![dx as u64, dy as u64, lp]], || format!("{}: events {:?}, moved {} {}", what, evs, dx, dy));
            let now = e.liq(&k);
            s.ck("C26", "a withdrawal takes exactly its liquidity from the position", had - now == lp as i128 * ONE, || format!("{}: position now {}", what, ff(now)));
            let (wx, wy) = worth(lp as i128 * ONE, p.tick, q.l, q.u);
            let fair = |paid: i128, w: i128| paid * ONE <= w + 20 + w / 100_000_000_000 && (paid + 1) * ONE > w - 20 - w / 100_000_000_000;
            s.ck("C24", "a withdrawal pays what its liquidity is worth, rounded down", fair(dx, wx) && fair(dy, wy), || format!("{}: paid {} {} worth {} {}", what, dx, dy, ff(wx), ff(wy)));
            let allowed = [p.state, p.bitmap, k, a.lower_tick_state, a.upper_tick_state, p.lp, a.user_token_x, a.user_token_y, p.xv, p.yv, a.lp_token_user_account];
            confined(s, e, &before, &allowed, &what);
            records(s, e, &before, &what);
            fees(s, e, &before, &k, &what);
            judge(s, e, &before, &[u.key, e.payer], &what);
            true
        }
    }
}

fn unchanged(s: &mut S, e: &Env, before: &World, made: &[Pubkey], what: &str) {
    let pay = e.payer;
    let bad: Vec<Pubkey> = e.w.accs.iter().filter(|(k, a)| before.accs.get(k) != Some(a) && !made.contains(k) && **k != pay).map(|(k, _)| *k).collect();
    s.ck("C28", "creating records changes no other account", bad.is_empty(), || format!("{}: also changed {:?}", what, bad));
}

fn try_init_pool(s: &mut S, e: &mut Env, i: usize, brp: u64) {
    let p = e.pools[i].clone();
    let what = format!("initialize pool {} at tick {}", p.name, p.tick);
    let before = e.w.clone();
    let data = ix::InitializePool { bootstrap_rp: brp, tick: p.tick }.data();
    let m = meta(&e.init(&p));
    let r = e.w.exec(&m, &data);
    s.log(format!("{} -> {:?}", what, r.as_ref().map(|_| ())));
    s.ck("C28", "a pool can be created", r.is_ok(), || format!("{}: {:?}", what, r));
    let (g, w) = (de::<PoolState>(&e.w, &p.state), &e.w);
    if let Some(g) = g {
        let gs = &g.pool_global_state;
        let want_bumps = (bump(&[POOL_STATE_SEED, p.lp.as_ref()]), bump(&[TOKEN_VAULT_SEED, p.xm.as_ref(), p.lp.as_ref()]), bump(&[TOKEN_VAULT_SEED, p.ym.as_ref(), p.lp.as_ref()]), bump(&[LP_TOKEN_VAULT_SEED, p.state.as_ref(), p.lp.as_ref()]));
        s.ck("C28", "a new pool records its mints, vaults, authority, bumps", g.authority == p.authority && g.token_x_mint == p.xm && g.token_y_mint == p.ym && g.token_x_vault == p.xv && g.token_y_vault == p.yv && g.lp_token_mint == p.lp && (g.pool_state_bump, g.token_x_vault_bump, g.token_y_vault_bump, g.lp_token_vault_bump) == want_bumps, || what.clone());
        let f = &gs.global_fee;
        s.ck("C28", "a new pool is empty and at the price of its tick", gs.liquidity == 0 && gs.tick == p.tick && fixed(gs.root_price, gs.rp_scale) == rp(p.tick) && f.f_x == 0 && f.f_y == 0 && f.h_x == 0 && f.h_y == 0, || {
            format!("{}: liquidity {} tick {} root price {}", what, gs.liquidity, gs.tick, gs.root_price)
        });
        for (v, m) in [(p.xv, p.xm), (p.yv, p.ym), (p.lpv, p.lp)].iter() {
            let t = w.token(v);
            s.ck("C28", "vaults of a new pool are empty accounts of its mints owned by the pool", t.map(|t| t.mint == *m && t.owner == p.state && t.amount == 0 && t.delegate.is_none() && t.close_authority.is_none()).unwrap_or(false), || format!("{}: vault {:?}", what, t));
        }
    } else if r.is_ok() {
        s.ck("C28", "a new pool records its mints, vaults, authority, bumps", false, || format!("{}: no pool record", what));
    }
    unchanged(s, e, &before, &[p.state, p.xv, p.yv, p.lpv], &what);
    // once only
    let again = e.w.clone();
    for (n, t) in [("again", p.tick), ("again at another tick", p.tick + 1)].iter() {
        let r = e.w.exec(&m, &ix::InitializePool { bootstrap_rp: brp, tick: *t }.data());
        s.ck("C28", "records are created once only", r.is_err() && e.w.accs == again.accs, || format!("{} {}", what, n));
        e.w = again.clone();
    }
}

fn try_init_bitmap(s: &mut S, e: &mut Env, i: usize) {
    let p = e.pools[i].clone();
    let what = format!("initialize bitmap of {}", p.name);
    let before = e.w.clone();
    let m = meta(&ac::InitializeBitmap { pool_state: p.state, tick_bitmap: p.bitmap, payer: e.payer, system_program: system_program::ID });
    let r = e.w.exec(&m, &ix::InitializeBitmap {}.data());
    s.log(format!("{} -> {:?}", what, r.as_ref().map(|_| ())));
    let b = bitmap_of(&e.w, &p.bitmap);
    s.ck("C28", "a new bitmap is empty and records its bump", r.is_ok() && b.as_ref().map(|b| b.0.iter().all(|x| *x == 0) && b.1 == bump(&[b"bitmap", p.state.as_ref()])).unwrap_or(false), || format!("{}: {:?}", what, r));
    unchanged(s, e, &before, &[p.bitmap], &what);
    let again = e.w.clone();
    let r = e.w.exec(&m, &ix::InitializeBitmap {}.data());
    s.ck("C28", "records are created once only", r.is_err() && e.w.accs == again.accs, || format!("{} again", what));
    e.w = again;
}

fn try_init_tick(s: &mut S, e: &mut Env, i: usize, t: u64) -> bool {
    let p = e.pools[i].clone();
    let what = format!("initialize tick {} of {}", t, p.name);
    let k = p.tick_key(t);
    let before = e.w.clone();
    let m = meta(&ac::InitializeTick { pool_state: p.state, tick_state: k, payer: e.payer, system_program: system_program::ID });
    let r = e.w.exec(&m, &ix::InitializeTick { tick: t }.data());
    s.log(format!("{} -> {:?}", what, r.as_ref().map(|_| ())));
    if e.ticks.contains_key(&k) {
        s.ck("C28", "records are created once only", r.is_err() && e.w.accs == before.accs, || format!("{} again", what));
        e.w = before;
        return false;
    }
    let ts = de::<TickState>(&e.w, &k);
    let f = |f: &hmmcl_sandbox::state::fees::Fee| f.f_x == 0 && f.f_y == 0 && f.h_x == 0 && f.h_y == 0;
    s.ck("C28", "a new tick is empty and records its index and bump", r.is_ok() && ts.as_ref().map(|x| x.tick == t && x.liq_net == 0 && x.liq_gross == 0 && f(&x.tick_fee) && x.bump == bump(&[b"tick", p.state.as_ref(), &t.to_le_bytes()])).unwrap_or(false), || format!("{}: {:?}", what, r));
    unchanged(s, e, &before, &[k], &what);
    if r.is_ok() {
        e.ticks.insert(k, (i, t));
        e.pools[i].ticks.push(t);
    }
    r.is_ok()
}

fn try_create(s: &mut S, e: &mut Env, q: Pos) -> bool {
    let p = e.pools[q.pool].clone();
    let u = e.users[q.user].clone();
    let what = format!("create position [{},{}] of {} in {}", q.l, q.u, u.name, p.name);
    let k = p.pos_key(&u.key, q.l, q.u);
    let before = e.w.clone();
    let m = meta(&e.crp(q.pool, q.user, q.l, q.u));
    let r = e.w.exec(&m, &ix::CreatePosition { lower_tick: q.l, upper_tick: q.u }.data());
    s.log(format!("{} -> {:?}", what, r.as_ref().map(|_| ())));
    if e.positions.contains_key(&k) {
        s.ck("C28", "records are created once only", r.is_err() && e.w.accs == before.accs, || format!("{} again", what));
        e.w = before;
        return false;
    }
    let known = |t: u64| e.ticks.contains_key(&p.tick_key(t));
    if q.l >= q.u || !known(q.l) || !known(q.u) {
        s.ck("C28", "positions need an ordered range between existing ticks", r.is_err() && e.w.accs == before.accs, || what.clone());
        e.w = before;
        return false;
    }
    let ps = de::<PositionState>(&e.w, &k);
    s.ck("C28", "a new position is empty and records its range and bump", r.is_ok() && ps.as_ref().map(|x| x.lower_tick == q.l && x.upper_tick == q.u && x.liquidity == 0 && x.bump == bump(&[b"position", p.state.as_ref(), u.key.as_ref(), &q.l.to_le_bytes(), &q.u.to_le_bytes()])).unwrap_or(false), || {
        format!("{}: {:?}", what, r)
    });
    unchanged(s, e, &before, &[k], &what);
    if r.is_ok() {
        e.positions.insert(k, q);
    }
    r.is_ok()
}

/// copies of real accounts under an attacker's address and program, and accounts of ours never initialized
fn forge(r: &mut Rng, e: &mut Env) {
    let mut src: Vec<Pubkey> = vec![];
    for p in &e.pools {
        src.extend_from_slice(&[p.state, p.bitmap, p.xv, p.yv, p.lpv, p.lp, p.tick_key(p.tick)]);
    }
    src.extend(e.positions.keys());
    src.extend(e.ticks.keys());
    for k in src {
        if r.chance(0.5) {
            if let Some(a) = e.w.accs.get(&k).cloned() {
                let f = key(r);
                let owner = if r.chance(0.7) { evil() } else { system_program::ID };
                e.w.put(f, a.lamports, (*a.data).clone(), owner, false);
                e.forged.push(f);
            }
        }
    }
    let f = key(r);
    e.w.put(f, 1_000_000_000, vec![0; 600], ID, false);
    e.forged.push(f);
}

macro_rules! roles {
    ($t:ty; $($f:ident),*) => {{
        let v: Vec<(&'static str, fn(&mut $t, Pubkey), fn(&$t) -> Pubkey)> = vec![$((stringify!($f), |a: &mut $t, k: Pubkey| a.$f = k, |a: &$t| a.$f)),*];
        v
    }};
}

/// All accounts that could be named in an instruction.
fn universe(e: &Env) -> Vec<Pubkey> {
    let mut v: Vec<Pubkey> = e.w.accs.keys().cloned().collect();
    v.push(e.users[0].key);
    v.sort();
    v.dedup();
    v
}

/// Replace one account of a valid instruction, or take one signature away: it has to be refused.
fn hostile(s: &mut S, r: &mut Rng, e: &Env, q: Pos, tries: usize) {
    let p = &e.pools[q.pool];
    let u = &e.users[q.user];
    let all = universe(e);
    let liq = e.liq(&p.pos_key(&u.key, q.l, q.u));
    let lp = ((liq / ONE) as u64).min(e.w.amount(&u.tok[&p.lp]));
    let (x, y) = (1000 + r.below(100_000), 1000 + r.below(100_000));
    let drole = roles!(ac::Deposit; pool_state, tick_bitmap, position_state, lower_tick_state, upper_tick_state, current_tick_state, lp_token_mint, user_token_x, user_token_y, token_x_vault, token_y_vault, lp_token_vault, lp_token_to, token_program, user, payer);
    let wrole = roles!(ac::Withdraw; pool_state, tick_bitmap, position_state, lower_tick_state, upper_tick_state, current_tick_state, lp_token_mint, user_token_x, user_token_y, token_x_vault, token_y_vault, lp_token_vault, lp_token_user_account, token_program, user, payer);
    let wamt = if lp > 0 { 1 + r.below(lp) } else { 0 };
    let others: Vec<u64> = p.ticks.iter().cloned().filter(|t| *t != p.tick).collect();
    for _ in 0..tries {
        let dep = lp == 0 || r.chance(0.5);
        let kind = r.below(10);
        let (mut metas, data, what, n);
        let ddata = |l, u, c| ix::Deposit { lower_tick: l, upper_tick: u, current_tick: c, token_x_amount: x, token_y_amount: y }.data();
        let wdata = |l, u, c| ix::Withdraw { lower_tick: l, upper_tick: u, current_tick: c, lp_token_amount: wamt }.data();
        let mut d = e.dep(q.pool, q.user, q.l, q.u);
        let mut w = e.wd(q.pool, q.user, q.l, q.u);
        if kind < 6 {
            // substitute one account; half of the time by one of the same kind
            let ri = r.below(drole.len() as u64) as usize;
            let name = if dep { drole[ri].0 } else { wrole[ri].0 };
            let honest = if dep { (drole[ri].2)(&d) } else { (wrole[ri].2)(&w) };
            let alike = |k: &Pubkey| match (e.w.accs.get(k), e.w.accs.get(&honest)) {
                (Some(a), Some(b)) => a.data.len() == b.data.len(),
                _ => false,
            };
            let cand: Vec<Pubkey> = if r.chance(0.7) { all.iter().cloned().filter(|k| alike(k)).collect() } else { all.clone() };
            let sub = *r.pick(if cand.is_empty() { &all } else { &cand });
            if sub == honest {
                continue;
            }
            // substitutes that mean the same thing
            let t = e.w.token(&sub);
            let fine = match name {
                "lp_token_to" => t.map(|t| t.mint == p.lp).unwrap_or(false),
                "lp_token_user_account" => t.map(|t| t.mint == p.lp && t.owner == u.key).unwrap_or(false),
                "user_token_x" => t.map(|t| t.mint == p.xm && t.owner == u.key).unwrap_or(false),
                "user_token_y" => t.map(|t| t.mint == p.ym && t.owner == u.key).unwrap_or(false),
                "payer" => true,
                _ => false,
            };
            if fine {
                continue;
            }
            if dep {
                (drole[ri].1)(&mut d, sub);
            } else {
                (wrole[ri].1)(&mut w, sub);
            }
            metas = if dep { meta(&d) } else { meta(&w) };
            // a substitute user signs: the attacker is somebody
            data = if dep { ddata(q.l, q.u, p.tick) } else { wdata(q.l, q.u, p.tick) };
            n = name;
            what = format!("{} with {} replaced by {}", if dep { "deposit" } else { "withdrawal" }, name, describe(e, &sub));
        } else if kind == 6 {
            // unsigned
            let name = if r.chance(0.6) { "user" } else { "payer" };
            metas = if dep { meta(&d) } else { meta(&w) };
            let k = if name == "user" { u.key } else { e.payer };
            if u.key == e.payer {
                continue;
            }
            for m in metas.iter_mut() {
                if m.pubkey == k {
                    m.is_signer = false;
                }
            }
            data = if dep { ddata(q.l, q.u, p.tick) } else { wdata(q.l, q.u, p.tick) };
            n = "missing signature";
            what = format!("{} not signed by {}", if dep { "deposit" } else { "withdrawal" }, name);
        } else if kind == 7 && !others.is_empty() {
            // another current tick, consistently named
            let t = *r.pick(&others);
            d.current_tick_state = p.tick_key(t);
            w.current_tick_state = p.tick_key(t);
            metas = if dep { meta(&d) } else { meta(&w) };
            data = if dep { ddata(q.l, q.u, t) } else { wdata(q.l, q.u, t) };
            n = "another current tick";
            what = format!("{} claiming the current tick is {}", if dep { "deposit" } else { "withdrawal" }, t);
        } else if kind == 8 {
            // arguments that do not match the accounts
            let (mut l, mut up, mut c) = (q.l, q.u, p.tick);
            let t = *r.pick(&p.ticks);
            match r.below(4) {
                0 => l = t,
                1 => up = t,
                2 => c = t,
                _ => {
                    l = q.u;
                    up = q.l
                }
            }
            if (l, up, c) == (q.l, q.u, p.tick) {
                continue;
            }
            metas = if dep { meta(&d) } else { meta(&w) };
            data = if dep { ddata(l, up, c) } else { wdata(l, up, c) };
            n = "arguments not matching the accounts";
            what = format!("{} with arguments [{},{}] at {}", if dep { "deposit" } else { "withdrawal" }, l, up, c);
        } else {
            // another user's position, with that user's accounts but the attacker's signature, or the reverse
            let v = &e.users[(q.user + 1) % e.users.len()];
            match r.below(4) {
                0 => {
                    d.user = v.key;
                    w.user = v.key;
                }
                1 => {
                    d.user = v.key;
                    w.user = v.key;
                    d.user_token_x = v.tok[&p.xm];
                    w.user_token_x = v.tok[&p.xm];
                    d.user_token_y = v.tok[&p.ym];
                    w.user_token_y = v.tok[&p.ym];
                }
                2 => {
                    w.user = v.key;
                    d.user = v.key;
                    w.user_token_x = v.tok[&p.xm];
                    w.user_token_y = v.tok[&p.ym];
                    d.user_token_x = v.tok[&p.xm];
                    d.user_token_y = v.tok[&p.ym];
                    w.lp_token_user_account = v.tok[&p.lp];
                    d.lp_token_to = v.tok[&p.lp];
                }
                _ => {
                    w.user_token_x = v.tok[&p.xm];
                    w.user_token_y = v.tok[&p.ym];
                    d.user_token_x = v.tok[&p.xm];
                    d.user_token_y = v.tok[&p.ym];
                }
            }
            metas = if dep { meta(&d) } else { meta(&w) };
            data = if dep { ddata(q.l, q.u, p.tick) } else { wdata(q.l, q.u, p.tick) };
            n = "another user";
            what = format!("{} on a position of {} by or for {}", if dep { "deposit" } else { "withdrawal" }, u.name, v.name);
        }
        let mut w2 = e.w.clone();
        let res = w2.exec(&metas, &data);
        s.cov.count(&format!("hostile: {} {}", if dep { "deposit" } else { "withdraw" }, n));
        s.cov.state(hash64(&[if dep { 1 } else { 2 }, kind as i128, n.len() as i128, res.as_ref().err().map(|m| m.bytes().map(|b| b as i128).sum()).unwrap_or(0)]));
        s.ck("C25", "an instruction with a wrong account, argument or signature is refused", res.is_err(), || format!("accepted {} ({} in {} [{},{}] at tick {})", what, u.name, p.name, q.l, q.u, p.tick));
        if let Err(m) = &res {
            s.cov.count(&format!("refusal {}", m.chars().take(60).collect::<String>()));
        }
    }
}

/// Several substitutions at once, judged by their effects only.
fn shuffle(s: &mut S, r: &mut Rng, e: &mut Env, q: Pos) {
    let all = universe(e);
    let (a, b) = (r.below(e.pools.len() as u64) as usize, r.below(e.pools.len() as u64) as usize);
    let (ua, ub) = (r.below(e.users.len() as u64) as usize, q.user);
    let mut d1 = meta(&e.dep(q.pool, q.user, q.l, q.u));
    let mut w1 = meta(&e.wd(q.pool, q.user, q.l, q.u));
    let lo = *r.pick(&e.pools[a].ticks);
    let hi = *r.pick(&e.pools[b].ticks);
    let d2 = meta(&e.dep(a, ua, lo, hi));
    let w2 = meta(&e.wd(b, ub, lo, hi));
    let n = 1 + r.below(4);
    for _ in 0..n {
        let i = r.below(d1.len() as u64) as usize;
        if r.chance(0.6) {
            d1[i].pubkey = d2[i].pubkey;
            w1[i].pubkey = w2[i].pubkey;
        } else {
            let k = *r.pick(&all);
            d1[i].pubkey = k;
            w1[i].pubkey = k;
        }
    }
    let c = if r.chance(0.7) { e.pools[q.pool].tick } else { *r.pick(&e.pools[q.pool].ticks) };
    let dep = r.chance(0.5);
    let data = if dep {
        ix::Deposit { lower_tick: q.l, upper_tick: q.u, current_tick: c, token_x_amount: r.below(1_000_000), token_y_amount: r.below(1_000_000) }.data()
    } else {
        ix::Withdraw { lower_tick: q.l, upper_tick: q.u, current_tick: c, lp_token_amount: r.below(1_000_000) }.data()
    };
    let m = if dep { d1 } else { w1 };
    let signers: Vec<Pubkey> = m.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    let before = e.w.clone();
    let res = e.w.exec(&m, &data);
    s.cov.count("shuffled instructions");
    if res.is_ok() {
        s.cov.count("shuffled instructions accepted");
        s.log(format!("shuffled {} accepted", if dep { "deposit" } else { "withdrawal" }));
        judge(s, e, &before, &signers, "shuffled instruction");
    }
}

fn describe(e: &Env, k: &Pubkey) -> String {
    if let Some(q) = e.positions.get(k) {
        return format!("position {:?}", q);
    }
    if let Some(t) = e.ticks.get(k) {
        return format!("tick {:?}", t);
    }
    for p in &e.pools {
        for (n, v) in [("state", p.state), ("bitmap", p.bitmap), ("x vault", p.xv), ("y vault", p.yv), ("lp vault", p.lpv), ("lp mint", p.lp), ("x mint", p.xm), ("y mint", p.ym)].iter() {
            if v == k {
                return format!("{} of {}", n, p.name);
            }
        }
    }
    for u in &e.users {
        if u.key == *k {
            return format!("{}", u.name);
        }
        if let Some((m, _)) = u.tok.iter().find(|(_, t)| *t == k) {
            return format!("token account of {} for mint {}", u.name, m);
        }
    }
    if e.forged.contains(k) {
        return format!("forged account {}", k);
    }
    format!("account {}", k)
}

/// wrong ways to create records
fn hostile_init(s: &mut S, r: &mut Rng, e: &Env, i: usize) {
    let p = &e.pools[i];
    let all = universe(e);
    for _ in 0..6 {
        let mut w = e.w.clone();
        let (what, res) = match r.below(8) {
            0 => {
                let t = e.pools[i].tick + 17 + r.below(1000);
                let k = if r.chance(0.5) { p.tick_key(t + 1) } else { e.pools[(i + 1) % e.pools.len()].tick_key(t) };
                (format!("tick {} at the address of another", t), w.exec(&meta(&ac::InitializeTick { pool_state: p.state, tick_state: k, payer: e.payer, system_program: system_program::ID }), &ix::InitializeTick { tick: t }.data()))
            }
            1 => {
                let t = 70_000 + r.below(1000);
                let k = key(r);
                (format!("tick {} at any address", t), w.exec(&meta(&ac::InitializeTick { pool_state: p.state, tick_state: k, payer: e.payer, system_program: system_program::ID }), &ix::InitializeTick { tick: t }.data()))
            }
            2 => {
                let sub = *r.pick(&all);
                if e.pools.iter().any(|p| p.state == sub) {
                    continue;
                }
                let t = 70_000 + r.below(1000);
                let k = pda(&[b"tick", sub.as_ref(), &t.to_le_bytes()]);
                (format!("tick of {} that is no pool", describe(e, &sub)), w.exec(&meta(&ac::InitializeTick { pool_state: sub, tick_state: k, payer: e.payer, system_program: system_program::ID }), &ix::InitializeTick { tick: t }.data()))
            }
            3 => {
                // position for a user who does not sign, or at another user's address
                let ts = &p.ticks;
                let (l, u) = (*r.pick(ts), *r.pick(ts));
                let (l, u) = (l.min(u), l.max(u));
                let ui = r.below(e.users.len() as u64) as usize;
                if l == u || e.w.accs.contains_key(&p.pos_key(&e.users[ui].key, l, u)) {
                    continue;
                }
                let mut a = e.crp(i, ui, l, u);
                let other = &e.users[(ui + 1) % e.users.len()];
                let mut sign = true;
                match r.below(4) {
                    0 => sign = false,
                    1 => a.user = other.key,
                    2 => a.position_state = p.pos_key(&other.key, u, l),
                    _ => a.pool_state = e.pools[(i + 1) % e.pools.len()].state,
                }
                let mut m = meta(&a);
                if !sign {
                    for x in m.iter_mut() {
                        if x.pubkey == e.users[ui].key {
                            x.is_signer = false;
                        }
                    }
                }
                (format!("position [{},{}] with a wrong account or signature", l, u), w.exec(&m, &ix::CreatePosition { lower_tick: l, upper_tick: u }.data()))
            }
            4 => {
                // arguments not matching the address
                let ts = &p.ticks;
                let (l, u) = (*r.pick(ts), *r.pick(ts));
                if l >= u {
                    continue;
                }
                let ui = r.below(e.users.len() as u64) as usize;
                let (l2, u2) = match r.below(3) {
                    0 => (u, l),
                    1 => (l, u + 1),
                    _ => (l + 1, u),
                };
                (format!("position [{},{}] at the address of [{},{}]", l2, u2, l, u), w.exec(&meta(&e.crp(i, ui, l, u)), &ix::CreatePosition { lower_tick: l2, upper_tick: u2 }.data()))
            }
            5 => {
                // empty or inverted, consistently
                let ts = &p.ticks;
                let (l, u) = (*r.pick(ts), *r.pick(ts));
                let (l, u) = (l.max(u), l.min(u));
                let ui = r.below(e.users.len() as u64) as usize;
                (format!("position [{},{}]", l, u), w.exec(&meta(&e.crp(i, ui, l, u)), &ix::CreatePosition { lower_tick: l, upper_tick: u }.data()))
            }
            6 => {
                // a new pool with a mint the pool does not control, or misplaced records
                let lp = key(r);
                let mut np = PoolK::new("N", p.xm, p.ym, lp, p.authority, r.below(60_000));
                w.put_mint(lp, np.state, 0);
                let why = r.below(6);
                let mut m;
                match why {
                    0 => w.put_mint(lp, e.users[0].key, 0),
                    1 => {
                        let o = key(r);
                        w.put_mint(lp, o, 0)
                    }
                    2 => np.xv = key(r),
                    3 => np.state = key(r),
                    4 => np.lpv = e.pools[i].lpv,
                    _ => {}
                }
                m = meta(&e.init(&np));
                if why == 5 {
                    for x in m.iter_mut() {
                        if x.pubkey == np.authority {
                            x.is_signer = false;
                        }
                    }
                }
                (format!("a pool with a wrong mint authority, address or signature ({})", why), w.exec(&m, &ix::InitializePool { bootstrap_rp: 0, tick: np.tick }.data()))
            }
            _ => {
                // bitmap elsewhere
                let k = if r.chance(0.5) { key(r) } else { e.pools[(i + 1) % e.pools.len()].bitmap };
                (format!("bitmap at another address"), w.exec(&meta(&ac::InitializeBitmap { pool_state: p.state, tick_bitmap: k, payer: e.payer, system_program: system_program::ID }), &ix::InitializeBitmap {}.data()))
            }
        };
        s.cov.count("hostile creations");
        for prop in ["C28", "C25"] {
            s.ck(prop, "records are created only at their own address, by those who sign", res.is_err(), || format!("accepted {} ({})", what, p.name));
        }
    }
}

fn amount(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => 1 + r.below(5),
        2 => 10u64.pow(r.below(10) as u32),
        3 => 10u64.pow(1 + r.below(9) as u32) - 1,
        _ if r.chance(0.05) => r.logf(1.0, 1e12) as u64,
        _ => r.logf(1.0, 2e9) as u64,
    }
}

pub fn run(r: &mut Rng, s: &mut S) {
    let mut e = Env { w: World::new(), pools: vec![], users: vec![], payer: key(r), positions: BTreeMap::new(), ticks: BTreeMap::new(), forged: vec![], growth: vec![vec![], vec![]] };
    let mints = [key(r), key(r), key(r)];
    for m in &mints {
        let a = key(r);
        e.w.put_mint(*m, a, 6);
    }
    e.w.put(e.payer, 1_000_000_000_000_000, vec![], system_program::ID, false);
    // two pools, over the same pair, the swapped pair or another one
    let auth = key(r);
    e.w.put(auth, 1_000_000_000, vec![], system_program::ID, false);
    let second = match r.below(3) {
        0 => (mints[0], mints[1]),
        1 => (mints[1], mints[0]),
        _ => (mints[1], mints[2]),
    };
    for (n, (xm, ym)) in [("A", (mints[0], mints[1])), ("B", second)].iter() {
        let lp = key(r);
        let t = *r.pick(&[0u64, 1, 5, 1000, 30_000, 46_055]);
        let t = if r.chance(0.6) { r.below(60_000) } else if r.chance(0.1) { r.below(130_000) } else { t };
        let p = PoolK::new(n, *xm, *ym, lp, auth, t);
        let dec = r.below(10) as u8;
        e.w.put_mint(lp, p.state, dec);
        e.pools.push(p);
    }
    for n in ["alice", "bob", "mallory"].iter() {
        let k = key(r);
        e.w.put(k, 1_000_000_000, vec![], system_program::ID, false);
        let mut tok = BTreeMap::new();
        for m in mints.iter().chain(e.pools.iter().map(|p| &p.lp)) {
            let t = key(r);
            let lp = e.pools.iter().any(|p| p.lp == *m);
            e.w.put_token(t, *m, k, if lp { 0 } else { 1_000_000_000_000 });
            tok.insert(*m, t);
        }
        e.users.push(User { name: n, key: k, tok });
    }
    let share = e.users[0].key;
    if r.chance(0.2) {
        e.payer = share; // the user pays for themselves
        e.w.put(e.payer, 1_000_000_000_000_000, vec![], system_program::ID, false);
    }
    for i in 0..e.pools.len() {
        let brp = r.next();
        // somebody sent lamports to the addresses beforehand
        if r.chance(0.3) {
            for k in [e.pools[i].state, e.pools[i].xv, e.pools[i].bitmap].iter() {
                e.w.put(*k, 1 + r.below(10_000_000), vec![], system_program::ID, false);
            }
        }
        try_init_pool(s, &mut e, i, brp);
        try_init_bitmap(s, &mut e, i);
        let c = e.pools[i].tick;
        let mut ts = vec![c];
        for _ in 0..3 + r.below(4) {
            let span = *r.pick(&[3i64, 50, 500, 5000, 20_000]);
            ts.push((c as i64 + r.range(-span, span)).max(0) as u64);
        }
        if r.chance(0.3) {
            ts.push(0);
        }
        if r.chance(0.3) {
            ts.push(c + 1);
        }
        if r.chance(0.05) {
            ts.push(*r.pick(&[100_000u64, 1_000_000, u64::MAX, 1 << 32]));
        }
        for t in ts {
            try_init_tick(s, &mut e, i, t);
        }
    }
    let steps = 10 + r.below(25);
    for step in 0..steps {
        let i = r.below(e.pools.len() as u64) as usize;
        let ui = r.below(e.users.len() as u64) as usize;
        let mut known: Vec<Pos> = e.positions.values().cloned().filter(|q| q.u < 90_000).collect();
        let odd: Vec<Pos> = e.positions.values().cloned().filter(|q| q.u >= 90_000).collect();
        if !odd.is_empty() && r.chance(0.2) {
            known = odd; // prices beyond what the number type can hold: refused or right
        }
        if r.chance(0.12) {
            tokens(s, r, &mut e);
        }
        if s.prop == "C34" {
            if r.chance(0.4) && step > 2 {
                grow(s, r, &mut e);
            }
            for j in 0..e.pools.len() {
                settle(&mut e, j);
            }
        }
        let op = r.below(20);
        if op < 3 || known.is_empty() {
            let ts = e.pools[i].ticks.clone();
            let (mut l, mut u) = (*r.pick(&ts), *r.pick(&ts));
            if l > u && r.chance(0.95) {
                std::mem::swap(&mut l, &mut u);
            }
            if r.chance(0.05) {
                u += 3; // perhaps no such tick
            }
            try_create(s, &mut e, Pos { pool: i, user: ui, l, u });
        } else if op < 11 {
            let q = *r.pick(&known);
            let (mut x, mut y) = (amount(r), amount(r));
            if r.chance(0.3) {
                // in proportion
                let l = r.logf(1.0, 1e9);
                let (wx, wy) = if q.u < 90_000 { worth(fx(l), e.pools[q.pool].tick, q.l, q.u) } else { (fx(l), fx(l)) };
                x = (wx / ONE) as u64 + r.below(3);
                y = (wy / ONE) as u64 + r.below(3);
            }
            let m = if q.u < 90_000 { most(x, y, e.pools[q.pool].tick, q.l, q.u) } else { i128::MAX };
            let expect = x.max(y) < 4_000_000_000 && m < 10_000_000_000 * ONE;
            try_deposit(s, &mut e, q, x, y, expect);
        } else if op < 16 {
            let q = *r.pick(&known);
            let p = &e.pools[q.pool];
            let u = &e.users[q.user];
            let liq = (e.liq(&p.pos_key(&u.key, q.l, q.u)) / ONE) as u64;
            let held = e.w.amount(&u.tok[&p.lp]);
            let cap = liq.min(held);
            let n = match r.below(8) {
                0 => cap,
                1 => liq,
                2 => cap + 1,
                3 => held.max(liq).saturating_add(1 + r.below(1000)),
                4 => cap / 2,
                5 => *r.pick(&[0u64, 1]),
                _ => r.below(cap + 1),
            };
            let n = if r.chance(0.02) { u64::MAX - r.below(3) } else { n };
            let expect = if q.u < 90_000 || n > 0 { Some(n <= cap) } else { None };
            try_withdraw(s, &mut e, q, n, expect);
        } else if op == 16 {
            let t = e.pools[i].tick as i64 + r.range(-3000, 3000);
            try_init_tick(s, &mut e, i, t.max(0) as u64);
        } else if op == 17 {
            forge(r, &mut e);
        } else {
            let q = *r.pick(&known);
            for _ in 0..4 {
                shuffle(s, r, &mut e, q);
            }
        }
        if s.on("C25") && step % 2 == 1 && !e.positions.is_empty() {
            let known: Vec<Pos> = e.positions.values().cloned().filter(|q| q.u < 90_000).collect();
            if !known.is_empty() {
                let q = *r.pick(&known);
                hostile(s, r, &e, q, 8);
            }
        }
        if (s.on("C28") || s.on("C25")) && step % 3 == 0 {
            hostile_init(s, r, &e, i);
        }
        if s.on("C27") && step % 4 == 3 {
            exits(s, r, &e);
        }
    }
    exits(s, r, &e);
}

/// What users do with their tokens without the program: send them to each other (LP tokens too), give them to a
/// vault, or burn LP tokens.
fn tokens(s: &mut S, r: &mut Rng, e: &mut Env) {
    let p = r.pick(&e.pools).clone();
    let from = r.pick(&e.users).clone();
    let m = *r.pick(&[p.lp, p.lp, p.xm, p.ym]);
    let a = from.tok[&m];
    let n = match r.below(3) {
        _ if m != p.lp => r.below(1_000_000_000).min(e.w.amount(&a) / 100),
        0 => e.w.amount(&a),
        1 => e.w.amount(&a).min(1),
        _ => r.below(e.w.amount(&a).min(1 << 40) + 1),
    };
    let vault = |m| if m == p.xm { p.xv } else { p.yv };
    if r.chance(0.7) {
        let to = r.pick(&e.users).clone();
        if to.key == from.key {
            return;
        }
        s.cov.count(if m == p.lp { "LP tokens sent to another user" } else { "tokens sent to another user" });
        s.log(format!("{} sends {} {} to {}", from.name, n, if m == p.lp { "LP" } else { "tokens" }, to.name));
        e.w.add(&a, -(n as i128));
        e.w.add(&to.tok[&m], n as i128);
    } else if m == p.lp {
        s.cov.count("LP tokens burnt by their owner");
        s.log(format!("{} burns {} LP of {}", from.name, n, p.name));
        e.w.add(&a, -(n as i128));
        e.w.add_supply(&m, -(n as i128));
    } else if e.w.token(&vault(m)).is_some() {
        s.cov.count("tokens given to a vault");
        s.log(format!("{} gives {} to a vault of {}", from.name, n, p.name));
        e.w.add(&a, -(n as i128));
        e.w.add(&vault(m), n as i128);
    }
}

/// Everybody leaves, in any order: all are paid.
fn exits(s: &mut S, r: &mut Rng, e: &Env) {
    if !s.on("C27") {
        return;
    }
    let mut e = e.clone();
    let mut v: Vec<Pos> = e.positions.values().cloned().collect();
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
    let n0 = s.trace.len();
    for q in v {
        let p = e.pools[q.pool].clone();
        let u = &e.users[q.user];
        let cap = ((e.liq(&p.pos_key(&u.key, q.l, q.u)) / ONE) as u64).min(e.w.amount(&u.tok[&p.lp]));
        if cap > 0 {
            try_withdraw(s, &mut e, q, cap, Some(true));
        }
    }
    s.trace.truncate(n0);
}
