//! The table of properties and how each is exercised.
use crate::fresh;
use crate::same;
use crate::amm;
use crate::bitmap;
use crate::hist;
use crate::math;
use crate::num;
use crate::report;
use crate::sim;
use crate::util::*;

pub struct Check {
    pub id: &'static str,
    pub scen: fn(&'static str, u64, u64, &mut Cov),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn find(id: &str) -> &'static Check {
    CHECKS.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {}", id);
        std::process::exit(2)
    })
}

pub fn history<A: amm::Amm>(id: &'static str, seed: u64, i: u64, cov: &mut Cov, explore: bool) {
    let mut cx = hist::Ctx { prop: id, cov, scenario: 0, trace: vec![], explore, dust: [0.0; 2], peak: [0.0; 6] };
    hist::run_history::<A>(seed, i, &mut cx);
}
fn dec(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
    if id == "C12" && i == 0 {
        hist::dust_exit::<amm::Dec>(cov);
    }
    history::<amm::Dec>(id, seed, i, cov, false)
}
fn dec_all(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
    history::<amm::Dec>(id, seed, i, cov, true)
}
fn flo_all(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
    history::<amm::Flo>(id, seed, i, cov, true)
}

macro_rules! numeric {
    ($f:ident) => {{
        fn s(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
            let mut r = Rng::new(seed ^ 0x5151, i);
            let mut n = num::NC { prop: id, cov, scenario: i };
            num::$f(&mut r, &mut n)
        }
        s
    }};
}

const R_NUM: &str = "one evaluation = one operation of the decimal type on generated operands (edge values, powers of ten, random bit lengths, all signs and scales) judged against exact 512-bit arithmetic; distinct = distinct operand tuples";
const R_MATH: &str = "one evaluation = one result of the pools' tick or liquidity formulas judged against exact integer arithmetic (decimal pool) or double precision (floating-point pool); the first 1407 scenarios visit every tick from 0 to 90000; distinct = distinct ticks, or price and range tuples";
const R_HIST: &str = "one evaluation = one monitor verdict on a step of a generated pool history (deposits, withdrawals, swaps in both directions over overlapping, adjacent and gapped ranges, price aimed at tick boundaries, HMM oracle on either side); distinct = distinct pool states (tick, price, liquidity, reserves, number of positions and ticks) reached";
const R_BIT: &str = "one evaluation = one answer of the tick bitmap (is active, next active tick left or right, whole map) compared with an ordered set of the activated ticks, at byte and word edges, the ends of the map, sparse and dense maps; distinct = distinct sets of active ticks";
const R_SIM: &str = "one evaluation = one monitor verdict on the accounts before and after an instruction of the real program entry point, run in an in-process runtime (two pools, three users, real token program); distinct = distinct pool states and distinct ways of refusing hostile instructions";
const R_NEW: &str = "one evaluation = one monitor verdict on a pool just created (decimal and floating-point) and on its first operation; distinct = distinct creation parameters";
const R_SAME: &str = "one evaluation = one comparison of a pool with its twin: the same history under other names, two deposits exchanged, or a new pool given its price and positions and traded alike; distinct = distinct pool states reached";
const R_REP: &str = "one evaluation = one amount or price announced by a pool operation (standard output, or the result of a swap) compared with the change of the pool's reserves and pots; distinct = distinct pool states reached";
const R_OVF: &str = "one evaluation = one monitored operation of the workloads of all other properties, run in a build that traps integer overflow; a trap inside the repository is a violation; distinct = distinct operands and states of those workloads";
const A_OVF: &[&str] = &["same sources and optimization as the release build, with overflow checks on; narrowing casts are not trapped (C01, C02 and C24 judge their results)"];
const A_NUM: &[&str] = &["release build, overflow checks off, as shipped"];
const A_HIST: &[&str] = &[
    "an operation that panics counts as rejected and the pool is rolled back to its state before it (the in-memory pool has no rollback of its own)",
    "amounts up to about 1e7 units, prices 1 to 100, up to 35 operations per history",
];

const A_SIM: &[&str] = &[
    "accounts, signatures, cross-program calls and rollback are those of the harness's runtime (chain.rs), not of a validator; the token program is the real spl-token 3.2.0 processor",
    "program addresses are not guessable: accounts owned by the program exist only where the program created them",
];
const A_FEE: &[&str] = &[
    "accounts, signatures, cross-program calls and rollback are those of the harness's runtime (chain.rs), not of a validator",
    "the program has no swap instruction: fee growth is written into the pool's and ticks' accounts by the harness, as swaps at chosen ticks would leave it",
];
const A_FLO: &[&str] = &[
    "an operation that panics counts as rejected and the pool is rolled back to its state before it",
    "tolerances are those of double precision at the sizes involved; liquidity is whole units",
    "an oracle is always given (the floating-point pool has no value that stands for none)",
];

macro_rules! h {
    ($id:expr, $q:expr, $t:expr) => {
        Check { id: $id, scen: dec, quick: $q, thorough: $t, rule: R_HIST, assumptions: A_HIST }
    };
}
macro_rules! n {
    ($id:expr, $f:ident, $q:expr, $t:expr) => {
        Check { id: $id, scen: numeric!($f), quick: $q, thorough: $t, rule: R_NUM, assumptions: A_NUM }
    };
}

macro_rules! m {
    ($id:expr, $f:ident, $q:expr, $t:expr) => {{
        fn s(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
            let mut r = Rng::new(seed ^ 0x7171, i);
            let mut n = num::NC { prop: id, cov, scenario: i };
            math::$f(&mut r, &mut n)
        }
        Check { id: $id, scen: s, quick: $q, thorough: $t, rule: R_MATH, assumptions: A_NUM }
    }};
}

fn bit(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
    let mut r = Rng::new(seed ^ 0x2323, i);
    bitmap::c23(&mut r, &mut num::NC { prop: id, cov, scenario: i })
}

fn prog(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
    let mut r = Rng::new(seed ^ 0x2424, i);
    sim::run(&mut r, &mut sim::S { prop: id, cov, scenario: i, trace: vec![] })
}
macro_rules! g {
    ($id:expr, $f:path, $q:expr, $t:expr, $rule:expr, $a:expr) => {{
        fn s(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
            let mut r = Rng::new(seed ^ 0x3636, i);
            $f(&mut r, &mut num::NC { prop: id, cov, scenario: i })
        }
        Check { id: $id, scen: s, quick: $q, thorough: $t, rule: $rule, assumptions: $a }
    }};
}
macro_rules! p {
    ($id:expr, $q:expr, $t:expr) => {
        Check { id: $id, scen: prog, quick: $q, thorough: $t, rule: R_SIM, assumptions: A_SIM }
    };
}

/// C29: every other workload again, in the build where integer overflow panics
fn overflow(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
    let mut inner = Cov::new();
    OVERFLOWS.with(|o| o.borrow_mut().clear());
    let (fam, j) = (i % 16, i / 16);
    let mut r = Rng::new(seed ^ 0x2929, i);
    let name;
    let res = attempt(|| {
        let n = |c: &mut Cov, f: fn(&mut Rng, &mut num::NC), r: &mut Rng| f(r, &mut num::NC { prop: id, cov: c, scenario: j });
        match fam {
            0 => n(&mut inner, num::c01, &mut r),
            1 => n(&mut inner, num::c02, &mut r),
            2 => n(&mut inner, num::c03, &mut r),
            3 => n(&mut inner, num::c04, &mut r),
            4 => n(&mut inner, num::c05, &mut r),
            5 => n(&mut inner, num::c06, &mut r),
            6 => n(&mut inner, num::c07, &mut r),
            7 => n(&mut inner, math::c08, &mut r),
            8 => n(&mut inner, math::c09, &mut r),
            9 | 10 | 11 => history::<amm::Dec>(id, seed ^ 0x2929, j * 3 + fam - 9, &mut inner, true),
            12 => history::<amm::Flo>(id, seed ^ 0x2929, j, &mut inner, true),
            13 => bitmap::c23(&mut r, &mut num::NC { prop: id, cov: &mut inner, scenario: j }),
            _ => sim::run(&mut r, &mut sim::S { prop: "prog", cov: &mut inner, scenario: j, trace: vec![] }),
        }
    });
    name = ["add/sub/mul/div", "rescaling", "comparison", "square root", "logarithm", "power", "text", "ticks", "formulas", "decimal pool", "decimal pool", "decimal pool", "float pool", "bitmap", "program", "program"][fam as usize];
    cov.evaluations += inner.evaluations + 1;
    *cov.counts.entry(format!("operations monitored: {}", name)).or_insert(0) += inner.evaluations;
    for h in inner.distinct {
        cov.state(h);
    }
    drop(res); // what the other monitors think is theirs to say
    let o = OVERFLOWS.with(|o| o.borrow_mut().drain(..).collect::<Vec<_>>());
    if let Some(first) = o.first() {
        let at = first.rsplit(" @ ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
        cov.fail(&format!("{}:integer overflow at {}", id, at), format!("{} ({} times in this {} scenario)", first, o.len(), name), &[], i);
    }
}

pub static CHECKS: &[Check] = &[
    m!("C08", c08, 6000, 60_000),
    m!("C09", c09, 40_000, 600_000),
    n!("C01", c01, 30_000, 300_000),
    n!("C02", c02, 40_000, 600_000),
    n!("C03", c03, 200_000, 2_000_000),
    n!("C04", c04, 100_000, 1_000_000),
    n!("C05", c05, 100_000, 2_000_000),
    n!("C06", c06, 60_000, 2_000_000),
    n!("C07", c07, 100_000, 1_000_000),
    h!("C10", 20_000, 400_000),
    h!("C11", 20_000, 400_000),
    h!("C12", 20_000, 400_000),
    h!("C13", 20_000, 400_000),
    h!("C14", 20_000, 400_000),
    h!("C15", 20_000, 400_000),
    h!("C16", 20_000, 400_000),
    h!("C17", 20_000, 400_000),
    h!("C18", 20_000, 400_000),
    h!("C19", 20_000, 400_000),
    h!("C20", 20_000, 400_000),
    h!("C21", 20_000, 400_000),
    h!("C30", 20_000, 400_000),
    Check { id: "C22", scen: flo_all, quick: 15_000, thorough: 600_000, rule: R_HIST, assumptions: A_FLO },
    Check { id: "C23", scen: bit, quick: 10_000, thorough: 300_000, rule: R_BIT, assumptions: &["ticks 0 to 79999, the size of the map"] },
    p!("C24", 9000, 150_000),
    p!("C25", 9000, 150_000),
    p!("C26", 9000, 150_000),
    p!("C27", 9000, 150_000),
    p!("C28", 9000, 150_000),
    p!("prog", 0, 0),
    Check { id: "C29", scen: overflow, quick: 40_000, thorough: 1_600_000, rule: R_OVF, assumptions: A_OVF },
    Check { id: "C34", scen: prog, quick: 9000, thorough: 150_000, rule: R_SIM, assumptions: A_FEE },
    Check { id: "C33", scen: report::c33, quick: 3000, thorough: 60_000, rule: R_REP, assumptions: &["one operation at a time: the standard output of the process is captured", "an amount that is not announced, or not in a form that can be read, is counted and not judged", "floating-point pool: to the precision of the numbers involved"] },
    g!("C35", fresh::c35, 20_000, 1_000_000, R_NEW, &["root prices from 1 to that of tick 60000, spacings up to 1000"]),
    g!("C36", same::c36, 6000, 150_000, R_SAME, &["the price of the second pool is set through the pools' public setters", "floating-point pool: positions of whole liquidity"]),
    Check { id: "dec", scen: dec_all, quick: 0, thorough: 0, rule: R_HIST, assumptions: A_HIST },
    Check { id: "float", scen: flo_all, quick: 0, thorough: 0, rule: R_HIST, assumptions: A_HIST },
];
