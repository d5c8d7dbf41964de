//! C33: what the pools report of an operation is what it did. The pools announce the amounts of a
//! deposit, withdrawal or swap on standard output and nowhere else; here their output is captured,
//! one operation at a time, and compared with the pool before and after.
use crate::amm::*;
use crate::checks::*;
use crate::util::*;
use std::cell::RefCell;
use std::os::unix::io::FromRawFd;
use std::os::unix::fs::FileExt;

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
}

struct Note {
    class: String,
    ok: bool,
    what: String,
}
thread_local! {
    static CAPTURE: RefCell<Option<std::fs::File>> = RefCell::new(None);
    static NOTES: RefCell<Vec<Note>> = RefCell::new(vec![]);
}

/// standard output goes to a file in memory from here on (one worker thread only)
fn capture() {
    CAPTURE.with(|c| {
        if c.borrow().is_none() {
            unsafe {
                let fd = memfd_create(b"stdout\0".as_ptr(), 0);
                assert!(fd >= 0, "no memory file");
                dup2(fd, 1);
                *c.borrow_mut() = Some(std::fs::File::from_raw_fd(fd));
            }
        }
    })
}
fn clear() {
    CAPTURE.with(|c| {
        if let Some(f) = c.borrow().as_ref() {
            f.set_len(0).unwrap();
            unsafe { lseek(1, 0, 0) };
        }
    })
}
fn text() -> String {
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    CAPTURE.with(|c| {
        let c = c.borrow();
        let f = match c.as_ref() {
            Some(f) => f,
            None => return String::new(),
        };
        let n = f.metadata().unwrap().len() as usize;
        let mut b = vec![0u8; n];
        f.read_exact_at(&mut b, 0).unwrap();
        String::from_utf8_lossy(&b).into_owned()
    })
}

/// a printed number, in units of 1e-12: a decimal's debug form or plain notation
fn number(t: &str) -> Option<i128> {
    let t = t.trim_start_matches(|c: char| c == ' ' || c == '=' || c == ':');
    if t.starts_with("Decimal {") {
        let body = &t[9..t.find('}')?];
        let get = |k: &str| body.split(',').find_map(|f| {
            let mut p = f.splitn(2, ':');
            if p.next()?.trim() == k { p.next().map(|v| v.trim().to_string()) } else { None }
        });
        let (v, s): (u128, u32) = (get("value")?.parse().ok()?, get("scale")?.parse().ok()?);
        let v = if s <= 12 { v.checked_mul(10u128.pow(12 - s))? } else { v / 10u128.checked_pow(s - 12)? };
        let v = v as i128;
        return Some(if get("negative")? == "true" { -v } else { v });
    }
    let end = t.find(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-' || c == 'e' || c == 'E' || c == '+')).unwrap_or(t.len());
    let t = &t[..end];
    let (neg, u) = if t.starts_with('-') { (true, &t[1..]) } else { (false, t) };
    if u.is_empty() {
        return None;
    }
    let v = if u.contains('e') || u.contains('E') {
        fx(u.parse::<f64>().ok()?)
    } else {
        let mut p = u.splitn(2, '.');
        let (i, f) = (p.next()?, p.next().unwrap_or(""));
        let mut fr: String = f.chars().take(12).collect();
        while fr.len() < 12 {
            fr.push('0');
        }
        let up = f.len() > 12 && f.as_bytes()[12] >= b'5';
        i.parse::<i128>().ok()?.checked_mul(ONE)?.checked_add(fr.parse::<i128>().ok()?)? + up as i128
    };
    Some(if neg { -v } else { v })
}
/// the number announced after one of these words
fn said(text: &str, keys: &[&str]) -> Option<i128> {
    let low = text.to_ascii_lowercase();
    for k in keys {
        let k = k.to_ascii_lowercase();
        if let Some(at) = low.find(&k) {
            if let Some(v) = number(&text[at + k.len()..]) {
                return Some(v);
            }
        }
    }
    None
}

fn note(class: &str, got: Option<i128>, want: i128, tol: i128, what: &str) {
    let (class, ok) = match got {
        None => (format!("not announced: {}", class), true),
        Some(g) => (format!("announced {} is what happened", class), (g - want).abs() <= tol),
    };
    NOTES.with(|n| n.borrow_mut().push(Note { class, ok, what: if ok { String::new() } else { format!("{}: announced {}e-12, happened {}e-12", what, got.unwrap_or(0), want) } }))
}

/// A pool whose announcements are checked at every operation.
#[derive(Clone)]
pub struct Rep<A: Amm>(A);
impl<A: Amm> Rep<A> {
    fn tol(a: &Snap, b: &Snap, more: &[i128]) -> i128 {
        if !A::FLOAT {
            return 0;
        }
        let m = a.x.iter().chain(a.y.iter()).chain(b.x.iter()).chain(b.y.iter()).chain(more.iter()).map(|v| v.abs()).max().unwrap_or(0);
        12 + (ff(m) * 1e12 * 4e-15) as i128
    }
    fn swap(&mut self, a: i128, o: i128, from_x: bool) -> Out {
        let pre = self.0.snap();
        clear();
        let out = if from_x { self.0.swap_x(a, o) } else { self.0.swap_y(a, o) };
        let t = text();
        let s = self.0.snap();
        let tol = Self::tol(&pre, &s, &[a]);
        let w = format!("{} swap of {}e-12 {}", A::NAME, a, if from_x { "X" } else { "Y" });
        let tot = |v: [i128; 3]| v[0] + v[1] + v[2];
        // input: reserve and fee pot grow by it; output: reserve shrinks by it and by the adjustment
        let (dx, dy) = (tot(s.x) - tot(pre.x), tot(s.y) - tot(pre.y));
        note("swapped X", said(&t, &["swpd_dX"]), dx, tol, &w);
        note("swapped Y", said(&t, &["swpd_dY"]), dy, tol, &w);
        note("X reserve", said(&t, &["pool_X"]), s.x[0], tol, &w);
        note("Y reserve", said(&t, &["pool_Y"]), s.y[0], tol, &w);
        let (i, o2) = if from_x { (dx, dy) } else { (dy, dx) };
        let (fee, adj) = if from_x { (s.x[2] - pre.x[2], s.y[1] - pre.y[1]) } else { (s.y[2] - pre.y[2], s.x[1] - pre.x[1]) };
        note("adjustment", said(&t, &["adjusted_dY", "adjusted_dX"]), adj, tol, &w);
        note("adjustments collected so far", said(&t, &["pool_cumul_Y_adj", "pool_cumul_X_adj"]), if from_x { s.y[1] } else { s.x[1] }, tol, &w);
        note("fee", said(&t, &["total_fee_X", "total_fee_Y"]), fee, tol, &w);
        note("fees collected so far", said(&t, &["pool_cumul_X_fee", "pool_cumul_Y_fee"]), if from_x { s.x[2] } else { s.y[2] }, tol, &w);
        // prices: Y per X, at any usable size
        let (nx, ny) = if from_x { (i, -o2) } else { (-o2, i) };
        if nx > 100 * tol.max(1) && i > 0 {
            let avg = ny as f64 / nx as f64;
            let rel = 1e-9 + 4.0 * (tol + 1) as f64 / nx.min(ny.max(1)) as f64;
            if rel < 1e-3 {
                note("average price", said(&t, &["avg_P"]), fx(avg), 4 + (avg * 1e12 * rel) as i128, &w);
            }
        }
        let end = s.rpf * s.rpf;
        note("end price", said(&t, &["end_P"]), fx(end), 4 + (end * 1e12 * 1e-11) as i128, &w);
        // and what the caller is handed says the same
        note("result: amount in", Some(out.recv), i, tol, &w);
        note("result: amount out", Some(out.send), o2, tol, &w);
        note("result: adjustment", Some(out.adj), adj, tol, &w);
        note("result: fee", Some(out.fee), fee, tol, &w);
        out
    }
}
impl<A: Amm> Amm for Rep<A> {
    const NAME: &'static str = A::NAME;
    const FLOAT: bool = A::FLOAT;
    fn of_tokens(p: &Params, k: usize) -> Self {
        Rep(A::of_tokens(p, k))
    }
    fn place(&mut self, s: &Snap) {
        self.0.place(s)
    }
    fn deposit(&mut self, u: usize, x: i128, y: i128, rpa: i128, rpb: i128) {
        let pre = self.0.snap();
        clear();
        self.0.deposit(u, x, y, rpa, rpb);
        let t = text();
        let s = self.0.snap();
        let tol = Self::tol(&pre, &s, &[x, y]);
        let w = format!("{} deposit of {}e-12 X and {}e-12 Y", A::NAME, x, y);
        let tot = |v: [i128; 3]| v[0] + v[1] + v[2];
        let (dx, dy) = (tot(s.x) - tot(pre.x), tot(s.y) - tot(pre.y));
        let (px, py) = (pre.x[1] + pre.x[2] - s.x[1] - s.x[2], pre.y[1] + pre.y[2] - s.y[1] - s.y[2]);
        note("X debited", said(&t, &["x_debited"]), dx, tol, &w);
        note("Y debited", said(&t, &["y_debited"]), dy, tol, &w);
        note("X fees included", said(&t, &["fees_x+adj_x"]), px, tol, &w);
        note("Y fees included", said(&t, &["fees_y+adj_y"]), py, tol, &w);
        note("X returned", said(&t, &["X returned"]), x - dx, tol, &w);
        note("Y returned", said(&t, &["Y returned"]), y - dy, tol, &w);
    }
    fn withdraw(&mut self, u: usize, l: i128, rpa: i128, rpb: i128) {
        let pre = self.0.snap();
        clear();
        self.0.withdraw(u, l, rpa, rpb);
        let t = text();
        let s = self.0.snap();
        let tol = Self::tol(&pre, &s, &[]);
        let w = format!("{} withdrawal of {}e-12", A::NAME, l);
        let tot = |v: [i128; 3]| v[0] + v[1] + v[2];
        let (dx, dy) = (tot(pre.x) - tot(s.x), tot(pre.y) - tot(s.y));
        let (px, py) = (pre.x[1] + pre.x[2] - s.x[1] - s.x[2], pre.y[1] + pre.y[2] - s.y[1] - s.y[2]);
        note("X sent", said(&t, &["x_sent"]), dx, tol, &w);
        note("Y sent", said(&t, &["y_sent"]), dy, tol, &w);
        note("X fees included", said(&t, &["fees_x+adj_x", "including"]), px, tol, &w);
        note("Y fees included", said(&t, &["fees_y+adj_y", " & "]), py, tol, &w);
    }
    fn swap_x(&mut self, a: i128, o: i128) -> Out {
        self.swap(a, o, true)
    }
    fn swap_y(&mut self, a: i128, o: i128) -> Out {
        self.swap(a, o, false)
    }
    fn snap(&self) -> Snap {
        self.0.snap()
    }
    fn rp_of(t: i64) -> i128 {
        A::rp_of(t)
    }
    fn rpf_of(t: i64) -> f64 {
        A::rpf_of(t)
    }
}

pub fn c33(id: &'static str, seed: u64, i: u64, cov: &mut Cov) {
    capture();
    NOTES.with(|n| n.borrow_mut().clear());
    let mut inner = Cov::new();
    if i % 2 == 0 {
        history::<Rep<Dec>>(id, seed ^ 0x3333, i / 2, &mut inner, false);
    } else {
        history::<Rep<Flo>>(id, seed ^ 0x3333, i / 2, &mut inner, false);
    }
    for h in inner.distinct {
        cov.state(h);
    }
    for n in NOTES.with(|n| n.borrow_mut().drain(..).collect::<Vec<_>>()) {
        if n.class.starts_with("not announced") {
            cov.count(&n.class);
            continue;
        }
        cov.eval(&n.class);
        if !n.ok {
            cov.fail(&format!("{}:{}", id, n.class), n.what, &[], i);
        }
    }
}
