//! C23: the tick bitmap against an ordered set.
use crate::num::NC;
use crate::util::*;
use hmmcl_sandbox::state::tick_bitmap::*;
use std::collections::BTreeSet;

const N: i32 = (TICK_BITMAP_SIZE * 8) as i32;

fn tick(r: &mut Rng, s: &BTreeSet<i32>, base: i32) -> i32 {
    let t = match r.below(12) {
        0 => r.below(20) as i32,
        1 => N - 1 - r.below(20) as i32,
        2 => (r.below(N as u64 / 8) * 8) as i32 + *r.pick(&[0, 7, 1]),
        3 => (r.below(N as u64 / 64) * 64) as i32 - 1 + r.below(3) as i32,
        4 | 5 | 6 if !s.is_empty() => {
            let from = r.below(N as u64) as i32;
            let p = *s.range(from..).next().unwrap_or_else(|| s.iter().next().unwrap());
            p + r.range(-9, 9) as i32
        }
        7 | 8 => base + r.range(-40, 40) as i32,
        9 if !s.is_empty() => *s.range(r.below(N as u64) as i32..).next().unwrap_or_else(|| s.iter().next_back().unwrap()),
        _ => r.below(N as u64) as i32,
    };
    t.max(0).min(N - 1)
}

fn image(b: &PoolTickBitmap) -> Vec<u8> {
    b.tick_map.to_vec()
}
fn of_set(s: &BTreeSet<i32>) -> Vec<u8> {
    let mut v = vec![0u8; TICK_BITMAP_SIZE];
    for t in s {
        v[(*t / 8) as usize] |= 1 << (*t % 8);
    }
    v
}

pub fn c23(r: &mut Rng, n: &mut NC) {
    let mut b = Box::new(PoolTickBitmap::default());
    b.bump = r.below(256) as u8;
    let bump = b.bump;
    let mut s: BTreeSet<i32> = BTreeSet::new();
    n.ck("a new bitmap is empty", b.tick_map.iter().all(|x| *x == 0), || "new bitmap has active ticks".into());
    let base = r.below(N as u64) as i32;
    let dense = r.below(4);
    let steps = if dense == 0 { 8 } else { 40 + r.below(80) };
    for step in 0..steps {
        match r.below(10) {
            0..=3 => {
                if dense == 3 && r.chance(0.2) {
                    let t0 = tick(r, &s, base);
                    for t in t0..(t0 + r.below(40) as i32).min(N) {
                        b.activate_tick(t);
                        s.insert(t);
                    }
                }
                let t = tick(r, &s, base);
                let e = attempt(|| b.activate_tick(t));
                s.insert(t);
                n.ck("any tick of the map can be activated", e.is_ok(), || format!("activate {}: {:?}", t, e));
            }
            4 | 5 => {
                let t = tick(r, &s, base);
                let e = attempt(|| b.unset_tick(t));
                s.remove(&t);
                n.ck("any tick of the map can be deactivated", e.is_ok(), || format!("unset {}: {:?}", t, e));
            }
            _ => {}
        }
        // the map as a whole: exactly the active ticks
        if step % 8 == 7 || step + 1 == steps {
            let ok = image(&b) == of_set(&s) && b.bump == bump;
            n.ck("only the named tick changes", ok, || format!("after {} steps the map is not the set of its {} active ticks", step + 1, s.len()));
            if !ok {
                return;
            }
        }
        n.cov.state(hash64(&[s.len() as i128, *s.iter().next().unwrap_or(&-1) as i128, *s.iter().next_back().unwrap_or(&-1) as i128, s.iter().map(|t| (*t as i128) * (*t as i128 + 7)).sum()]));
        for _ in 0..6 {
            let t = tick(r, &s, base);
            let g = attempt(|| b.tick_is_active(t));
            n.ck("a tick is active iff activated", g == Ok(s.contains(&t)), || format!("tick {}: {:?}, expected {}", t, g, s.contains(&t)));
            let lo = s.range(..t).next_back().cloned();
            let hi = s.range(t + 1..).next().cloned();
            let gl = attempt(|| b.get_next_tick(t, 0));
            n.ck("next active tick to the left", gl == Ok(lo), || format!("left of {}: {:?}, expected {:?}", t, gl, lo));
            let gh = attempt(|| b.get_next_tick(t, 1));
            n.ck("next active tick to the right", gh == Ok(hi), || format!("right of {}: {:?}, expected {:?}", t, gh, hi));
        }
        if r.chance(0.1) {
            // outside the map: refused, and nothing else is touched
            let t = *r.pick(&[N, N + 1, N + 7, N + 8, -1, -2, -8, -9, i32::MAX / 2, i32::MIN / 2, N + 40000, -(N / 2), 2 * N]);
            let before = image(&b);
            let a = attempt(|| b.activate_tick(t)).is_err();
            let u = attempt(|| b.unset_tick(t)).is_err();
            let q = attempt(|| b.tick_is_active(t)).is_err();
            n.ck("ticks outside the map are refused", a && u && q && before == image(&b), || {
                format!("tick {}: activate refused {}, unset refused {}, query refused {}, map untouched {}", t, a, u, q, before == image(&b))
            });
        }
    }
    // walking the map visits every active tick once, in order
    let mut seen = vec![];
    let mut at = 0;
    if s.contains(&0) {
        seen.push(0);
    }
    while let Ok(Some(t)) = attempt(|| b.get_next_tick(at, 1)) {
        if t <= at || seen.len() > s.len() {
            seen.push(-1);
            break;
        }
        seen.push(t);
        at = t;
    }
    n.ck("walking right visits the active ticks in order", seen.iter().eq(s.iter()), || format!("visited {} of {} ticks, first difference {:?}", seen.len(), s.len(), seen.iter().zip(s.iter()).find(|(a, b)| a != b)));
    let mut seen = vec![];
    let mut at = N - 1;
    if s.contains(&at) {
        seen.push(at);
    }
    while let Ok(Some(t)) = attempt(|| b.get_next_tick(at, 0)) {
        if t >= at || seen.len() > s.len() {
            seen.push(-1);
            break;
        }
        seen.push(t);
        at = t;
    }
    n.ck("walking left visits the active ticks in order", seen.iter().eq(s.iter().rev()), || format!("visited {} of {} ticks", seen.len(), s.len()));
    // within one byte
    for _ in 0..20 {
        let (byte, ix) = (r.below(256) as u8, r.below(8) as u8);
        let bits: Vec<u8> = (0..8).filter(|i| byte >> i & 1 == 1).collect();
        let w = [
            bits.iter().rev().find(|i| **i < ix).cloned(),
            bits.iter().find(|i| **i > ix).cloned(),
            bits.last().cloned(),
            bits.first().cloned(),
        ];
        let g = [byte_get_next_tick(byte, 0, ix, true), byte_get_next_tick(byte, 1, ix, true), byte_get_next_tick(byte, 0, ix, false), byte_get_next_tick(byte, 1, ix, false)];
        n.ck("next set bit of a byte", w == g, || format!("byte {:08b} index {}: {:?}, expected {:?}", byte, ix, g, w));
    }
}
