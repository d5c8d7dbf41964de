//! Minimal exact 512-bit unsigned arithmetic for the numeric oracles.
use std::cmp::Ordering;

const N: usize = 8;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big(pub [u64; N]);

impl Big {
    pub fn from(v: u128) -> Big {
        let mut a = [0u64; N];
        a[0] = v as u64;
        a[1] = (v >> 64) as u64;
        Big(a)
    }
    pub fn zero() -> Big {
        Big([0; N])
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|v| *v == 0)
    }
    pub fn bits(&self) -> usize {
        for i in (0..N).rev() {
            if self.0[i] != 0 {
                return i * 64 + 64 - self.0[i].leading_zeros() as usize;
            }
        }
        0
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        for i in (0..N).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = [0u64; N];
        let mut c = 0u128;
        for i in 0..N {
            let s = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        assert!(c == 0, "big add");
        Big(r)
    }
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = [0u64; N];
        let mut b = 0i128;
        for i in 0..N {
            let s = self.0[i] as i128 - o.0[i] as i128 - b;
            r[i] = s as u64;
            b = if s < 0 { 1 } else { 0 };
        }
        assert!(b == 0, "big sub");
        Big(r)
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = [0u64; N];
        for i in 0..N {
            if self.0[i] == 0 {
                continue;
            }
            let mut c = 0u128;
            for j in 0..N {
                if i + j >= N {
                    assert!(o.0[j] == 0 || self.0[i] == 0, "big mul");
                    continue;
                }
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            assert!(c == 0, "big mul carry");
        }
        Big(r)
    }
    fn shl1(&mut self) {
        let mut c = 0;
        for i in 0..N {
            let n = self.0[i] >> 63;
            self.0[i] = (self.0[i] << 1) | c;
            c = n;
        }
    }
    /// quotient and remainder
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        let mut q = Big::zero();
        let mut r = Big::zero();
        for i in (0..self.bits()).rev() {
            r.shl1();
            r.0[0] |= (self.0[i / 64] >> (i % 64)) & 1;
            if r.cmp(d) != Ordering::Less {
                r = r.sub(d);
                q.0[i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    pub fn div_floor(&self, d: &Big) -> Big {
        self.divrem(d).0
    }
    pub fn div_ceil(&self, d: &Big) -> Big {
        let (q, r) = self.divrem(d);
        if r.is_zero() {
            q
        } else {
            q.add(&Big::from(1))
        }
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0[2..].iter().any(|v| *v != 0) {
            None
        } else {
            Some(self.0[0] as u128 | (self.0[1] as u128) << 64)
        }
    }
    pub fn pow10(e: u32) -> Big {
        let mut r = Big::from(1);
        for _ in 0..e {
            r = r.mul(&Big::from(10));
        }
        r
    }
    /// floor of the square root
    pub fn isqrt(&self) -> Big {
        let mut r = Big::zero();
        let b = (self.bits() + 1) / 2;
        for i in (0..b).rev() {
            let mut t = r;
            t.0[i / 64] |= 1 << (i % 64);
            if t.mul(&t).cmp(self) != Ordering::Greater {
                r = t;
            }
        }
        r
    }
}
