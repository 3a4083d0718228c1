//! Minimal natural-number arithmetic for the reference models (little-endian
//! 64-bit limbs, no leading zero limbs).
use std::cmp::Ordering;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Big(pub Vec<u64>);
impl Big {
    pub fn zero() -> Self {
        Big(vec![])
    }
    pub fn from_u128(x: u128) -> Self {
        let mut b = Big(vec![x as u64, (x >> 64) as u64]);
        b.trim();
        b
    }
    pub fn from_bits(b: (u128, u128)) -> Self {
        let mut r = Big(vec![b.1 as u64, (b.1 >> 64) as u64, b.0 as u64, (b.0 >> 64) as u64]);
        r.trim();
        r
    }
    pub fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> u64 {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() as u64 * 64 - t.leading_zeros() as u64,
        }
    }
    pub fn mul_small_add(&mut self, m: u64, a: u64) {
        let mut c = a as u128;
        for l in self.0.iter_mut() {
            c += *l as u128 * m as u128;
            *l = c as u64;
            c >>= 64;
        }
        if c > 0 {
            self.0.push(c as u64);
        }
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for (i, &x) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, &y) in o.0.iter().enumerate() {
                c += x as u128 * y as u128 + r[i + j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        let mut b = Big(r);
        b.trim();
        b
    }
    pub fn shl(&self, n: u64) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let w = (n / 64) as usize;
        let s = (n % 64) as u32;
        let mut r = vec![0u64; w];
        if s == 0 {
            r.extend_from_slice(&self.0);
        } else {
            let mut c = 0u64;
            for &x in &self.0 {
                r.push(x << s | c);
                c = x >> (64 - s);
            }
            if c > 0 {
                r.push(c);
            }
        }
        Big(r)
    }
    /// (self >> n, any bit lost)
    pub fn shr_sticky(&self, n: u64) -> (Big, bool) {
        let w = (n / 64) as usize;
        let s = (n % 64) as u32;
        if w >= self.0.len() {
            return (Big::zero(), !self.is_zero());
        }
        let mut lost = self.0[..w].iter().any(|&x| x != 0);
        let v = &self.0[w..];
        let mut r = Vec::with_capacity(v.len());
        if s == 0 {
            r.extend_from_slice(v);
        } else {
            lost |= v[0] << (64 - s) != 0;
            for i in 0..v.len() {
                let hi = if i + 1 < v.len() { v[i + 1] << (64 - s) } else { 0 };
                r.push(v[i] >> s | hi);
            }
        }
        let mut b = Big(r);
        b.trim();
        (b, lost)
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| {
            for i in (0..self.0.len()).rev() {
                let c = self.0[i].cmp(&o.0[i]);
                if c != Ordering::Equal {
                    return c;
                }
            }
            Ordering::Equal
        })
    }
    pub fn add_small(&mut self, a: u64) {
        let mut c = a;
        for l in self.0.iter_mut() {
            let (x, o) = l.overflowing_add(c);
            *l = x;
            if !o {
                return;
            }
            c = 1;
        }
        if c > 0 {
            self.0.push(c);
        }
    }
    pub fn low_bit(&self) -> bool {
        self.0.first().map_or(false, |x| x & 1 == 1)
    }
    /// (self / d, remainder != 0), Knuth algorithm D
    pub fn div_sticky(&self, d: &Big) -> (Big, bool) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less {
            return (Big::zero(), !self.is_zero());
        }
        if d.0.len() == 1 {
            let mut r = 0u128;
            let mut q = vec![0u64; self.0.len()];
            for i in (0..self.0.len()).rev() {
                let x = r << 64 | self.0[i] as u128;
                q[i] = (x / d.0[0] as u128) as u64;
                r = x % d.0[0] as u128;
            }
            let mut q = Big(q);
            q.trim();
            return (q, r != 0);
        }
        let s = d.0.last().unwrap().leading_zeros() as u64;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        u.resize(self.0.len() + 1, 0);
        let n = v.len();
        let m = u.len() - n;
        let mut q = vec![0u64; m];
        for j in (0..m).rev() {
            let num = (u[j + n] as u128) << 64 | u[j + n - 1] as u128;
            let (mut qh, mut rh) = if u[j + n] >= v[n - 1] {
                (u64::MAX as u128, num - (u64::MAX as u128) * v[n - 1] as u128)
            } else {
                (num / v[n - 1] as u128, num % v[n - 1] as u128)
            };
            while rh >> 64 == 0 && qh * v[n - 2] as u128 > (rh << 64 | u[j + n - 2] as u128) {
                qh -= 1;
                rh += v[n - 1] as u128;
            }
            let mut borrow = 0u128;
            let mut carry = 0u128;
            for i in 0..n {
                carry += qh * v[i] as u128;
                let sub = (carry as u64) as u128 + borrow;
                carry >>= 64;
                let (x, b) = (u[i + j] as u128).overflowing_sub(sub);
                u[i + j] = x as u64;
                borrow = b as u128;
            }
            let (x, b) = (u[j + n] as u128).overflowing_sub(carry + borrow);
            u[j + n] = x as u64;
            if b {
                qh -= 1;
                let mut c = 0u128;
                for i in 0..n {
                    c += u[i + j] as u128 + v[i] as u128;
                    u[i + j] = c as u64;
                    c >>= 64;
                }
                u[j + n] = u[j + n].wrapping_add(c as u64);
            }
            q[j] = qh as u64;
        }
        let rem = u[..n].iter().any(|&x| x != 0);
        let mut q = Big(q);
        q.trim();
        (q, rem)
    }
    /// decimal digits to natural number
    pub fn from_digits(d: &[u8]) -> Big {
        let mut b = Big::zero();
        for c in d.chunks(19) {
            let mut x = 0u64;
            for &k in c {
                x = x * 10 + k as u64;
            }
            b.mul_small_add(10u64.pow(c.len() as u32), x);
        }
        b.trim();
        b
    }
    pub fn to_decimal(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut v = self.0.clone();
        let mut parts = vec![];
        while !v.is_empty() {
            let mut r = 0u128;
            for x in v.iter_mut().rev() {
                let y = r << 64 | *x as u128;
                *x = (y / 10_000_000_000_000_000_000) as u64;
                r = y % 10_000_000_000_000_000_000;
            }
            while v.last() == Some(&0) {
                v.pop();
            }
            parts.push(r as u64);
        }
        let mut s = parts.pop().unwrap().to_string();
        for p in parts.iter().rev() {
            s += &format!("{p:019}");
        }
        s
    }
}
