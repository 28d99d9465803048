//! Exact natural numbers of any size. The oracles compute with these only, never with the arithmetic
//! of the code under test.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Big(Vec<u64>); // little endian, no leading zero limb

impl From<u128> for Big {
    fn from(v: u128) -> Self {
        Big(vec![v as u64, (v >> 64) as u64]).norm()
    }
}
impl From<u64> for Big {
    fn from(v: u64) -> Self {
        Big(vec![v]).norm()
    }
}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
}

pub fn big<T: Into<Big>>(v: T) -> Big {
    v.into()
}

impl Big {
    fn norm(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn zero() -> Big {
        Big(vec![])
    }
    pub fn one() -> Big {
        big(1u64)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn pow10(n: u32) -> Big {
        let mut r = Big::one();
        for _ in 0..n {
            r = r.mul(&big(10u64));
        }
        r
    }
    pub fn pow2(n: usize) -> Big {
        let mut v = vec![0u64; n / 64 + 1];
        v[n / 64] = 1 << (n % 64);
        Big(v)
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(l) => self.0.len() * 64 - l.leading_zeros() as usize,
        }
    }
    pub fn limb(&self, i: usize) -> u64 {
        self.0.get(i).copied().unwrap_or(0)
    }
    pub fn from_limbs(v: &[u64]) -> Big {
        Big(v.to_vec()).norm()
    }
    pub fn u128(&self) -> Option<u128> {
        if self.0.len() > 2 {
            return None;
        }
        Some(self.limb(0) as u128 | (self.limb(1) as u128) << 64)
    }
    pub fn sat128(&self) -> u128 {
        self.u128().unwrap_or(u128::MAX)
    }
    pub fn add(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u128;
        for i in 0..n {
            let s = self.limb(i) as u128 + o.limb(i) as u128 + c;
            v.push(s as u64);
            c = s >> 64;
        }
        v.push(c as u64);
        Big(v).norm()
    }
    pub fn checked_sub(&self, o: &Big) -> Option<Big> {
        if self < o {
            return None;
        }
        let mut v = Vec::with_capacity(self.0.len());
        let mut b = 0i128;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i128 - o.limb(i) as i128 - b;
            b = 0;
            if d < 0 {
                d += 1i128 << 64;
                b = 1;
            }
            v.push(d as u64);
        }
        Some(Big(v).norm())
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.checked_sub(o).expect("oracle subtraction below zero")
    }
    pub fn sat_sub(&self, o: &Big) -> Big {
        self.checked_sub(o).unwrap_or_default()
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut v = vec![0u64; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let mut c = 0u128;
            for j in 0..o.0.len() {
                let t = self.0[i] as u128 * o.0[j] as u128 + v[i + j] as u128 + c;
                v[i + j] = t as u64;
                c = t >> 64;
            }
            v[i + o.0.len()] = c as u64;
        }
        Big(v).norm()
    }
    fn shl(&self, n: usize) -> Big {
        let (w, b) = (n / 64, n % 64);
        let mut v = vec![0u64; w];
        let mut c = 0u64;
        for &l in &self.0 {
            v.push(if b == 0 { l } else { (l << b) | c });
            c = if b == 0 { 0 } else { l >> (64 - b) };
        }
        v.push(c);
        Big(v).norm()
    }
    pub fn shr(&self, n: usize) -> Big {
        let (w, b) = (n / 64, n % 64);
        if w >= self.0.len() {
            return Big::zero();
        }
        let mut v = Vec::new();
        for i in w..self.0.len() {
            let hi = if b == 0 { 0 } else { self.limb(i + 1) << (64 - b) };
            v.push((self.0[i] >> b) | hi);
        }
        Big(v).norm()
    }
    /// (quotient, remainder)
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero(), "oracle division by zero");
        if self < d {
            return (Big::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let dd = d.0[0] as u128;
            let mut r = 0u128;
            let mut q = vec![0u64; self.0.len()];
            for i in (0..self.0.len()).rev() {
                let cur = (r << 64) | self.0[i] as u128;
                q[i] = (cur / dd) as u64;
                r = cur % dd;
            }
            return (Big(q).norm(), big(r as u64));
        }
        // Knuth algorithm D
        let s = d.0.last().unwrap().leading_zeros() as usize;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        let n = v.len();
        while u.len() < self.0.len() + 1 {
            u.push(0);
        }
        let m = u.len() - n - 1;
        let mut q = vec![0u64; m + 1];
        let base = 1u128 << 64;
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
            let mut qh = num / v[n - 1] as u128;
            let mut rh = num % v[n - 1] as u128;
            while qh >= base || qh * v[n - 2] as u128 > ((rh << 64) | u[j + n - 2] as u128) {
                qh -= 1;
                rh += v[n - 1] as u128;
                if rh >= base {
                    break;
                }
            }
            let mut b = 0i128;
            let mut c = 0u128;
            for i in 0..n {
                let p = qh * v[i] as u128 + c;
                c = p >> 64;
                let t = u[i + j] as i128 - b - (p as u64) as i128;
                u[i + j] = t as u64;
                b = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i128 - b - c as i128;
            u[j + n] = t as u64;
            if t < 0 {
                qh -= 1;
                let mut c = 0u128;
                for i in 0..n {
                    let t = u[i + j] as u128 + v[i] as u128 + c;
                    u[i + j] = t as u64;
                    c = t >> 64;
                }
                u[j + n] = (u[j + n] as u128 + c) as u64;
            }
            q[j] = qh as u64;
        }
        (Big(q).norm(), Big(u).norm().shr(s))
    }
    pub fn div(&self, d: &Big) -> Big {
        self.divrem(d).0
    }
    pub fn isqrt(&self) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let mut x = Big::pow2((self.bits() + 1) / 2);
        loop {
            let y = x.add(&self.div(&x)).shr(1);
            if y >= x {
                return x;
            }
            x = y;
        }
    }
    pub fn parse(s: &str) -> Option<Big> {
        if s.is_empty() {
            return None;
        }
        let mut r = Big::zero();
        for c in s.bytes() {
            if !c.is_ascii_digit() {
                return None;
            }
            r = r.mul(&big(10u64)).add(&big((c - b'0') as u64));
        }
        Some(r)
    }
}

impl fmt::Display for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.is_zero() {
            return write!(f, "0");
        }
        let mut parts = vec![];
        let mut x = self.clone();
        let ten19 = big(10_000_000_000_000_000_000u64);
        while !x.is_zero() {
            let (q, r) = x.divrem(&ten19);
            parts.push(r.limb(0));
            x = q;
        }
        write!(f, "{}", parts.pop().unwrap())?;
        for p in parts.iter().rev() {
            write!(f, "{:019}", p)?;
        }
        Ok(())
    }
}

pub const E18: u128 = 1_000_000_000_000_000_000;

/// floor(a * b / c)
pub fn muldiv(a: u128, b: u128, c: u128) -> Big {
    big(a).mul(&big(b)).div(&big(c))
}
/// floor(a * 10^18 / b)
pub fn ratio18(a: &Big, b: &Big) -> Big {
    a.mul(&big(E18)).div(b)
}

/// The identities that tie the arithmetic together, on random operands: a wrong oracle must not pass
/// for a wrong implementation.
pub fn self_test(r: &mut crate::rng::Rng) -> Result<(), String> {
    for _ in 0..4000 {
        let gen = |r: &mut crate::rng::Rng| {
            let n = r.below(7) as usize;
            let mut v = vec![];
            for _ in 0..n {
                v.push(match r.below(4) {
                    0 => u64::MAX,
                    1 => 0,
                    2 => r.next() & 3,
                    _ => r.next(),
                });
            }
            Big::from_limbs(&v)
        };
        let (a, b) = (gen(r), gen(r));
        if !b.is_zero() {
            let (q, m) = a.divrem(&b);
            if m >= b || q.mul(&b).add(&m) != a {
                return Err(format!("oracle divrem({a}, {b}) = {q}, {m}"));
            }
        }
        let s = a.isqrt();
        if s.mul(&s) > a || s.add(&Big::one()).mul(&s.add(&Big::one())) <= a {
            return Err(format!("oracle isqrt({a}) = {s}"));
        }
        if a.add(&b).sub(&b) != a || Big::parse(&a.to_string()) != Some(a.clone()) {
            return Err(format!("oracle add/sub/parse on {a}, {b}"));
        }
        let (x, y) = (r.u128_any() >> 64, r.u128_any() >> 64);
        if big(x).mul(&big(y)) != big(x * y) || (y > 0 && big(x).div(&big(y)) != big(x / y)) {
            return Err(format!("oracle mul/div on {x}, {y}"));
        }
    }
    Ok(())
}
