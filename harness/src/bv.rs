//! Four-state bit vectors (VPI encoding: b=0 -> value a; b=1,a=0 -> Z; b=1,a=1 -> X).
use num::bigint::Sign;
use num::{BigInt, BigUint, One, ToPrimitive, Zero};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Bv {
    pub w: usize,
    pub a: BigUint,
    pub b: BigUint,
}

pub fn mask(w: usize) -> BigUint {
    (BigUint::one() << w) - BigUint::one()
}

impl Bv {
    pub fn zero(w: usize) -> Bv {
        Bv { w, a: BigUint::zero(), b: BigUint::zero() }
    }
    pub fn x(w: usize) -> Bv {
        Bv { w, a: mask(w), b: mask(w) }
    }
    pub fn z(w: usize) -> Bv {
        Bv { w, a: BigUint::zero(), b: mask(w) }
    }
    pub fn from_uint(w: usize, v: &BigUint) -> Bv {
        Bv { w, a: v & mask(w), b: BigUint::zero() }
    }
    pub fn from_u64(w: usize, v: u64) -> Bv {
        Bv::from_uint(w, &BigUint::from(v))
    }
    /// two's complement
    pub fn from_int(w: usize, v: &BigInt) -> Bv {
        let m = BigInt::one() << w;
        let mut r = v % &m;
        if r.sign() == Sign::Minus {
            r += &m;
        }
        Bv { w, a: r.to_biguint().unwrap(), b: BigUint::zero() }
    }
    pub fn bit(v: Option<bool>) -> Bv {
        match v {
            Some(true) => Bv::from_u64(1, 1),
            Some(false) => Bv::zero(1),
            None => Bv::x(1),
        }
    }
    pub fn known(&self) -> bool {
        self.b.is_zero()
    }
    pub fn to_uint(&self) -> Option<BigUint> {
        if self.known() { Some(self.a.clone()) } else { None }
    }
    pub fn to_signed(&self) -> Option<BigInt> {
        if !self.known() {
            return None;
        }
        let v = BigInt::from(self.a.clone());
        if self.w > 0 && self.a.bit(self.w as u64 - 1) {
            Some(v - (BigInt::one() << self.w))
        } else {
            Some(v)
        }
    }
    pub fn to_u64(&self) -> Option<u64> {
        if self.known() { self.a.to_u64() } else { None }
    }
    /// 0,1 or None(x/z)
    pub fn get(&self, i: usize) -> Option<bool> {
        if self.b.bit(i as u64) { None } else { Some(self.a.bit(i as u64)) }
    }
    pub fn ext(&self, w: usize, signed: bool) -> Bv {
        if w <= self.w {
            if w == self.w {
                return self.clone();
            }
            let m = mask(w);
            return Bv { w, a: &self.a & &m, b: &self.b & &m };
        }
        if signed && self.w > 0 {
            let top = self.w as u64 - 1;
            let fill = mask(w) ^ mask(self.w);
            let mut r = Bv { w, a: self.a.clone(), b: self.b.clone() };
            if self.a.bit(top) {
                r.a |= &fill;
            }
            if self.b.bit(top) {
                r.b |= &fill;
            }
            r
        } else {
            Bv { w, a: self.a.clone(), b: self.b.clone() }
        }
    }
    /// Part select; out of range bits are X
    pub fn slice(&self, lo: i64, w: usize) -> Bv {
        if lo >= 0 && lo as usize + w <= self.w {
            let m = mask(w);
            return Bv { w, a: (&self.a >> lo as usize) & &m, b: (&self.b >> lo as usize) & &m };
        }
        let mut r = Bv::zero(w);
        for i in 0..w {
            let p = lo + i as i64;
            let (a, b) = if p >= 0 && (p as usize) < self.w {
                (self.a.bit(p as u64), self.b.bit(p as u64))
            } else {
                (true, true)
            };
            r.a.set_bit(i as u64, a);
            r.b.set_bit(i as u64, b);
        }
        r
    }
    pub fn set_slice(&mut self, lo: i64, v: &Bv) {
        for i in 0..v.w {
            let p = lo + i as i64;
            if p >= 0 && (p as usize) < self.w {
                self.a.set_bit(p as u64, v.a.bit(i as u64));
                self.b.set_bit(p as u64, v.b.bit(i as u64));
            }
        }
    }
    /// self is more significant
    pub fn concat(&self, low: &Bv) -> Bv {
        Bv { w: self.w + low.w, a: (&self.a << low.w) | &low.a, b: (&self.b << low.w) | &low.b }
    }
    pub fn truth(&self) -> Option<bool> {
        // definite one anywhere -> true
        if !(&self.a & (&self.b ^ mask(self.w))).is_zero() {
            Some(true)
        } else if self.b.is_zero() {
            Some(false)
        } else {
            None
        }
    }
    pub fn to_bits(&self) -> String {
        let mut s = String::new();
        for i in (0..self.w).rev() {
            s.push(match (self.b.bit(i as u64), self.a.bit(i as u64)) {
                (false, false) => '0',
                (false, true) => '1',
                (true, false) => 'z',
                (true, true) => 'x',
            });
        }
        s
    }
    pub fn from_bits(s: &str) -> Bv {
        let mut r = Bv::zero(s.len());
        for (i, c) in s.chars().rev().enumerate() {
            let (a, b) = match c {
                '0' => (false, false),
                '1' => (true, false),
                'z' | 'Z' | '?' => (false, true),
                _ => (true, true),
            };
            r.a.set_bit(i as u64, a);
            r.b.set_bit(i as u64, b);
        }
        r
    }
}

impl std::fmt::Display for Bv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}'b{}", self.w, self.to_bits())
    }
}
