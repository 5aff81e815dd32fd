//! Choice-sequence property-based generation: every random decision of a generator is one draw from a
//! `Gen`, so a case *is* its list of draws; shrinking edits that list and regenerates.
pub struct Gen {
    pub data: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    limit: usize,
    /// ranges of draws made for one syntactic piece (used by the shrinker)
    pub spans: Vec<(usize, usize)>,
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x1234_5678_9abc_def0u64;
    for p in parts {
        s ^= *p;
        s = splitmix(&mut s);
    }
    s
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Gen {
    pub fn random(seed: u64) -> Gen {
        Gen { data: vec![], pos: 0, rng: Some(seed), limit: 200_000, spans: vec![] }
    }
    pub fn replay(data: Vec<u64>) -> Gen {
        Gen { data, pos: 0, rng: None, limit: 200_000, spans: vec![] }
    }
    pub fn span<R>(&mut self, from: usize, r: R) -> R {
        self.spans.push((from, self.pos));
        r
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// number in 0..n ; 0 is the "simplest"
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        if self.pos >= self.limit {
            return 0;
        }
        let v = match &mut self.rng {
            Some(s) => {
                let v = splitmix(s) % n;
                self.data.push(v);
                v
            }
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                v % n
            }
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den (false is simplest)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// weighted choice, index 0 simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(tot.max(1));
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        0
    }
    pub fn bits(&mut self, w: usize) -> num::BigUint {
        // mixture of corner values and random ones
        use num::{BigUint, One, Zero};
        if w == 0 {
            return BigUint::zero();
        }
        let m = (BigUint::one() << w) - BigUint::one();
        match self.below(8) {
            0 => BigUint::zero(),
            1 => BigUint::one() & &m,
            2 => m,
            3 => BigUint::one() << (w - 1),
            4 => &m >> 1usize,
            5 => BigUint::from(self.below(20)) & &m,
            _ => {
                let mut r = BigUint::zero();
                for _ in 0..w.div_ceil(32) {
                    r = (r << 32usize) | BigUint::from(self.below(1 << 32));
                }
                r & m
            }
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// Structural shrinking: replace the draws behind a piece of syntax by the simplest ones or by those of a piece inside it.
pub fn shrink_spans(mut best: Vec<u64>, deadline: std::time::Instant, spans: &dyn Fn(&[u64]) -> (Vec<(usize, usize)>, usize), fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut tried = std::collections::HashSet::new();
    'again: loop {
        let (mut sp, used) = spans(&best);
        best.truncate(used);
        sp.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
        sp.dedup();
        for (i, s) in sp.iter().enumerate() {
            if s.1 > best.len() || s.1 - s.0 < 2 {
                continue;
            }
            let mut cands: Vec<Vec<u64>> = (0..4usize).map(|k| vec![0; k]).collect();
            for c in sp[i + 1..].iter().filter(|c| c.0 >= s.0 && c.1 <= s.1 && c.1 - c.0 < s.1 - s.0).take(3) {
                cands.push(best[c.0..c.1].to_vec());
            }
            for c in cands {
                if c.len() >= s.1 - s.0 {
                    continue;
                }
                let mut t = best[..s.0].to_vec();
                t.extend(&c);
                t.extend(&best[s.1..]);
                if !tried.insert(t.clone()) {
                    continue;
                }
                if std::time::Instant::now() > deadline {
                    return best;
                }
                if fails(&t) {
                    best = t;
                    continue 'again;
                }
            }
        }
        return best;
    }
}

/// Greedy shrink: `fails(tape)` returns true when the case still fails.
pub fn shrink(mut best: Vec<u64>, budget: usize, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 {
                return best;
            }
            if cand != best {
                left -= 1;
                if fails(&cand) {
                    best = cand;
                    true
                } else {
                    false
                }
            } else {
                false
            }
        }};
    }
    // strip trailing zeros is free
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !attempt!(c) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..end] {
                        *v = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            for d in [best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && d < best[i] {
                    let mut c = best.clone();
                    c[i] = d;
                    attempt!(c);
                }
            }
        }
        while best.last() == Some(&0) {
            let mut c = best.clone();
            c.pop();
            if !attempt!(c) {
                break;
            }
        }
        if best == before {
            return best;
        }
    }
}
