//! Linear normal form of integer terms: constant + sum of coefficients times atoms.
use crate::val::*;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Lin {
    pub c: i128,
    pub t: BTreeMap<Val, i128>,
}

impl Lin {
    pub fn k(c: i128) -> Self {
        Lin { c, t: BTreeMap::new() }
    }
    pub fn atom(v: Val) -> Self {
        Lin { c: 0, t: BTreeMap::from([(v, 1)]) }
    }
    pub fn add(&self, o: &Lin, m: i128) -> Lin {
        let mut r = self.clone();
        r.c += o.c * m;
        for (v, k) in &o.t {
            let e = r.t.entry(*v).or_default();
            *e += k * m;
            if *e == 0 {
                r.t.remove(v);
            }
        }
        r
    }
    pub fn scale(&self, m: i128) -> Lin {
        Lin::k(0).add(self, m)
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    /// all coefficients (not the constant) are multiples of n
    pub fn mult(&self, n: i128) -> bool {
        self.t.values().all(|k| k % n == 0)
    }
    pub fn show(&self) -> String {
        let mut s: Vec<String> = self.t.iter().map(|(v, k)| if *k == 1 { show(*v) } else { format!("{k}*{}", show(*v)) }).collect();
        if self.c != 0 || s.is_empty() {
            s.push(self.c.to_string());
        }
        s.join(" + ")
    }
    pub fn val(&self) -> Val {
        let mut r = int(0);
        for (v, k) in &self.t {
            let x = if *k == 1 { *v } else { op("mul", vec![*v, int(*k)]) };
            r = crate::eng::mk_add(r, x);
        }
        crate::eng::mk_add(r, int(self.c))
    }
}

pub fn lin(v: Val) -> Lin {
    if let Some(i) = as_int(v) {
        return Lin::k(i);
    }
    match nd(v) {
        N::Op("add", a) => lin(a[0]).add(&lin(a[1]), 1),
        N::Op("sub", a) => lin(a[0]).add(&lin(a[1]), -1),
        // down to a multiple of the page size
        N::Op("mul", a) if [(a[0], a[1]), (a[1], a[0])].iter().any(|(x, y)| is_op(*y, "pagesize").is_some() && is_op(*x, "div").map_or(false, |d| d[1] == *y)) => {
            let d = if is_op(a[0], "div").is_some() { a[0] } else { a[1] };
            let x = lin(is_op(d, "div").unwrap()[0]);
            x.add(&pageoff(&x), -1)
        }
        N::Op("rem", a) if is_op(a[1], "pagesize").is_some() => pageoff(&lin(a[0])),
        N::Op("band", a) if a.iter().any(|m| page_mask(*m).is_some()) => {
            let i = page_mask(a[0]).is_none() as usize;
            let x = lin(a[1 - i]);
            match page_mask(a[i]) {
                Some(true) => pageoff(&x),
                _ => x.add(&pageoff(&x), -1),
            }
        }
        N::Op("mul", a) => {
            let (x, y) = (lin(a[0]), lin(a[1]));
            if let Some(k) = x.is_const() {
                y.scale(k)
            } else if let Some(k) = y.is_const() {
                x.scale(k)
            } else {
                Lin::atom(v)
            }
        }
        N::Op("shl", a) => match as_int(a[1]) {
            Some(k) if (0..32).contains(&k) => lin(a[0]).scale(1 << k),
            _ => Lin::atom(v),
        },
        N::Op("div", a) => match as_int(a[1]) {
            Some(k) if k > 0 => divide(v, &lin(a[0]), k),
            _ => Lin::atom(v),
        },
        N::Op("shr", a) => match as_int(a[1]) {
            Some(k) if (0..32).contains(&k) => divide(v, &lin(a[0]), 1 << k),
            _ => Lin::atom(v),
        },
        N::Op("rem", a) => match as_int(a[1]) {
            Some(k) if k > 0 => {
                let x = lin(a[0]);
                if x.mult(k) && x.c >= 0 {
                    Lin::k(x.c % k)
                } else {
                    Lin::atom(v)
                }
            }
            _ => Lin::atom(v),
        },
        N::Op("div_ceil", a) => match as_int(a[1]) {
            Some(k) if k > 0 => divide(v, &lin(a[0]).add(&Lin::k(k - 1), 1), k),
            _ => Lin::atom(v),
        },
        N::Op("next_multiple_of", a) => match as_int(a[1]) {
            Some(k) if k > 0 => {
                let x = lin(a[0]);
                if x.mult(k) && x.c >= 0 {
                    let mut r = x.clone();
                    r.c = (x.c + k - 1) / k * k;
                    r
                } else {
                    Lin::atom(v)
                }
            }
            _ => Lin::atom(v),
        },
        N::Op("band", a) => match (as_int(a[0]), as_int(a[1])) {
            (None, Some(m)) => mask(v, a[0], m),
            (Some(m), None) => mask(v, a[1], m),
            _ => Lin::atom(v),
        },
        // widening and pointer-sized conversions of a bounded length
        N::Op("cast", a) => {
            let x = lin(a[1]);
            let wide = matches!(nd(a[0]), N::Str(s) if matches!(s.as_ref() as &str, "u32" | "u64" | "usize" | "i64" | "isize" | "u128" | "i128"));
            if !wide && x.is_const().is_none() {
                return Lin::atom(v);
            }
            if x.is_const().is_some() || x.t.keys().all(|k| matches!(nd(*k), N::Op("quart", _))) {
                x
            } else {
                Lin::atom(v)
            }
        }
        _ => Lin::atom(v),
    }
}
/// `pagesize - 1` (true), its complement (false)
fn page_mask(m: Val) -> Option<bool> {
    let low = |m: Val| {
        let l = lin(m);
        l.c == -1 && l.t.len() == 1 && l.t.iter().all(|(v, k)| *k == 1 && is_op(*v, "pagesize").is_some())
    };
    match nd(m) {
        N::Op("bnot", a) if low(a[0]) => Some(false),
        N::Op("add" | "sub", _) if low(m) => Some(true),
        _ => None,
    }
}
/// the offset inside a page
pub fn pageoff(x: &Lin) -> Lin {
    match x.is_const() {
        Some(k) if (0..4096).contains(&k) => Lin::k(k),
        _ => Lin::atom(op("pageoff", vec![x.val()])),
    }
}
fn divide(v: Val, x: &Lin, k: i128) -> Lin {
    if x.mult(k) && x.c >= 0 {
        Lin { c: x.c.div_euclid(k), t: x.t.iter().map(|(a, b)| (*a, b / k)).collect() }
    } else {
        Lin::atom(v)
    }
}
fn mask(v: Val, x: Val, m: i128) -> Lin {
    let x = lin(x);
    if m >= 0 && (m + 1) & m == 0 && m < (1 << 20) {
        // low bits
        if x.mult(m + 1) && x.c >= 0 {
            return Lin::k(x.c & m);
        }
    }
    // high bits: the complement of low bits in 32 or 64 bits
    for w in [32, 64] {
        let low = ((1i128 << w) - 1) & !m;
        if m >= 0 && m > (1 << 20) && low >= 0 && (low + 1) & low == 0 && low < (1 << 20) && x.mult(low + 1) && x.c >= 0 {
            let mut r = x.clone();
            r.c = x.c & !low;
            return r;
        }
    }
    if m < 0 {
        let low = !m;
        if (low + 1) & low == 0 && low < (1 << 20) && x.mult(low + 1) && x.c >= 0 {
            let mut r = x.clone();
            r.c = x.c & !low;
            return r;
        }
    }
    Lin::atom(v)
}
/// does the term mention a length known up to its residue
pub fn has_quart(v: Val) -> bool {
    any_sub(v, &mut |x| matches!(nd(x), N::Op("quart", _)))
}
