//! Polynomial normal forms of symbolic field terms (an exact simplifier in
//! front of the solver): sums and products of the same inputs get the same
//! normal form, whatever the order of evaluation. Equalities decided on the
//! current path are used as rewrite rules.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Mono = Vec<u32>;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Poly {
    pub m: BTreeMap<Mono, u64>,
}
const MAX_MONO: usize = 96;
const MAX_DEG: usize = 8;

fn addm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 + b as u128) % p as u128) as u64
}
fn mulm(a: u64, b: u64, p: u64) -> u64 {
    (a as u128 * b as u128 % p as u128) as u64
}
impl Poly {
    pub fn cst(c: u64) -> Poly {
        let mut m = BTreeMap::new();
        if c != 0 {
            m.insert(vec![], c);
        }
        Poly { m }
    }
    pub fn atom(a: u32) -> Poly {
        Poly {
            m: [(vec![a], 1)].into(),
        }
    }
    pub fn scale(&self, c: u64, p: u64) -> Poly {
        if c == 0 {
            return Poly::default();
        }
        Poly {
            m: self
                .m
                .iter()
                .map(|(k, v)| (k.clone(), mulm(*v, c, p)))
                .collect(),
        }
    }
    pub fn add(&self, o: &Poly, p: u64) -> Poly {
        let mut r = self.clone();
        for (k, v) in &o.m {
            let e = r.m.entry(k.clone()).or_insert(0);
            *e = addm(*e, *v, p);
            if *e == 0 {
                r.m.remove(k);
            }
        }
        r
    }
    pub fn neg(&self, p: u64) -> Poly {
        self.scale(p - 1, p)
    }
    pub fn mul(&self, o: &Poly, p: u64) -> Option<Poly> {
        if self.m.len() * o.m.len() > 4 * MAX_MONO {
            return None;
        }
        let mut r: BTreeMap<Mono, u64> = BTreeMap::new();
        for (k1, v1) in &self.m {
            for (k2, v2) in &o.m {
                if k1.len() + k2.len() > MAX_DEG {
                    return None;
                }
                let mut k: Mono = k1.iter().chain(k2).copied().collect();
                k.sort_unstable();
                let k = reduce_inv(k);
                let e = r.entry(k.clone()).or_insert(0);
                *e = addm(*e, mulm(*v1, *v2, p), p);
                if *e == 0 {
                    r.remove(&k);
                }
            }
        }
        (r.len() <= MAX_MONO).then_some(Poly { m: r })
    }
    pub fn as_const(&self) -> Option<u64> {
        match self.m.len() {
            0 => Some(0),
            1 => self.m.get(&vec![]).copied(),
            _ => None,
        }
    }
    /// c * x + k with a single atom
    pub fn as_affine_atom(&self) -> Option<(u64, u32, u64)> {
        let k = self.m.get(&vec![]).copied().unwrap_or(0);
        let rest: Vec<_> = self.m.iter().filter(|(m, _)| !m.is_empty()).collect();
        match rest.as_slice() {
            [(m, c)] if m.len() == 1 => Some((**c, m[0], k)),
            _ => None,
        }
    }
    fn mentions(&self, a: u32) -> bool {
        self.m.keys().any(|k| k.contains(&a))
    }
    fn subst(&self, a: u32, s: &Poly, p: u64) -> Option<Poly> {
        if !self.mentions(a) {
            return Some(self.clone());
        }
        let mut r = Poly::default();
        for (k, v) in &self.m {
            let n = k.iter().filter(|x| **x == a).count();
            if n == 0 {
                r = r.add(
                    &Poly {
                        m: [(k.clone(), *v)].into(),
                    },
                    p,
                );
            } else {
                let rest: Mono = k.iter().copied().filter(|x| *x != a).collect();
                let mut t = Poly {
                    m: [(rest, *v)].into(),
                };
                for _ in 0..n {
                    t = t.mul(s, p)?;
                }
                r = r.add(&t, p);
            }
        }
        Some(r)
    }
}

fn reduce_inv(k: Mono) -> Mono {
    if k.len() < 2 {
        return k;
    }
    CTX.with(|c| {
        let c = c.borrow();
        if c.inv.is_empty() {
            return k;
        }
        let mut k = k;
        loop {
            let mut hit = None;
            for (x, i) in &c.inv {
                if k.contains(x) && k.contains(i) {
                    hit = Some((*x, *i));
                    break;
                }
            }
            match hit {
                None => return k,
                Some((x, i)) => {
                    let a = k.iter().position(|y| *y == x).unwrap();
                    k.remove(a);
                    let b = k.iter().position(|y| *y == i).unwrap();
                    k.remove(b);
                }
            }
        }
    })
}

#[derive(Default)]
struct Ctx {
    polys: HashMap<(u64, u32), Rc<Poly>>,
    rules: Vec<(u64, u32, Poly)>,
    inv: Vec<(u32, u32)>,
}
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

pub fn get(p: u64, id: u32) -> Rc<Poly> {
    CTX.with(|c| {
        c.borrow_mut()
            .polys
            .entry((p, id))
            .or_insert_with(|| Rc::new(Poly::atom(id)))
            .clone()
    })
}
pub fn set(p: u64, id: u32, poly: Poly) {
    CTX.with(|c| {
        c.borrow_mut().polys.entry((p, id)).or_insert_with(|| Rc::new(poly));
    })
}
pub fn set_inverse(x: u32, i: u32) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if !c.inv.contains(&(x, i)) {
            c.inv.push((x, i));
        }
    })
}
/// apply the path's rewrite rules
pub fn reduce(p: u64, poly: &Poly) -> Poly {
    let rules = CTX.with(|c| c.borrow().rules.clone());
    let mut r = poly.clone();
    for (q, a, s) in rules {
        if q == p {
            match r.subst(a, &s, p) {
                Some(n) => r = n,
                None => return r,
            }
        }
    }
    r
}
/// record `d = 0` on this path
pub fn add_rule(p: u64, d: &Poly) {
    // an atom that occurs linearly and nowhere else
    let cand = d.m.iter().find(|(k, _)| {
        k.len() == 1 && d.m.keys().filter(|o| o.contains(&k[0])).count() == 1
    });
    let Some((k, c)) = cand else { return };
    if d.m.len() > 6 {
        return;
    }
    let a = k[0];
    let inv = symcore::inv_mod(*c as u128, p as u128) as u64;
    let mut rest = d.clone();
    rest.m.remove(k);
    let s = rest.scale(mulm(p - 1, inv, p), p);
    CTX.with(|c| c.borrow_mut().rules.push((p, a, s)));
}
