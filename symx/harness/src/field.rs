//! `SymField<P, W>`: the prime field of order P with symbolic elements, and its
//! W-bit integer type `SymInt<W>`. They implement powdr's own field traits, so
//! powdr's generic code is executed unchanged on symbolic values.
use crate::poly::{self, Poly};
use num_traits::{ConstOne, ConstZero, One, Zero};
use powdr_number::{BabyBearField, BigUint, FieldElement, KnownField, LargeInt};
use schemars::JsonSchema;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::rc::Rc;
use std::str::FromStr;
use symcore::{branch, concretize, fresh, mask, Bv, B};

const CONC: u32 = u32::MAX;

#[derive(Clone, Copy)]
pub struct SymInt<const W: usize> {
    c: u64,
    t: u32,
}
#[derive(Clone, Copy)]
pub struct SymField<const P: u64, const W: usize> {
    c: u64,
    t: u32,
}


impl<const W: usize> SymInt<W> {
    pub const fn k(v: u64) -> Self {
        SymInt { c: v, t: CONC }
    }
    pub fn from_bv(t: Bv) -> Self {
        match t.as_const() {
            Some(v) => Self::k(v as u64),
            None => SymInt { c: 0, t: t.0 },
        }
    }
    pub fn bv(&self) -> Bv {
        if self.t == CONC {
            Bv::c(self.c as u128)
        } else {
            Bv(self.t)
        }
    }
    fn cc(&self, o: &Self) -> bool {
        self.t == CONC && o.t == CONC
    }
    fn m() -> u64 {
        mask(W as u16) as u64
    }
}

impl<const P: u64, const W: usize> SymField<P, W> {
    pub const fn k(v: u64) -> Self {
        SymField { c: v, t: CONC }
    }
    pub fn from_bv(t: Bv) -> Self {
        match t.as_const() {
            Some(v) => Self::k(v as u64),
            None => SymField { c: 0, t: t.0 },
        }
    }
    pub fn bv(&self) -> Bv {
        if self.t == CONC {
            Bv::c(self.c as u128)
        } else {
            Bv(self.t)
        }
    }
    fn cc(&self, o: &Self) -> bool {
        self.t == CONC && o.t == CONC
    }
    fn is_c(&self) -> bool {
        self.t == CONC
    }
    /// reduce a term < 2P
    fn red1(t: Bv) -> Self {
        let p = P as u128;
        if t.ub() < p {
            Self::from_bv(t)
        } else if t.lb() >= p {
            Self::from_bv(t.sub_unchecked(Bv::c(p)))
        } else {
            let r = Bv::ite(t.lt(Bv::c(p)), t, t.sub_unchecked(Bv::c(p)));
            Self::from_bv(clamp(r, p - 1))
        }
    }
    fn red(t: Bv) -> Self {
        let p = P as u128;
        if t.ub() < p {
            Self::from_bv(t)
        } else if t.ub() < 2 * p {
            Self::red1(t)
        } else {
            Self::from_bv(t.rem(Bv::c(p)))
        }
    }
}
/// shrink the width of a term known to be <= max
fn clamp(t: Bv, max: u128) -> Bv {
    t.bounded(max)
}

// ---------------------------------------------------------------- SymInt
impl<const W: usize> fmt::Display for SymInt<W> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.t == CONC {
            write!(f, "{}", self.c)
        } else {
            write!(f, "<i{}>", self.t)
        }
    }
}
impl<const W: usize> fmt::Debug for SymInt<W> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl<const W: usize> fmt::LowerHex for SymInt<W> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.t == CONC {
            write!(f, "{:x}", self.c)
        } else {
            write!(f, "<i{}>", self.t)
        }
    }
}
impl<const W: usize> Default for SymInt<W> {
    fn default() -> Self {
        Self::k(0)
    }
}
impl<const W: usize> PartialEq for SymInt<W> {
    fn eq(&self, o: &Self) -> bool {
        if self.cc(o) {
            self.c == o.c
        } else {
            branch(self.bv().equals(o.bv()))
        }
    }
}
impl<const W: usize> Eq for SymInt<W> {}
impl<const W: usize> SymInt<W> {
    fn lt_(&self, o: &Self) -> bool {
        if self.cc(o) {
            self.c < o.c
        } else {
            branch(self.bv().lt(o.bv()))
        }
    }
}
macro_rules! ord_impl {
    (($($g:tt)*), $t:ty) => {
        impl<$($g)*> PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
            fn lt(&self, o: &Self) -> bool { self.lt_(o) }
            fn gt(&self, o: &Self) -> bool { o.lt_(self) }
            fn le(&self, o: &Self) -> bool { !o.lt_(self) }
            fn ge(&self, o: &Self) -> bool { !self.lt_(o) }
        }
        impl<$($g)*> Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                if self.lt_(o) { Ordering::Less }
                else if self == o { Ordering::Equal }
                else { Ordering::Greater }
            }
            // like the default methods, but with a single decision
            fn min(self, o: Self) -> Self { if o.lt_(&self) { o } else { self } }
            fn max(self, o: Self) -> Self { if o.lt_(&self) { self } else { o } }
        }
        impl<$($g)*> Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                if symcore::concrete_hash() { concretize(self.bv()).hash(h) }
            }
        }
    };
}
ord_impl!((const W: usize), SymInt<W>);
ord_impl!((const P: u64, const W: usize), SymField<P, W>);

impl<const W: usize> From<u64> for SymInt<W> {
    fn from(v: u64) -> Self {
        Self::k(v & Self::m())
    }
}
impl<const W: usize> From<u32> for SymInt<W> {
    fn from(v: u32) -> Self {
        Self::from(v as u64)
    }
}
impl<const W: usize> Add for SymInt<W> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        if self.cc(&o) {
            let s = self.c as u128 + o.c as u128;
            assert!(s <= mask(W as u16), "attempt to add with overflow");
            return Self::k(s as u64);
        }
        let s = self.bv().add(o.bv());
        if s.ub() > mask(W as u16) {
            if branch(Bv::c(mask(W as u16)).lt(s)) {
                panic!("attempt to add with overflow");
            }
            return Self::from_bv(clamp(s, mask(W as u16)));
        }
        Self::from_bv(s)
    }
}
impl<const W: usize> Sub for SymInt<W> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        if self.cc(&o) {
            assert!(self.c >= o.c, "attempt to subtract with overflow");
            return Self::k(self.c - o.c);
        }
        if branch(self.bv().lt(o.bv())) {
            panic!("attempt to subtract with overflow");
        }
        Self::from_bv(self.bv().sub_unchecked(o.bv()))
    }
}
impl<const W: usize> Mul for SymInt<W> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let s = self.bv().mul(o.bv());
        if s.ub() > mask(W as u16) && branch(Bv::c(mask(W as u16)).lt(s)) {
            panic!("attempt to multiply with overflow");
        }
        Self::from_bv(clamp(s, mask(W as u16)))
    }
}
impl<const W: usize> BitAnd for SymInt<W> {
    type Output = Self;
    fn bitand(self, o: Self) -> Self {
        if self.cc(&o) {
            return Self::k(self.c & o.c);
        }
        Self::from_bv(self.bv().and(o.bv()))
    }
}
impl<const W: usize> BitOr for SymInt<W> {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        if self.cc(&o) {
            return Self::k(self.c | o.c);
        }
        Self::from_bv(self.bv().or(o.bv()))
    }
}
impl<const W: usize> BitXor for SymInt<W> {
    type Output = Self;
    fn bitxor(self, o: Self) -> Self {
        if self.cc(&o) {
            return Self::k(self.c ^ o.c);
        }
        Self::from_bv(self.bv().xor(o.bv()))
    }
}
impl<const W: usize> Not for SymInt<W> {
    type Output = Self;
    fn not(self) -> Self {
        if self.t == CONC {
            return Self::k(!self.c & Self::m());
        }
        Self::from_bv(self.bv().not_w(W as u16))
    }
}
impl<const W: usize> Shl<usize> for SymInt<W> {
    type Output = Self;
    fn shl(self, n: usize) -> Self {
        assert!(n < W, "attempt to shift left with overflow");
        if self.t == CONC {
            return Self::k(((self.c as u128) << n) as u64 & Self::m());
        }
        Self::from_bv(self.bv().shl(n as u16).trunc(W as u16))
    }
}
impl<const W: usize> Shr<usize> for SymInt<W> {
    type Output = Self;
    fn shr(self, n: usize) -> Self {
        assert!(n < W, "attempt to shift right with overflow");
        if self.t == CONC {
            return Self::k(self.c >> n);
        }
        Self::from_bv(self.bv().shr(n as u16))
    }
}
macro_rules! assign1 {
    ($tr:ident $m:ident $op:tt) => {
        impl<const W: usize> $tr for SymInt<W> {
            fn $m(&mut self, o: Self) {
                *self = *self $op o
            }
        }
    };
}
assign1!(AddAssign add_assign +);
assign1!(SubAssign sub_assign -);
assign1!(BitAndAssign bitand_assign &);
assign1!(BitOrAssign bitor_assign |);
assign1!(BitXorAssign bitxor_assign ^);
macro_rules! assign2 {
    ($tr:ident $m:ident $op:tt) => {
        impl<const P: u64, const W: usize> $tr for SymField<P, W> {
            fn $m(&mut self, o: Self) {
                *self = *self $op o
            }
        }
    };
}
assign2!(AddAssign add_assign +);
assign2!(SubAssign sub_assign -);
assign2!(MulAssign mul_assign *);
assign2!(DivAssign div_assign /);
impl<const W: usize> Zero for SymInt<W> {
    fn zero() -> Self {
        Self::k(0)
    }
    fn is_zero(&self) -> bool {
        *self == Self::k(0)
    }
}
impl<const W: usize> ConstZero for SymInt<W> {
    const ZERO: Self = Self::k(0);
}
impl<const W: usize> LargeInt for SymInt<W> {
    const MAX: Self = Self::k(if W >= 64 { u64::MAX } else { (1u64 << W) - 1 });
    const NUM_BITS: usize = W;
    fn to_arbitrary_integer(self) -> BigUint {
        BigUint::from_bv(self.bv())
    }
    fn num_bits(&self) -> usize {
        self.to_arbitrary_integer().bit_len()
    }
    fn one() -> Self {
        Self::k(1)
    }
    fn is_one(&self) -> bool {
        *self == Self::k(1)
    }
    fn try_into_u64(&self) -> Option<u64> {
        Some(concretize(self.bv()) as u64)
    }
    fn try_into_u32(&self) -> Option<u32> {
        u32::try_from(concretize(self.bv())).ok()
    }
    fn from_hex(s: &str) -> Self {
        Self::from(u64::from_str_radix(s, 16).unwrap())
    }
}

// ---------------------------------------------------------------- SymField
impl<const P: u64, const W: usize> fmt::Display for SymField<P, W> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_c() {
            write!(f, "{}", self.c)
        } else {
            write!(f, "<s{}>", self.t)
        }
    }
}
impl<const P: u64, const W: usize> fmt::Debug for SymField<P, W> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl<const P: u64, const W: usize> fmt::LowerHex for SymField<P, W> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_c() {
            write!(f, "{:x}", self.c)
        } else {
            write!(f, "<s{}>", self.t)
        }
    }
}
impl<const P: u64, const W: usize> Default for SymField<P, W> {
    fn default() -> Self {
        Self::k(0)
    }
}
impl<const P: u64, const W: usize> PartialEq for SymField<P, W> {
    fn eq(&self, o: &Self) -> bool {
        if self.cc(o) {
            return self.c == o.c;
        }
        if self.t == o.t && self.t != CONC {
            return true;
        }
        let d = self.diff(o);
        let r = branch(self.eq_term(o, &d));
        if r {
            poly::add_rule(P, &d);
        }
        r
    }
}
impl<const P: u64, const W: usize> SymField<P, W> {
    fn poly(&self) -> Rc<Poly> {
        if self.is_c() {
            Rc::new(Poly::cst(self.c))
        } else {
            poly::get(P, self.t)
        }
    }
    /// normal form of the difference under the path's equalities
    fn diff(&self, o: &Self) -> Poly {
        poly::reduce(P, &self.poly().add(&o.poly().neg(P), P))
    }
    fn eq_term(&self, o: &Self, d: &Poly) -> B {
        if let Some(c) = d.as_const() {
            return B::lit(c == 0);
        }
        if let Some((c, x, k)) = d.as_affine_atom() {
            // x = -k / c
            let inv = symcore::inv_mod(c as u128, P as u128);
            let v = (P as u128 - k as u128) % P as u128 * inv % P as u128;
            return Bv(x).equals(Bv::c(v));
        }
        if d.m.len() <= 5 {
            // sum of the monomials with small coefficients on either side
            let (mut l, mut r) = (Self::k(0), Self::k(0));
            for (m, c) in &d.m {
                let mut t: Option<Self> = None;
                for a in m {
                    let x = Self::from_bv(Bv(*a));
                    t = Some(match t {
                        None => x,
                        Some(t) => t.raw_mul(x),
                    });
                }
                let t = t.unwrap_or(Self::k(1));
                if *c > P / 2 {
                    r = r.raw_add(t.raw_mul(Self::k(P - *c)));
                } else {
                    l = l.raw_add(t.raw_mul(Self::k(*c)));
                }
            }
            return l.bv().equals(r.bv());
        }
        self.bv().equals(o.bv())
    }
    /// remember the normal form of a result
    fn with(self, p: Option<Poly>) -> Self {
        if !self.is_c() {
            if let Some(p) = p {
                if let Some(c) = p.as_const() {
                    return Self::k(c);
                }
                poly::set(P, self.t, p);
            }
        }
        self
    }
}
impl<const P: u64, const W: usize> Add for SymField<P, W> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let r = self.raw_add(o);
        if r.is_c() {
            return r;
        }
        r.with(Some(self.poly().add(&o.poly(), P)))
    }
}
impl<const P: u64, const W: usize> Sub for SymField<P, W> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let r = self.raw_sub(o);
        if r.is_c() {
            return r;
        }
        r.with(Some(self.poly().add(&o.poly().neg(P), P)))
    }
}
impl<const P: u64, const W: usize> Mul for SymField<P, W> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let r = self.raw_mul(o);
        if r.is_c() {
            return r;
        }
        r.with(self.poly().mul(&o.poly(), P))
    }
}
impl<const P: u64, const W: usize> Neg for SymField<P, W> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::k(0) - self
    }
}
impl<const P: u64, const W: usize> Eq for SymField<P, W> {}
impl<const P: u64, const W: usize> SymField<P, W> {
    fn lt_(&self, o: &Self) -> bool {
        if self.cc(o) {
            self.c < o.c
        } else {
            branch(self.bv().lt(o.bv()))
        }
    }
}
impl<const P: u64, const W: usize> SymField<P, W> {
    fn raw_add(self, o: Self) -> Self {
        if self.cc(&o) {
            return Self::k(((self.c as u128 + o.c as u128) % P as u128) as u64);
        }
        if self.is_c() && self.c == 0 {
            return o;
        }
        if o.is_c() && o.c == 0 {
            return self;
        }
        if self.is_c() && self.c > P / 2 {
            return o.raw_sub(Self::k(P - self.c));
        }
        if o.is_c() && o.c > P / 2 {
            return self.raw_sub(Self::k(P - o.c));
        }
        Self::red1(self.bv().add(o.bv()))
    }
}
impl<const P: u64, const W: usize> SymField<P, W> {
    fn raw_sub(self, o: Self) -> Self {
        let p = P as u128;
        if self.cc(&o) {
            return Self::k(((self.c as u128 + p - o.c as u128) % p) as u64);
        }
        let (a, b) = (self.bv(), o.bv());
        if a == b {
            return Self::k(0);
        }
        if a.lb() >= b.ub() {
            return Self::from_bv(a.sub_unchecked(b));
        }
        let r = Bv::ite(
            a.lt(b),
            Bv::c(p).add(a).sub_unchecked(b),
            a.sub_unchecked(b),
        );
        Self::from_bv(clamp(r, p - 1))
    }
}
impl<const P: u64, const W: usize> SymField<P, W> {
    fn raw_mul(self, o: Self) -> Self {
        let p = P as u128;
        if self.cc(&o) {
            return Self::k((self.c as u128 * o.c as u128 % p) as u64);
        }
        for (a, b) in [(self, o), (o, self)] {
            if a.is_c() {
                match a.c {
                    0 => return a,
                    1 => return b,
                    c if c > P / 2 => return Self::k(0).raw_sub(Self::k(P - c).raw_mul(b)),
                    _ => {}
                }
            }
        }
        Self::red(self.bv().mul(o.bv()))
    }
}
impl<const P: u64, const W: usize> Div for SymField<P, W> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        if o.is_zero() {
            panic!("attempt to divide by zero in the field");
        }
        if o.is_c() {
            return self * Self::k(symcore::inv_mod(o.c as u128, P as u128) as u64);
        }
        self * o.inverse(true)
    }
}
impl<const P: u64, const W: usize> SymField<P, W> {
    /// inverse of a value (0 for 0)
    pub fn inverse(self, nonzero: bool) -> Self {
        let po = self.poly();
        if let Some(c) = po.as_const() {
            return Self::k(symcore::inv_mod(c as u128, P as u128) as u64);
        }
        // normalise c * x
        if po.m.len() == 1 {
            let (m, c) = po.m.iter().next().unwrap();
            if m.len() == 1 {
                let x = m[0];
                let i = Bv(x).inv(P as u128);
                if nonzero && i.as_const().is_none() {
                    poly::set_inverse(x, i.0);
                }
                let ci = symcore::inv_mod(*c as u128, P as u128) as u64;
                return Self::from_bv(i) * Self::k(ci);
            }
        }
        Self::from_bv(self.bv().inv(P as u128))
    }
}
impl<const P: u64, const W: usize> Zero for SymField<P, W> {
    fn zero() -> Self {
        Self::k(0)
    }
    fn is_zero(&self) -> bool {
        *self == Self::k(0)
    }
}
impl<const P: u64, const W: usize> One for SymField<P, W> {
    fn one() -> Self {
        Self::k(1)
    }
    fn is_one(&self) -> bool {
        *self == Self::k(1)
    }
}
impl<const P: u64, const W: usize> ConstZero for SymField<P, W> {
    const ZERO: Self = Self::k(0);
}
impl<const P: u64, const W: usize> ConstOne for SymField<P, W> {
    const ONE: Self = Self::k(1);
}
impl<const P: u64, const W: usize> From<SymInt<W>> for SymField<P, W> {
    fn from(v: SymInt<W>) -> Self {
        if v.t == CONC {
            return Self::from(v.c);
        }
        let t = v.bv();
        // like the 31-bit fields: a non-canonical integer is rejected
        if t.ub() >= P as u128 {
            if !branch(t.lt(Bv::c(P as u128))) {
                panic!("integer not below the modulus");
            }
            return Self::from_bv(clamp(t, P as u128 - 1));
        }
        Self::from_bv(t)
    }
}
impl<const P: u64, const W: usize> From<BigUint> for SymField<P, W> {
    fn from(v: BigUint) -> Self {
        let t = v.to_bv();
        if !branch(t.lt(Bv::c(P as u128))) {
            panic!("integer not below the modulus");
        }
        Self::from_bv(clamp(t, P as u128 - 1))
    }
}
impl<const P: u64, const W: usize> FromStr for SymField<P, W> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Self::from_str_radix(s, 10)
    }
}
impl<const P: u64, const W: usize> From<u64> for SymField<P, W> {
    fn from(v: u64) -> Self {
        if v == 0xff || v == 0xffff {
            // constants of hypotheses that are tested pointwise
            return Self::k(v % P);
        }
        assert!(v < P, "{v} not below the modulus {P}");
        Self::k(v)
    }
}
impl<const P: u64, const W: usize> From<u32> for SymField<P, W> {
    fn from(v: u32) -> Self {
        Self::from(v as u64)
    }
}
impl<const P: u64, const W: usize> From<i64> for SymField<P, W> {
    fn from(v: i64) -> Self {
        if v < 0 {
            -Self::from(v.unsigned_abs())
        } else {
            Self::from(v as u64)
        }
    }
}
impl<const P: u64, const W: usize> From<i32> for SymField<P, W> {
    fn from(v: i32) -> Self {
        Self::from(v as i64)
    }
}
impl<const P: u64, const W: usize> From<bool> for SymField<P, W> {
    fn from(v: bool) -> Self {
        Self::k(v as u64)
    }
}
impl<const P: u64, const W: usize> Serialize for SymField<P, W> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (concretize(self.bv()) as u64).serialize(s)
    }
}
impl<'de, const P: u64, const W: usize> Deserialize<'de> for SymField<P, W> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Self::from(u64::deserialize(d)?))
    }
}
impl<const P: u64, const W: usize> JsonSchema for SymField<P, W> {
    fn schema_name() -> String {
        "SymField".into()
    }
    fn json_schema(g: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
        u64::json_schema(g)
    }
}
impl<const P: u64, const W: usize> FieldElement for SymField<P, W> {
    type Integer = SymInt<W>;
    const BITS: u32 = 64 - (P - 1).leading_zeros();
    fn to_degree(&self) -> u64 {
        concretize(self.bv()) as u64
    }
    fn to_integer(&self) -> SymInt<W> {
        SymInt {
            c: self.c,
            t: self.t,
        }
    }
    fn modulus() -> SymInt<W> {
        SymInt::k(P)
    }
    fn pow(self, e: SymInt<W>) -> Self {
        let mut e = concretize(e.bv());
        let mut b = self;
        let mut r = Self::k(1);
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b *= b;
            e >>= 1;
        }
        r
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        let n = W.div_ceil(8);
        concretize(self.bv()).to_le_bytes()[..n].to_vec()
    }
    fn from_bytes_le(b: &[u8]) -> Self {
        let mut a = [0u8; 8];
        a[..b.len()].copy_from_slice(b);
        Self::from(u64::from_le_bytes(a))
    }
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> {
        let v = u64::from_str_radix(s, radix).map_err(|e| e.to_string())?;
        if v >= P {
            return Err("too large".into());
        }
        Ok(Self::k(v))
    }
    fn checked_from(v: BigUint) -> Option<Self> {
        let t = v.to_bv();
        branch(t.lt(Bv::c(P as u128))).then(|| Self::from_bv(clamp(t, P as u128 - 1)))
    }
    fn is_in_lower_half(&self) -> bool {
        if self.is_c() {
            self.c <= (P - 1) / 2
        } else {
            branch(self.bv().le(Bv::c((P as u128 - 1) / 2)))
        }
    }
    fn known_field() -> Option<KnownField> {
        None
    }
    fn has_direct_repr() -> bool {
        false
    }
}

/// Fields a harness can run on: symbolic ones, and real ones in replay.
pub trait Fld: FieldElement + Ord {
    const PRIME: u64;
    fn from_term(t: Bv) -> Self;
    fn bv(&self) -> Bv;
    fn int_bv(i: &Self::Integer) -> Bv;
    fn int_from(v: u64) -> Self::Integer;
    fn int_term(t: Bv) -> Self::Integer;
    fn any(name: &str) -> Self {
        Self::from_term(fresh(name, Self::PRIME as u128))
    }
    fn any_below(name: &str, bound: u64) -> Self {
        Self::from_term(fresh(name, bound.min(Self::PRIME) as u128))
    }
    /// reads what Display wrote for a symbolic value
    fn from_printed(s: &str) -> Self {
        symcore::limit(format!("cannot read {s}"))
    }
    fn eqt(&self, o: &Self) -> B {
        self.bv().equals(o.bv())
    }
    fn zt(&self) -> B {
        self.eqt(&Self::cst(0))
    }
    /// inverse, 0 for 0
    fn inv0(&self) -> Self {
        Self::from_term(self.bv().inv(Self::PRIME as u128))
    }
    /// restrict to `self = o` on this path
    fn assume_eq(&self, o: &Self) {
        symcore::assume(self.eqt(o));
    }
    fn cst(v: i64) -> Self {
        Self::from(v.rem_euclid(Self::PRIME as i64) as u64)
    }
    fn neg_cst(v: u64) -> Self {
        -Self::from(v % Self::PRIME)
    }
}
impl<const P: u64, const W: usize> Fld for SymField<P, W> {
    const PRIME: u64 = P;
    fn from_term(t: Bv) -> Self {
        Self::from_bv(t)
    }
    fn bv(&self) -> Bv {
        SymField::bv(self)
    }
    fn eqt(&self, o: &Self) -> B {
        if self.cc(o) {
            return B::lit(self.c == o.c);
        }
        let d = self.diff(o);
        self.eq_term(o, &d)
    }
    fn from_printed(s: &str) -> Self {
        let t = s.strip_prefix("<s").and_then(|s| s.strip_suffix('>')).unwrap().parse().unwrap();
        SymField { c: 0, t }
    }
    fn inv0(&self) -> Self {
        self.inverse(false)
    }
    fn assume_eq(&self, o: &Self) {
        let d = self.diff(o);
        symcore::assume(self.eq_term(o, &d));
        poly::add_rule(P, &d);
    }
    fn int_bv(i: &SymInt<W>) -> Bv {
        i.bv()
    }
    fn int_from(v: u64) -> SymInt<W> {
        SymInt::k(v)
    }
    fn int_term(t: Bv) -> SymInt<W> {
        SymInt::from_bv(t)
    }
}
macro_rules! real_field {
    ($f:ty, $p:expr) => {
        impl Fld for $f {
            const PRIME: u64 = $p;
            fn from_term(t: Bv) -> Self {
                Self::from(t.as_const().expect("real field used symbolically") as u64)
            }
            fn bv(&self) -> Bv {
                Bv::c(self.to_degree() as u128)
            }
            fn int_bv(i: &Self::Integer) -> Bv {
                Bv::c(i.try_into_u64().unwrap() as u128)
            }
            fn int_from(v: u64) -> Self::Integer {
                v.into()
            }
            fn int_term(t: Bv) -> Self::Integer {
                (t.as_const().expect("real integer used symbolically") as u64).into()
            }
        }
    };
}
real_field!(BabyBearField, 2013265921);
real_field!(powdr_number::KoalaBearField, 2130706433);
real_field!(powdr_number::GoldilocksField, 0xffff_ffff_0000_0001);

pub const BB: u64 = 2013265921;
pub type SBB = SymField<BB, 32>;
pub type S7 = SymField<7, 4>;
pub type S13 = SymField<13, 5>;
pub type S29 = SymField<29, 6>;
pub type S31n = SymField<29, 5>;
pub type S113 = SymField<113, 8>;
pub type S241 = SymField<241, 8>;
