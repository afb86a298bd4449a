//! Range constraints: arithmetic and set operations.
use crate::field::*;
use crate::jobs::Job;
use powdr_constraint_solver::range_constraint::RangeConstraint as RC;
use powdr_number::FieldElement;
use symcore::*;

/// Membership as documented: interval (wrapping if min > max) and bit mask.
pub fn allows<T: Fld>(r: &RC<T>, x: T) -> B {
    let (min, max) = r.range();
    let (x, min, max) = (x.bv(), min.bv(), max.bv());
    let m = T::int_bv(r.mask());
    let lo = min.le(x);
    let hi = x.le(max);
    let wrap = max.lt(min);
    let in_range = wrap.and(lo.or(hi)).or(wrap.not().and(lo.and(hi)));
    in_range.and(x.and(m).equals(x))
}

pub fn int<T: Fld>(name: &str) -> T::Integer {
    // any mask value of the integer type
    let bits = T::Integer::NUM_BITS as u16;
    let f = fresh(name, mask(bits) + 1);
    T::int_term(f)
}
use powdr_number::LargeInt;

/// An arbitrary range constraint built through the public constructors.
pub fn any_rc<T: Fld>(n: &str, kinds: usize) -> RC<T> {
    match choose(kinds) {
        0 => RC::from_range(T::any(&format!("{n}.min")), T::any(&format!("{n}.max"))),
        1 => RC::from_mask(int::<T>(&format!("{n}.mask"))),
        2 => RC::from_value(T::any(&format!("{n}.val"))),
        3 => RC::from_range(T::any(&format!("{n}.min")), T::any(&format!("{n}.max")))
            .conjunction(&RC::from_mask(int::<T>(&format!("{n}.mask")))),
        4 => RC::from_range(T::any(&format!("{n}.min")), T::any(&format!("{n}.max")))
            .disjunction(&RC::from_value(T::any(&format!("{n}.val")))),
        5 => RC::from_mask(int::<T>(&format!("{n}.mask")))
            .disjunction(&RC::from_value(T::any(&format!("{n}.val")))),
        6 => RC::from_mask(int::<T>(&format!("{n}.mask")))
            .combine_sum(&RC::from_value(T::any(&format!("{n}.val")))),
        _ => unreachable!(),
    }
}
fn show<T: Fld>(r: &RC<T>) -> String {
    let (a, b) = r.range();
    format!("[{a}, {b}] & 0x{:x}", r.mask())
}

fn sum<T: Fld>(k: usize) {
    let a = any_rc::<T>("a", k);
    let b = any_rc::<T>("b", k);
    let (x, y) = (T::any("x"), T::any("y"));
    let r = a.combine_sum(&b);
    note(|| format!("a={} b={} x={x} y={y} a+b={}", show(&a), show(&b), show(&r)));
    check(
        allows(&a, x).and(allows(&b, y)).implies(allows(&r, x + y)),
        "sum of two allowed values is outside combine_sum",
    );
}
fn product<T: Fld>(k: usize) {
    let a = any_rc::<T>("a", k);
    let b = any_rc::<T>("b", k);
    let (x, y) = (T::any("x"), T::any("y"));
    let r = a.combine_product(&b);
    note(|| format!("a={} b={} x={x} y={y} a*b={}", show(&a), show(&b), show(&r)));
    check(
        allows(&a, x).and(allows(&b, y)).implies(allows(&r, x * y)),
        "product of two allowed values is outside combine_product",
    );
}
fn square<T: Fld>(k: usize) {
    let a = any_rc::<T>("a", k);
    let x = T::any("x");
    let r = a.square();
    note(|| format!("a={} x={x} a^2={}", show(&a), show(&r)));
    check(
        allows(&a, x).implies(allows(&r, x * x)),
        "square of an allowed value is outside square()",
    );
}
fn multiple<T: Fld>(k: usize, consts: &'static [i64]) {
    let a = any_rc::<T>("a", k);
    let x = T::any("x");
    let c = if consts.is_empty() {
        T::any("c")
    } else {
        T::from(pick(consts))
    };
    let r = a.multiple(c);
    note(|| format!("a={} x={x} c={c} c*a={}", show(&a), show(&r)));
    check(
        allows(&a, x).implies(allows(&r, c * x)),
        "multiple of an allowed value is outside multiple()",
    );
    if choose_bool() {
        let n = -a;
        check(
            allows(&a, x).implies(allows(&n, -x)),
            "negation of an allowed value is outside neg()",
        );
    }
}
fn set_binary<T: Fld>(k: usize) {
    let a = any_rc::<T>("a", k);
    let b = any_rc::<T>("b", k);
    let x = T::any("x");
    match choose(3) {
        0 => {
            let r = a.conjunction(&b);
            note(|| format!("a={} b={} x={x} conj={}", show(&a), show(&b), show(&r)));
            check(
                allows(&a, x).and(allows(&b, x)).implies(allows(&r, x)),
                "value allowed by both is not allowed by the conjunction",
            );
        }
        1 => {
            let r = a.disjunction(&b);
            note(|| format!("a={} b={} x={x} disj={}", show(&a), show(&b), show(&r)));
            check(
                allows(&a, x).or(allows(&b, x)).implies(allows(&r, x)),
                "value allowed by one is not allowed by the disjunction",
            );
        }
        _ => {
            let d = a.is_disjoint(&b);
            note(|| format!("a={} b={} x={x} disjoint={d}", show(&a), show(&b)));
            if d {
                cover("disjoint");
                check(
                    allows(&a, x).and(allows(&b, x)).not(),
                    "is_disjoint, but a value is allowed by both",
                );
            }
        }
    }
}
fn constructors<T: Fld>() {
    let x = T::any("x");
    match choose(5) {
        0 => {
            let (a, b) = (T::any("min"), T::any("max"));
            let r = RC::from_range(a, b);
            let (xb, ab, bb) = (x.bv(), a.bv(), b.bv());
            let spec = Bv::ite_b(
                ab.le(bb),
                ab.le(xb).and(xb.le(bb)),
                ab.le(xb).or(xb.le(bb)),
            );
            note(|| format!("from_range({a},{b}) = {} x={x}", show(&r)));
            check(allows(&r, x).iff(spec), "from_range allows the wrong set");
            check_bool(
                r.allows_value(x) == branch(spec),
                "allows_value disagrees with the interval",
            );
        }
        1 => {
            let m = int::<T>("mask");
            let r = RC::<T>::from_mask(m);
            let spec = x.bv().and(T::int_bv(&m)).equals(x.bv());
            check(allows(&r, x).iff(spec), "from_mask allows the wrong set");
            check_bool(
                r.allows_value(x) == branch(spec),
                "allows_value disagrees with the mask",
            );
        }
        2 => {
            let v = T::any("v");
            let r = RC::from_value(v);
            check(allows(&r, x).iff(x.eqt(&v)), "from_value allows the wrong set");
            check_bool(r.allows_value(x) == branch(x.eqt(&v)), "allows_value of a single value");
        }
        3 => {
            let b = choose(T::BITS as usize);
            let r = RC::<T>::from_max_bit(b);
            let spec = x.bv().lt(Bv::c(1u128 << (b + 1)));
            check(allows(&r, x).iff(spec), "from_max_bit allows the wrong set");
        }
        _ => {
            let r = if choose_bool() { RC::<T>::unconstrained() } else { RC::<T>::default() };
            check(allows(&r, x), "unconstrained disallows a value");
            check_bool(r.is_unconstrained(), "unconstrained() is not is_unconstrained");
        }
    }
}
fn queries<T: Fld>(k: usize) {
    let a = any_rc::<T>("a", k);
    let x = T::any("x");
    match choose(4) {
        0 => {
            let v = a.allows_value(x);
            note(|| format!("a={} x={x} allows={v}", show(&a)));
            check(B::lit(v).iff(allows(&a, x)), "allows_value disagrees with mask and range");
        }
        1 => {
            if let Some(v) = a.try_to_single_value() {
                cover("single value");
                note(|| format!("a={} single={v} x={x}", show(&a)));
                check(allows(&a, x).implies(x.eqt(&v)), "single value is not the only one");
            }
        }
        2 => {
            if a.is_unconstrained() {
                cover("unconstrained");
                check(allows(&a, x), "is_unconstrained, but a value is disallowed");
            }
        }
        _ => {
            let (min, max) = a.range();
            let w = T::int_bv(&a.range_width());
            let (mn, mx) = (min.bv(), max.bv());
            let p = Bv::c(T::PRIME as u128);
            let spec = Bv::ite(
                mn.le(mx),
                mx.add(Bv::c(1)).sub_unchecked(mn),
                p.add(mx).add(Bv::c(1)).sub_unchecked(mn),
            );
            note(|| format!("a={} width={}", show(&a), a.range_width()));
            check(w.equals(spec), "range_width is not the number of interval elements");
            // size estimate is an upper bound: three distinct members
            let s = T::int_bv(&a.size_estimate());
            let (y, z) = (T::any("y"), T::any("z"));
            let distinct = B::all([
                x.eqt(&y).not(),
                x.eqt(&z).not(),
                y.eqt(&z).not(),
                allows(&a, x),
                allows(&a, y),
                allows(&a, z),
            ]);
            check(
                distinct.implies(Bv::c(3).le(s)).and(allows(&a, x).implies(Bv::c(1).le(s))),
                "size_estimate below the number of allowed values",
            );
        }
    }
}
fn enumerate<T: Fld>(k: usize, width: u128) {
    let a = any_rc::<T>("a", k);
    assume(T::int_bv(&a.range_width()).le(Bv::c(width)));
    let vals: Vec<T> = a.allowed_values().collect();
    note(|| format!("a={} values={vals:?}", show(&a)));
    let x = T::any("x");
    let listed = B::any(vals.iter().map(|v| v.eqt(&x)));
    check(listed.iff(allows(&a, x)), "allowed_values lists the wrong set");
    for i in 0..vals.len() {
        for j in 0..i {
            check(vals[i].eqt(&vals[j]).not(), "allowed_values lists a value twice");
        }
    }
}

const FN1: &[&str] = &[
    "RangeConstraint::combine_sum", "RangeConstraint::combine_product", "RangeConstraint::square",
    "RangeConstraint::multiple", "RangeConstraint::neg", "RangeConstraint::conjunction", "RangeConstraint::disjunction",
    "RangeConstraint::from_range", "RangeConstraint::from_mask", "range_multiple", "range_width", "mask_from_bits",
    "interval_intersection", "log2_exact", "FieldElement::to_arbitrary_integer",
];
const FN2: &[&str] = &[
    "RangeConstraint::conjunction", "RangeConstraint::disjunction", "RangeConstraint::is_disjoint",
    "RangeConstraint::from_*", "RangeConstraint::allows_value", "RangeConstraint::try_to_single_value",
    "RangeConstraint::is_unconstrained", "RangeConstraint::range_width", "RangeConstraint::size_estimate",
    "RangeConstraint::allowed_values", "interval_intersection", "shifted_interval", "mask_from_bits",
];
const CS: &[i64] = &[0, 1, 2, 3, 256, 65536, 1 << 24, -1, -2, -256, 1 << 30, 943718400, 1006632961];

pub fn jobs(v: &mut Vec<Job>) {
    use powdr_number::BabyBearField as BBF;
    macro_rules! j {
        ($p:expr, $n:expr, $b:expr, $t:ty, $r:ty, $f:ident($($a:expr),*)) => {
            Job::new($p, $n, || $f::<$t>($($a),*)).real(|| $f::<$r>($($a),*)).bounds($b)
                .functions(if $p == "C01" { FN1 } else { FN2 })
        };
    }
    let b113 = "p=113, 8-bit integers; constraints built from arbitrary mask/interval/value and one conjunction/disjunction; all values symbolic";
    let bbb = "p=2013265921 (BabyBear), 32-bit integers; all bounds, masks and values symbolic";
    let b29 = "p=29, 6-bit integers (one spare bit); constraints built from arbitrary mask/interval/value and one conjunction/disjunction/sum; all values symbolic";
    let b13 = "p=13, 5-bit integers (one spare bit); constraints built from arbitrary mask/interval/value and one conjunction/disjunction/sum; all values symbolic";
    let b31 = "p=29, 5-bit integers (no spare bit); constraints built from arbitrary mask/interval/value and one conjunction/disjunction/sum; all values symbolic";
    macro_rules! small {
        ($p:expr, $n:expr, $sp:expr, $c:expr, $f:ident($($a:expr),*)) => {
            v.push(j!($p, format!("{}.{}.13", $p, $n), b13, S13, S13, $f($($a),*)).split($sp).cost($c));
            v.push(j!($p, format!("{}.{}.29", $p, $n), b29, S29, S29, $f($($a),*)).split($sp).cost($c).thorough());
            v.push(j!($p, format!("{}.{}.29n", $p, $n), b31, S31n, S31n, $f($($a),*)).split($sp).cost($c).thorough());
            v.push(j!($p, format!("{}.{}.113", $p, $n), b113, S113, S113, $f($($a),*)).split($sp).cost($c).thorough());
            v.push(j!($p, format!("{}.{}.241", $p, $n), b113, S241, S241, $f($($a),*)).split($sp).cost($c).thorough());
        };
    }
    small!("C01", "sum", &[7, 7], 1, sum(7));
    small!("C01", "product", &[7, 7], 1, product(7));
    small!("C01", "square", &[7], 1, square(7));
    small!("C01", "multiple", &[7], 1, multiple(7, &[]));
    v.push(j!("C01", "C01.sum2.bb", bbb, SBB, BBF, sum(2)).split(&[2, 2]).cost(3));
    v.push(j!("C01", "C01.multiple.bb", bbb, SBB, BBF, multiple(4, CS)).split(&[4]).cost(3));
    v.push(j!("C01", "C01.sum.bb", bbb, SBB, BBF, sum(4)).split(&[4]).thorough());
    v.push(j!("C01", "C01.sum3.29n", b31, S31n, S31n, sum(3)).split(&[3, 3]).cost(1));
    v.push(j!("C01", "C01.product3.29n", b31, S31n, S31n, product(3)).split(&[3, 3]).cost(1));
    v.push(j!("C01", "C01.multiple3.29n", b31, S31n, S31n, multiple(3, &[])).split(&[3]).cost(1));
    v.push(j!("C01", "C01.square3.29n", b31, S31n, S31n, square(3)).split(&[3]).cost(1));
    v.push(j!("C02", "C02.set3.29n", b31, S31n, S31n, set_binary(3)).split(&[3, 3]).cost(1));
    v.push(j!("C02", "C02.queries.29n", b31, S31n, S31n, queries(7)).split(&[7]).cost(1));
    small!("C02", "set", &[7, 7], 1, set_binary(7));
    small!("C02", "queries", &[7], 1, queries(7));
    v.push(j!("C02", "C02.constructors.bb", bbb, SBB, BBF, constructors()));
    v.push(j!("C02", "C02.constructors.29", b29, S29, S29, constructors()));
    v.push(j!("C02", "C02.constructors.241", b113, S241, S241, constructors()));
    v.push(j!("C02", "C02.set2.bb", bbb, SBB, BBF, set_binary(2)).split(&[2, 2]).cost(3));
    v.push(j!("C02", "C02.set.bb", bbb, SBB, BBF, set_binary(4)).split(&[4]).thorough());
    v.push(j!("C02", "C02.queries.bb", bbb, SBB, BBF, queries(4)).split(&[4]));
    v.push(j!("C02", "C02.enumerate.113", "p=113, interval width at most 5", S113, S113, enumerate(7, 5)));
    v.push(j!("C02", "C02.enumerate.bb", "p=BabyBear, interval width at most 3", SBB, BBF, enumerate(4, 3)));
}
