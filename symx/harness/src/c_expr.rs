//! Grouped expressions: arithmetic, substitution, decomposition, range inference.
use crate::c_range::{allows, any_rc};
use crate::field::*;
use crate::jobs::Job;
use crate::sysu::*;
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::runtime_constant::VarTransformable;
use std::collections::{BTreeMap, HashMap};
use symcore::*;

/// A linear form over the given variables with symbolic coefficients.
fn lin<T: Fld>(n: &str, vars: &[u16], konst: bool) -> Tr<T> {
    let mut t: Option<Tr<T>> = None;
    for v in vars {
        let c = T::any(&format!("{n}.{}", Vr(*v)));
        let m = Tr::V(*v).mul(Tr::K(c));
        t = Some(match t {
            None => m,
            Some(t) => t.add(m),
        });
    }
    if konst || t.is_none() {
        let k = Tr::K(T::any(&format!("{n}.0")));
        t = Some(match t {
            None => k,
            Some(t) => t.add(k),
        });
    }
    t.unwrap()
}
/// Expression shapes with symbolic coefficients.
pub fn shape<T: Fld>(n: &str, k: usize) -> Tr<T> {
    match k {
        0 => lin(n, &[0], true),
        1 => lin(n, &[0, 1], false),
        2 => lin(&format!("{n}l"), &[0], true).mul(lin(&format!("{n}r"), &[1], true)),
        3 => lin(&format!("{n}l"), &[0], true).mul(lin(&format!("{n}r"), &[0], true)),
        4 => lin(&format!("{n}l"), &[0], false)
            .mul(lin(&format!("{n}r"), &[1], false))
            .add(lin(n, &[0], true)),
        5 => Tr::V(0).mul(Tr::V(1)),
        6 => lin(n, &[], true),
        7 => Tr::V(0)
            .mul(Tr::V(1))
            .mul(lin(&format!("{n}l"), &[2], true)),
        8 => Tr::V(0)
            .mul(lin(&format!("{n}l"), &[1], true))
            .sub(Tr::V(1).mul(lin(&format!("{n}r"), &[0], true))),
        _ => unreachable!(),
    }
}
const NSHAPE: usize = 9;

fn eq_val<T: Fld>(e: &Ge<T>, t: &Tr<T>, env: &[T], msg: &str) {
    let got = eval(e, &|v: &Vr| env[v.0 as usize]);
    let want = t.val(env);
    note(|| format!("expression {e} from {t} under {env:?}: value {got}, expected {want}"));
    check(got.eqt(&want), msg);
}
fn degree_ok<T: Fld>(e: &Ge<T>, t: &Tr<T>) {
    note(|| format!("{t} -> {e}: degree {} of {}", e.degree(), t.degree()));
    check_bool(e.degree() <= t.degree(), "arithmetic raised the degree");
    check_bool(
        refs(e).iter().all(|v| e.degree_of_variable(v) >= 1 && e.degree_of_variable(v) <= e.degree()),
        "degree of a referenced variable out of range",
    );
}

fn arith<T: Fld>() {
    let s1 = choose(NSHAPE);
    let op = choose(4);
    let a = shape::<T>("p", s1);
    let t = match op {
        0 => a.add(shape("q", choose(NSHAPE))),
        1 => a.sub(shape("q", choose(NSHAPE))),
        2 => a.mul(shape("q", choose(NSHAPE))),
        _ => a.neg(),
    };
    let e = t.ge();
    let env = fresh_env::<T>(3);
    eq_val(&e, &t, &env, "arithmetic on expressions changes the value");
    degree_ok(&e, &t);
}
/// cancelling terms: e - e', e + (-e) with shared structure
fn cancel<T: Fld>() {
    let s1 = choose(NSHAPE);
    let s2 = choose(NSHAPE);
    let a = shape::<T>("p", s1);
    let b = shape::<T>("q", s2);
    let t = match choose(5) {
        0 => a.clone().add(b.clone()).sub(a),
        1 => a.clone().mul(b.clone()).sub(b.mul(a)),
        2 => a.clone().mul(b.clone()).add(b.neg().mul(a.neg())),
        3 => a.clone().mul(b.clone()).add(a.neg().mul(b)),
        _ => a.clone().sub(b.clone()).add(b).sub(a.mul(Tr::K(T::any("k")))),
    };
    let e = t.ge();
    let env = fresh_env::<T>(3);
    eq_val(&e, &t, &env, "cancellation changes the value");
}
/// three products that can become equal up to sign after substitutions
fn subst3<T: Fld>() {
    let first = choose(3) as u16;
    let o: Vec<u16> = [0u16, 2, 3].into_iter().cycle().skip(first as usize).take(3).collect();
    let term = |i: u16| Tr::V(i).mul(Tr::K(T::any(&format!("c{i}")))).mul(Tr::V(1));
    let t: Tr<T> = term(o[0]).add(term(o[1])).add(term(o[2])).add(Tr::V(0));
    let mut e = t.ge();
    let mut env = fresh_env::<T>(4);
    for i in [2u16, 3] {
        match choose(2) {
            0 => {
                let d = T::any(&format!("d{i}"));
                e.substitute_by_unknown(&Vr(i), &(var::<T>(0) * d));
                env[i as usize] = env[0] * d;
            }
            _ => {
                let d = T::any(&format!("d{i}"));
                e.substitute_by_known(&Vr(i), &d);
                env[i as usize] = d;
            }
        }
    }
    eq_val(&e, &t, &env, "substituting into three products changes the value");
    let d = T::any("d1");
    if choose_bool() {
        e.substitute_by_unknown(&Vr(1), &(var::<T>(0) * d));
        env[1] = env[0] * d;
        eq_val(&e, &t, &env, "substituting into three products changes the value");
    }
}
fn subst<T: Fld>() {
    let s1 = choose(NSHAPE);
    let how = choose(4);
    let t = if choose_bool() {
        shape::<T>("p", s1)
    } else {
        shape::<T>("p", s1).add(Tr::V(0).mul(Tr::V(2)))
    };
    let mut e = t.ge();
    let mut env = fresh_env::<T>(3);
    let env0 = env.clone();
    let deg0 = e.degree();
    match how {
        0 => {
            let k = T::any("k");
            e.substitute_simple(&Vr(0), k);
            env[0] = k;
            note(|| format!("{t}[a := {k}] = {e}"));
            check_bool(!refs(&e).contains(&Vr(0)), "substituted variable still referenced");
            check_bool(e.degree() <= deg0, "substituting a constant raised the degree");
        }
        1 => {
            let k = T::any("k");
            e.substitute_by_known(&Vr(0), &k);
            env[0] = k;
            note(|| format!("{t}[a := {k}] = {e}"));
            check_bool(!refs(&e).contains(&Vr(0)), "substituted variable still referenced");
            check_bool(e.degree() <= deg0, "substituting a constant raised the degree");
        }
        2 => {
            let (k, l) = (T::any("k"), T::any("l"));
            let m: BTreeMap<Vr, T> = [(Vr(0), k), (Vr(1), l)].into();
            e = e.substitute_by_known_multi(&m);
            env[0] = k;
            env[1] = l;
            check_bool(
                !refs(&e).contains(&Vr(0)) && !refs(&e).contains(&Vr(1)),
                "substituted variable still referenced",
            );
        }
        _ => {
            let s = match choose(3) {
                0 => lin::<T>("s", &[1], true),
                1 => lin::<T>("s", &[0, 2], false),
                _ => Tr::V(1).mul(lin("s", &[2], true)),
            };
            let sub = s.ge();
            e.substitute_by_unknown(&Vr(0), &sub);
            env[0] = s.val(&env0);
            note(|| format!("{t}[a := {s}] = {e}"));
            if !refs(&sub).contains(&Vr(0)) {
                check_bool(!refs(&e).contains(&Vr(0)), "substituted variable still referenced");
            }
        }
    }
    let got = eval(&e, &|v: &Vr| env0[v.0 as usize]);
    let want = t.val(&env);
    note(|| format!("{t} substituted: {e} = {got}, expected {want} env {env0:?}"));
    check(got.eqt(&want), "substitution changes the value");
}
fn decompose<T: Fld>() {
    let s1 = choose(NSHAPE);
    let t = shape::<T>("p", s1);
    let e = t.ge();
    let env = fresh_env::<T>(3);
    let ev = |e: &Ge<T>| eval(e, &|v: &Vr| env[v.0 as usize]);
    let v = t.val(&env);
    match choose(7) {
        0 => {
            let f = e.to_factors();
            note(|| format!("{e} factors {}", f.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(" | ")));
            check(
                v.zt().iff(B::any(f.iter().map(|f| ev(f).zt()))),
                "factors vanish on a different set than the expression",
            );
        }
        1 => {
            if let Some((h, tl)) = e.clone().try_split_head_tail() {
                check((ev(&h) + ev(&tl)).eqt(&v), "head + tail differs");
            } else {
                check_bool(e.referenced_unknown_variables().next().is_none(), "no head but variables");
            }
        }
        2 => {
            let s = e
                .clone()
                .into_summands()
                .map(|c| ev(&GroupedExpression::from(c)))
                .fold(T::cst(0), |a, b| a + b);
            check(s.eqt(&v), "summands do not add up");
        }
        3 => {
            for x in 0..3u16 {
                if let Some((c, rest)) = e.try_extract_affine_var(Vr(x)) {
                    check(
                        (c * env[x as usize] + ev(&rest)).eqt(&v),
                        "affine decomposition differs",
                    );
                    check_bool(!refs(&rest).contains(&Vr(x)), "rest still references the variable");
                }
            }
        }
        4 => {
            if let Some((l, r)) = e.try_as_single_product() {
                check((ev(l) * ev(r)).eqt(&v), "single product differs");
            }
            if let Some(x) = e.try_to_simple_unknown() {
                check(env[x.0 as usize].eqt(&v), "simple unknown differs");
            }
            if let Some(n) = e.try_to_number() {
                check(n.eqt(&v), "number differs");
            }
        }
        5 => {
            let r: GroupedExpression<T, u32> =
                e.try_transform_var_type(&mut |v: &Vr| Some(10 - v.0 as u32)).unwrap();
            let got = eval(&r, &|x: &u32| env[(10 - *x) as usize]);
            check(got.eqt(&v), "renaming variables changes the value");
        }
        _ => {
            let r = refs(&e);
            // an expression without a variable does not depend on it
            let mut env2 = env.clone();
            for (i, x) in env2.iter_mut().enumerate() {
                if !r.contains(&Vr(i as u16)) {
                    *x = T::any("other");
                }
            }
            check(t.val(&env2).eqt(&v), "value depends on an unreferenced variable");
        }
    }
}
const F3: &[&str] = &[
    "GroupedExpression::{add,sub,neg,mul,mul_assign}", "combine_removing_zeros",
    "remove_quadratic_terms_adding_to_zero", "quadratic_terms_add_to_zero",
    "GroupedExpression::{substitute_simple,substitute_by_known,substitute_by_known_multi,substitute_by_unknown}",
    "GroupedExpression::{to_factors,try_split_head_tail,into_summands,try_extract_affine_var,try_as_single_product,degree,degree_of_variable}",
    "VarTransformable for GroupedExpression",
];

/// C04: a value reachable under the variables' ranges is inside the inferred range.
fn infer<T: Fld>(shapes: &'static [usize], kinds: usize) {
    let s = pick(shapes);
    let t = shape_small::<T>(s);
    let e = t.ge();
    let env = fresh_env::<T>(2);
    let a = any_rc::<T>("a", kinds);
    let b = if refs(&e).len() > 1 { any_rc::<T>("b", kinds) } else { Default::default() };
    let rcs: HashMap<Vr, _> = [(Vr(0), a), (Vr(1), b)].into_iter().collect();
    let r = e.range_constraint(&rcs);
    let v = t.val(&env);
    note(|| format!("{e} with a in {a}, b in {b}: range {r}, a={} b={} value={v}", env[0], env[1]));
    check(
        allows(&a, env[0]).and(allows(&b, env[1])).implies(allows(&r, v)),
        "expression takes a value outside its inferred range",
    );
}
fn shape_small<T: Fld>(k: usize) -> Tr<T> {
    let c = |n: &str| Tr::K(T::any(n));
    match k {
        0 => Tr::V(0).mul(c("k1")).add(c("k0")),
        1 => Tr::V(0).add(Tr::V(1)),
        2 => Tr::V(0).sub(Tr::V(1).mul(Tr::K(T::cst(2)))),
        3 => Tr::V(0).mul(Tr::V(1)),
        4 => Tr::V(0).mul(Tr::V(0)),
        5 => Tr::V(0).add(Tr::K(T::cst(1))).mul(Tr::V(0).add(Tr::K(T::cst(1)))),
        6 => Tr::V(0).sub(Tr::K(T::cst(1))).mul(Tr::V(1)).add(Tr::V(0)),
        7 => Tr::V(0).neg().mul(Tr::V(0)).add(c("k0")),
        8 => Tr::V(0).mul(Tr::K(T::cst(4))).add(Tr::V(1)).sub(Tr::K(T::cst(3))),
        _ => unreachable!(),
    }
}
const F4: &[&str] = &["GroupedExpression::range_constraint", "RangeConstraint::{combine_sum,combine_product,square,multiple}"];

pub fn jobs(v: &mut Vec<Job>) {
    use powdr_number::BabyBearField as BBF;
    let b7 = "p=7; operands from 9 expression shapes (degree <= 3, <= 3 variables), all coefficients and variable values symbolic";
    for (t, p, f) in [(false, 7, (arith::<S7> as fn(), cancel::<S7> as fn(), subst::<S7> as fn(), decompose::<S7> as fn())), (true, 13, (arith::<S13>, cancel::<S13>, subst::<S13>, decompose::<S13>)), (true, 29, (arith::<S29>, cancel::<S29>, subst::<S29>, decompose::<S29>))] {
        let b = b7.replace("p=7", &format!("p={p}"));
        v.push(Job::new("C03", format!("C03.arith.{p}"), f.0).bounds(&b).functions(F3).split(&[NSHAPE]).cost(3).thorough_if(t));
        v.push(Job::new("C03", format!("C03.cancel.{p}"), f.1).bounds(&b).functions(F3).split(&[NSHAPE]).cost(6).thorough_if(t));
        v.push(Job::new("C03", format!("C03.subst.{p}"), f.2).bounds(&b).functions(F3).split(&[NSHAPE]).cost(2).thorough_if(t));
        v.push(Job::new("C03", format!("C03.decompose.{p}"), f.3).bounds(&b).functions(F3).split(&[NSHAPE]).cost(2).thorough_if(t));
    }
    v.push(Job::new("C03", "C03.subst3.7", subst3::<S7>).bounds("p=7; three products with symbolic coefficients, 2-3 successive substitutions by multiples of a variable or constants").functions(F3).split(&[3]).cost(2));
    v.push(Job::new("C03", "C03.subst3.13", subst3::<S13>).bounds("p=13; three products with symbolic coefficients, 2-3 successive substitutions by multiples of a variable or constants").functions(F3).split(&[3]).cost(2).thorough());
    let b4 = "expression shapes with <= 2 variables and degree <= 2, variable ranges arbitrary (mask, interval, value, conjunction)";
    v.push(Job::new("C04", "C04.infer.13", || infer::<S13>(&[0, 1, 2, 3, 4, 5, 6, 7, 8], 4)).bounds(format!("p=13; {b4}")).functions(F4).split(&[9, 4]));
    v.push(Job::new("C04", "C04.infer.29", || infer::<S29>(&[0, 1, 2, 3, 4, 5, 6, 7, 8], 4)).bounds(format!("p=29; {b4}")).functions(F4).split(&[9, 4]).thorough());
    v.push(Job::new("C04", "C04.infer.113", || infer::<S113>(&[0, 3, 4, 5, 6, 7], 2)).bounds(format!("p=113; {b4}")).functions(F4).split(&[6]).thorough());
    v.push(Job::new("C04", "C04.infer.bb", || infer::<SBB>(&[1, 2, 8], 2)).real(|| infer::<BBF>(&[1, 2, 8], 2)).bounds(format!("p=BabyBear; linear shapes; {b4}")).functions(F4).split(&[3]).thorough());
}
