//! Replay of Curve.tla behaviours.
use crate::num::*;
use crate::report::Report;
use curvo::prelude::*;
use nalgebra::{Const, OMatrix, OPoint, Point3, Point4};
use serde_json::{json, Value};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!(static GUARD: Cell<bool> = const { Cell::new(false) });
pub fn guarded() -> bool {
    GUARD.with(|g| g.get())
}
/// Run code under test; a panic becomes Err("panicked: ...")
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = GUARD.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.with(|g| g.set(old));
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("panicked: {m}")
    })
}
/// the same for fallible calls
pub fn gtry<R>(f: impl FnOnce() -> anyhow::Result<R>) -> Result<R, String> {
    match guard(f) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("returned an error: {e}")),
        Err(p) => Err(p),
    }
}

#[derive(Clone, Debug)]
pub enum Cv {
    C2(NurbsCurve2D<f64>),
    C3(NurbsCurve3D<f64>),
}
use Cv::*;

macro_rules! each {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            C2($c) => $e,
            C3($c) => $e,
        }
    };
}
macro_rules! map {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            C2($c) => C2($e),
            C3($c) => C3($e),
        }
    };
}

pub fn build(c: &Value) -> anyhow::Result<Cv> {
    let p = us(&c["p"]);
    let u = vec(&c["U"]);
    let pts: Vec<Vec<f64>> = arr(&c["P"]).iter().map(vec).collect();
    Ok(if pts[0].len() == 3 {
        C2(NurbsCurve2D::try_new(p, pts.iter().map(|q| Point3::from_slice(q)).collect(), u)?)
    } else {
        C3(NurbsCurve3D::try_new(p, pts.iter().map(|q| Point4::from_slice(q)).collect(), u)?)
    })
}

pub const TOL: f64 = 1e-8;

impl Cv {
    pub fn at(&self, u: f64) -> Vec<f64> {
        each!(self, c => c.point_at(u).coords.as_slice().to_vec())
    }
    pub fn knots(&self) -> Vec<f64> {
        each!(self, c => c.knots().to_vec())
    }
    pub fn degree(&self) -> usize {
        each!(self, c => c.degree())
    }
    pub fn cps(&self) -> Vec<Vec<f64>> {
        each!(self, c => c.control_points().iter().map(|p| p.coords.as_slice().to_vec()).collect())
    }
    pub fn domain(&self) -> (f64, f64) {
        each!(self, c => c.knots_domain())
    }
    pub fn is_clamped(&self) -> bool {
        each!(self, c => c.is_clamped())
    }
    pub fn d1(&self, u: f64) -> Vec<f64> {
        each!(self, c => c.tangent_at(u).as_slice().to_vec())
    }
    pub fn d2(&self, u: f64) -> Vec<f64> {
        each!(self, c => c.second_derivative_at(u).as_slice().to_vec())
    }
}

fn fmt(v: &[f64]) -> String {
    format!("{v:?}")
}

/// structural validity: sorted finite knots, matching counts
pub fn structure(c: &Cv) -> Result<(), String> {
    let (k, n, p) = (c.knots(), c.cps().len(), c.degree());
    if k.len() != n + p + 1 {
        return Err(format!("{} knots, {} control points, degree {}", k.len(), n, p));
    }
    if n <= p {
        return Err(format!("{n} control points for degree {p}"));
    }
    if k.windows(2).any(|w| !(w[0] <= w[1])) {
        return Err(format!("knots not sorted: {}", fmt(&k)));
    }
    if c.cps().iter().flatten().any(|x| !x.is_finite()) {
        return Err("control point not finite".into());
    }
    Ok(())
}

/// degree, domain and every surviving correspondence parameter -> point
pub fn shape(c: &Cv, e: &Value, g: &Value, off: f64, exact_domain: bool) -> Result<u64, String> {
    structure(c)?;
    let p = us(&e["p"]);
    if c.degree() != p {
        return Err(format!("degree {} instead of {}", c.degree(), p));
    }
    let u = vec(&e["U"]);
    let (lo, hi) = (u[p] + off, u[u.len() - 1 - p] + off);
    let (a, b) = c.domain();
    let s = lo.abs().max(hi.abs());
    if exact_domain && !(close(a, lo, s, TOL) && close(b, hi, s, TOL)) {
        return Err(format!("domain ({a}, {b}) instead of ({lo}, {hi})"));
    }
    if !exact_domain && !(a <= lo + TOL * s.max(1.) && b >= hi - TOL * s.max(1.)) {
        return Err(format!("domain ({a}, {b}) does not include ({lo}, {hi})"));
    }
    for q in arr(g) {
        let t = (rat(&q[0]) + off).clamp(a, b);
        let x = guard(|| c.at(t)).map_err(|m| format!("point at {t} {m}"))?;
        let y = vec(&q[1]);
        if !vclose(&x, &y, TOL) {
            return Err(format!("point at {t} is {} instead of {}", fmt(&x), fmt(&y)));
        }
    }
    Ok(arr(g).len() as u64)
}

/// knots and control points equal to the specification's
pub fn exact(c: &Cv, e: &Value, off: f64) -> Result<(), String> {
    let u: Vec<f64> = vec(&e["U"]).iter().map(|x| x + off).collect();
    if !vclose(&c.knots(), &u, TOL) {
        return Err(format!("knots {} instead of {}", fmt(&c.knots()), fmt(&u)));
    }
    for (i, (a, b)) in c.cps().iter().zip(arr(&e["P"])).enumerate() {
        if !vclose(a, &vec(b), TOL) {
            return Err(format!("control point {i} is {} instead of {}", fmt(a), fmt(&vec(b))));
        }
    }
    Ok(())
}

fn prop_of(op: &str) -> &'static str {
    match op {
        "create" => "C29",
        "insert" | "refine" => "C02",
        "remove" => "C03",
        "elevate" => "C04",
        "split" | "trim" | "trimwrap" => "C05",
        "reverse" | "normalize" | "lift" | "cast" => "C06",
        "clamp" | "bezier" => "C07",
        "transform" => "C08",
        "serde" => "C27",
        _ => "",
    }
}

fn sorted_with(mut k: Vec<f64>, us: &[f64]) -> Vec<f64> {
    k.extend_from_slice(us);
    k.sort_by(|a, b| a.partial_cmp(b).unwrap());
    k
}

/// Clamping or elevating an unclamped curve may extend its domain (over the knots
/// outside); only the old domain is compared, and the history goes on from the
/// specified curve.
fn extended(cur: &Cv, c: Cv, e: &Value, g: &Value, off: &mut f64, canon: bool, rep: &mut Report) -> Result<Cv, String> {
    let cl = cur.is_clamped();
    rep.count("comparisons", shape(&c, e, g, *off, cl)?);
    if canon && cl {
        exact(&c, e, *off)?;
    }
    if cl {
        Ok(c)
    } else {
        *off = 0.0;
        gtry(|| build(e))
    }
}

/// Applies one operation to the implementation, checks what is specific to the
/// operation, and returns the curve to continue with.
pub fn apply(cur: &Cv, off: &mut f64, o: &Value, step: &Value, rep: &mut Report) -> Result<Cv, String> {
    let canon = bo(&step["canon"]);
    let e = &step["e"]["c"];
    let g = &step["g"];
    let op = st(&o["op"]);
    let more = arr(&step["more"]);
    match op {
        "insert" | "refine" => {
            let us: Vec<f64> = if op == "insert" { vec![rat(&o["a"]) + *off] } else { vec(&o["us"]).iter().map(|x| x + *off).collect() };
            let mut c = cur.clone();
            gtry(|| each!(&mut c, c => if op == "insert" { c.try_add_knot(us[0]) } else { c.try_refine_knot(us.clone()) }))?;
            let want = sorted_with(cur.knots(), &us);
            if !vclose(&c.knots(), &want, 1e-12) {
                return Err(format!("knots {} instead of {}", fmt(&c.knots()), fmt(&want)));
            }
            rep.count("comparisons", shape(&c, e, g, *off, true)?);
            if canon {
                exact(&c, e, *off)?;
            }
            Ok(c)
        }
        "remove" => {
            let want = us(&o["m"]);
            let mut c = cur.clone();
            let a = rat(&o["a"]) + *off;
            let r = guard(|| each!(&mut c, c => c.try_remove_knot(a, None)))?;
            let got = match r {
                Ok(n) => n,
                Err(e) if want > 0 => return Err(format!("{want} occurrences removable, but error: {e}")),
                Err(_) => 0,
            };
            if got != want {
                return Err(format!("removed {got} occurrences of {a}, {want} are removable"));
            }
            if c.knots().len() + got != cur.knots().len() || c.cps().len() + got != cur.cps().len() {
                return Err(format!("reported {got} removed, knots {} -> {}", cur.knots().len(), c.knots().len()));
            }
            rep.count("comparisons", shape(&c, e, g, *off, true)?);
            if canon {
                exact(&c, e, *off)?;
            }
            rep.count(if got > 0 { "removals" } else { "refusals" }, 1);
            Ok(c)
        }
        "elevate" => {
            let t = us(&o["t"]);
            let c = gtry(|| Ok(map!(cur, c => c.try_elevate_degree(c.degree() + t)?)))?;
            let lower = gtry(|| Ok(map!(cur, c => c.try_elevate_degree(c.degree() - 1)?)))?;
            if lower.degree() != cur.degree() || lower.cps() != cur.cps() || lower.knots() != cur.knots() {
                return Err("elevating to a lower degree changed the curve".into());
            }
            extended(cur, c, e, g, off, canon, rep)
        }
        "split" => {
            let a = rat(&o["a"]) + *off;
            let (l, r) = gtry(|| {
                Ok(match cur {
                    C2(c) => c.try_split(a).map(|(x, y)| (C2(x), C2(y)))?,
                    C3(c) => c.try_split(a).map(|(x, y)| (C3(x), C3(y)))?,
                })
            })?;
            let (lo, hi) = cur.domain();
            for (i, c) in [&l, &r].iter().enumerate() {
                let m = &more[i];
                rep.count("comparisons", shape(c, &m["c"], &m["g"], *off, true)?);
                if canon {
                    exact(c, &m["c"], *off)?;
                }
            }
            if l.domain().0 != lo || r.domain().1 != hi || !close(l.domain().1, a, a, 1e-14) || !close(r.domain().0, a, a, 1e-14) {
                return Err(format!("pieces have domains {:?} and {:?}", l.domain(), r.domain()));
            }
            let end = us(&o["side"]);
            Ok(if end == 1 { l } else { r })
        }
        "trim" | "trimwrap" => {
            let (a, b) = (rat(&o["a"]) + *off, rat(&o["b"]) + *off);
            let cs = gtry(|| {
                Ok(match cur {
                    C2(c) => c.try_trim_range((a, b))?.into_iter().map(C2).collect::<Vec<_>>(),
                    C3(c) => c.try_trim_range((a, b))?.into_iter().map(C3).collect::<Vec<_>>(),
                })
            })?;
            if cs.len() != more.len() {
                return Err(format!("{} pieces instead of {}", cs.len(), more.len()));
            }
            for (c, m) in cs.iter().zip(more) {
                rep.count("comparisons", shape(c, &m["c"], &m["g"], *off, true)?);
                if canon {
                    exact(c, &m["c"], *off)?;
                }
            }
            Ok(cs[0].clone())
        }
        "reverse" => {
            let c = guard(|| map!(cur, c => c.inverse()))?;
            let (lo, hi) = cur.domain();
            let (a, b) = c.domain();
            if !close(b - a, hi - lo, hi - lo, 1e-12) {
                return Err(format!("domain ({lo}, {hi}) became ({a}, {b})"));
            }
            let u = vec(&e["U"]);
            *off = a - u[us(&e["p"])];
            rep.count("comparisons", shape(&c, e, g, *off, true)?);
            if canon {
                exact(&c, e, *off)?;
            }
            let twice = guard(|| map!(&c, c => c.inverse()))?;
            if twice.cps() != cur.cps() || !vclose(&twice.knots(), &cur.knots().iter().map(|k| k - cur.knots()[0] + twice.knots()[0]).collect::<Vec<_>>(), 1e-12) {
                return Err("reversing twice does not restore the curve".into());
            }
            Ok(c)
        }
        "normalize" => {
            let mut c = cur.clone();
            guard(|| each!(&mut c, c => c.normalize_knots()))?;
            *off = 0.0;
            if !close(c.domain().0, 0., 1., 1e-12) || !close(c.domain().1, 1., 1., 1e-12) {
                return Err(format!("normalised domain {:?}", c.domain()));
            }
            rep.count("comparisons", shape(&c, e, g, 0.0, true)?);
            if canon {
                exact(&c, e, 0.0)?;
            }
            Ok(c)
        }
        "lift" => {
            let c = guard(|| match cur {
                C2(c) => C3(c.elevate_dimension()),
                C3(c) => C3(c.clone()),
            })?;
            rep.count("comparisons", shape(&c, e, g, *off, true)?);
            if canon {
                exact(&c, e, *off)?;
            }
            Ok(c)
        }
        "cast" => {
            let (k, p, w, pt) = guard(|| each!(cur, c => {
                let f = c.cast::<f32>();
                let d = f.knots_domain();
                let pts: Vec<Vec<f64>> = arr(g).iter().map(|q| {
                    let t = ((rat(&q[0]) + *off) as f32).clamp(d.0, d.1);
                    f.point_at(t).coords.iter().map(|x| *x as f64).collect()
                }).collect();
                (f.knots().to_vec().iter().map(|x| *x as f64).collect::<Vec<_>>(), f.degree(),
                 f.control_points().iter().map(|p| p.coords.iter().map(|x| *x as f64).collect::<Vec<_>>()).collect::<Vec<_>>(), pts)
            }))?;
            if p != cur.degree() || !vclose(&k, &cur.knots(), 1e-5) || w.len() != cur.cps().len() || w.iter().zip(cur.cps()).any(|(a, b)| !vclose(a, &b, 1e-5)) {
                return Err("single-precision copy differs in structure".into());
            }
            for (x, q) in pt.iter().zip(arr(g)) {
                if !vclose(x, &vec(&q[1]), 1e-3) {
                    return Err(format!("single-precision point {} instead of {}", fmt(x), fmt(&vec(&q[1]))));
                }
            }
            Ok(cur.clone())
        }
        "serde" => {
            let c = gtry(|| {
                Ok(match cur {
                    C2(c) => C2(serde_json::from_value(serde_json::to_value(c)?)?),
                    C3(c) => C3(serde_json::from_str(&serde_json::to_string(c)?)?),
                })
            })?;
            if c.degree() != cur.degree() || !vclose(&c.knots(), &cur.knots(), 1e-14) || c.cps().len() != cur.cps().len()
                || c.cps().iter().zip(cur.cps()).any(|(a, b)| !vclose(a, &b, 1e-14)) {
                return Err("round trip changed the curve".into());
            }
            rep.count("comparisons", shape(&c, e, g, *off, true)?);
            Ok(c)
        }
        "clamp" => {
            let mut c = cur.clone();
            gtry(|| each!(&mut c, c => c.try_clamp()))?;
            if !c.is_clamped() {
                return Err("still not clamped".into());
            }
            extended(cur, c, e, g, off, canon, rep)
        }
        "bezier" => {
            let cs = gtry(|| {
                Ok(match cur {
                    C2(c) => c.try_decompose_bezier_segments()?.into_iter().map(C2).collect::<Vec<_>>(),
                    C3(c) => c.try_decompose_bezier_segments()?.into_iter().map(C3).collect::<Vec<_>>(),
                })
            })?;
            let (lo, hi) = cur.domain();
            let eps = 1e-9 * lo.abs().max(hi.abs()).max(1.0);
            let ins: Vec<&Cv> = cs.iter().filter(|c| c.domain().1 > lo + eps && c.domain().0 < hi - eps).collect();
            if ins.len() != more.len() || (cur.is_clamped() && cs.len() != more.len()) {
                return Err(format!("{} segments ({} in the domain) instead of {}", cs.len(), ins.len(), more.len()));
            }
            for (c, m) in ins.iter().zip(more) {
                rep.count("comparisons", shape(c, &m["c"], &m["g"], *off, true)?);
                exact(c, &m["c"], *off)?;
            }
            Ok(ins[us(&o["i"]) - 1].clone())
        }
        "transform" => {
            let d = arr(&o["t"]).len();
            let m: Vec<Vec<f64>> = arr(&o["M"]).iter().map(vec).collect();
            let t = vec(&o["t"]);
            let h = |i: usize, j: usize| {
                if i < d && j < d { m[i][j] } else if i < d { t[i] } else if j == d { 1.0 } else { 0.0 }
            };
            let c = guard(|| match cur {
                C2(c) => C2(c.transformed(&OMatrix::<f64, Const<3>, Const<3>>::from_fn(h))),
                C3(c) => C3(c.transformed(&OMatrix::<f64, Const<4>, Const<4>>::from_fn(h))),
            })?;
            rep.count("comparisons", shape(&c, e, g, *off, true)?);
            if canon {
                exact(&c, e, *off)?;
            }
            if !vclose(&c.knots(), &cur.knots(), 0.0) {
                return Err("transform changed the knots".into());
            }
            Ok(c)
        }
        _ => panic!("unknown operation {op}"),
    }
}

/// C01: the curve built from the specification's data evaluates to its values
fn evaluate(e: &Value, rep: &mut Report) -> Result<(), String> {
    let c = gtry(|| build(&e["c"]))?;
    let (lo, hi) = c.domain();
    let p = c.degree();
    for s in arr(&e["s"]) {
        let u = rat(&s["u"]).clamp(lo, hi);
        let (x, d1, d2) = (vec(&s["x"]), vec(&s["d1"]), vec(&s["d2"]));
        let x0 = guard(|| c.at(u)).map_err(|m| format!("point at {u} {m}"))?;
        if !vclose(&x0, &x, TOL) {
            return Err(format!("point at {u} is {} instead of {}", fmt(&x0), fmt(&x)));
        }
        rep.count("comparisons", 1);
        let h: Vec<f64> = guard(|| each!(&c, c => { let (q, t) = c.point_tangent_at(u); let mut v = q.coords.as_slice().to_vec(); v.extend(t.iter()); v }))
            .map_err(|m| format!("point and tangent at {u} {m}"))?;
        if !vclose(&h[..x.len()], &x, TOL) {
            return Err(format!("point at {u} (with tangent) is {} instead of {}", fmt(&h), fmt(&x)));
        }
        let smooth = bo(&s["sm"]);
        let mult = c.knots().iter().filter(|k| (**k - u).abs() < 1e-9).count();
        if smooth || p > mult {
            let y = guard(|| c.d1(u)).map_err(|m| format!("tangent at {u} {m}"))?;
            if !vclose(&y, &d1, 1e-6) || !vclose(&h[x.len()..], &d1, 1e-6) {
                return Err(format!("tangent at {u} is {} instead of {}", fmt(&y), fmt(&d1)));
            }
            rep.count("comparisons", 1);
        }
        if smooth || p > mult + 1 {
            let y = guard(|| c.d2(u)).map_err(|m| format!("second derivative at {u} {m}"))?;
            if !vclose(&y, &d2, 1e-6) {
                return Err(format!("second derivative at {u} is {} instead of {}", fmt(&y), fmt(&d2)));
            }
            rep.count("comparisons", 1);
        }
    }
    // regular sampling over a sub-range whose ends are samples
    let k = 2 + (arr(&e["s"]).len() + p) % 5;
    for (a, b) in [(lo, hi), (rat(&e["s"][2]["u"]).clamp(lo, hi), hi)] {
        let (xs, ys): (Vec<Vec<f64>>, Vec<(f64, Vec<f64>)>) = guard(|| each!(&c, c => (
            c.sample_regular_range(a, b, k).iter().map(|q| q.coords.as_slice().to_vec()).collect(),
            c.sample_regular_range_with_parameter(a, b, k).iter().map(|(t, q)| (*t, q.coords.as_slice().to_vec())).collect())))
            .map_err(|m| format!("sampling ({a}, {b}) {m}"))?;
        if xs.len() != k || ys.len() != k {
            return Err(format!("{} samples instead of {k}", xs.len()));
        }
        for i in 0..k {
            let t = a + (b - a) * i as f64 / (k - 1) as f64;
            let q = c.at(t.clamp(lo, hi));
            if !close(ys[i].0, t, t, 1e-12) || !vclose(&xs[i], &q, 1e-6) || !vclose(&ys[i].1, &q, 1e-6) {
                return Err(format!("sample {i} of {k} over ({a}, {b})"));
            }
        }
    }
    Ok(())
}

/// C29/C06 observers of the freshly created curve
fn observers(c: &Cv, e: &Value) -> Result<(), String> {
    let cp: Vec<Vec<f64>> = arr(&e["c"]["P"]).iter().map(vec).collect();
    let d = cp[0].len() - 1;
    let (w, pts): (Vec<f64>, Vec<Vec<f64>>) = guard(|| each!(c, c => (c.weights(), c.dehomogenized_control_points().iter().map(|p: &OPoint<_, _>| p.coords.as_slice().to_vec()).collect())))?;
    for (i, q) in cp.iter().enumerate() {
        let x: Vec<f64> = q[..d].iter().map(|x| x / q[d]).collect();
        if !close(w[i], q[d], q[d], 1e-12) || !vclose(&pts[i], &x, 1e-12) {
            return Err(format!("weight {} point {} of control point {i}", w[i], fmt(&pts[i])));
        }
    }
    if w.len() != cp.len() {
        return Err("number of weights".into());
    }
    Ok(())
}
fn observers29(c: &Cv, e: &Value) -> Result<(), String> {
    let closed = guard(|| each!(c, c => c.is_closed()))?;
    if closed != bo(&e["closed"]) {
        return Err(format!("is_closed {closed}"));
    }
    if c.is_clamped() != bo(&e["clamped"]) {
        return Err(format!("is_clamped {}", c.is_clamped()));
    }
    let d = c.domain();
    if d.0 != rat(&e["dom"][0]) || d.1 != rat(&e["dom"][1]) {
        return Err(format!("domain {d:?}"));
    }
    Ok(())
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let steps = arr(&v["steps"]);
    let mut cur: Option<Cv> = None;
    let mut off = 0.0;
    let ops: Vec<&str> = steps.iter().map(|s| st(&s["op"])).collect();
    if rep.line < 5 {
        rep.samples.push(json!({"history": ops, "start": steps[0]["e"]["c"]}));
    }
    for (i, s) in steps.iter().enumerate() {
        let op = st(&s["op"]);
        rep.count("steps", 1);
        rep.enter(if op == "create" || prop == "C01" { true } else { prop_of(op) == prop }, op);
        if prop == "C01" {
            if let Err(m) = evaluate(&s["e"], rep) {
                rep.violation("C01", "evaluate".into(), m, json!({"curve": s["e"], "history": ops[..=i]}));
                return;
            }
            continue;
        }
        if op == "create" {
            let c = match gtry(|| build(&s["e"]["c"])) {
                Ok(c) => c,
                Err(m) => {
                    rep.violation(prop, "create".into(), m, s["e"].clone());
                    return;
                }
            };
            let r = if prop == "C06" { observers(&c, &s["e"]) } else if prop == "C29" { observers29(&c, &s["e"]) } else { Ok(()) };
            if let Err(m) = r.and_then(|_| shape(&c, &s["e"]["c"], &s["g"], 0.0, true).map(|_| ())) {
                rep.violation(prop, "create".into(), m, s["e"].clone());
                return;
            }
            cur = Some(c);
            continue;
        }
        let c0 = cur.clone().unwrap();
        let own = prop_of(op) == prop;
        let off0 = off;
        let r = apply(&c0, &mut off, &s["o"], s, rep);
        if own {
            rep.count(&format!("op:{op}"), 1);
        }
        match r {
            Ok(c) => cur = Some(c),
            Err(m) => {
                if own {
                    let key = format!("{op}");
                    let before = json!({"degree": c0.degree(), "knots": c0.knots(), "control_points": c0.cps(), "offset": off0});
                    rep.violation(prop, key, m, json!({"before": before, "op": s["o"], "expected": s["e"]["c"], "history": ops[..=i]}));
                    return;
                }
                // another property's business: continue from the specified state
                rep.foreign += 1;
                off = 0.0;
                match gtry(|| build(&s["e"]["c"])) {
                    Ok(c) => cur = Some(c),
                    Err(_) => return,
                }
            }
        }
    }
}
