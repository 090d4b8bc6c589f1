//! Construct.tla: surfaces made from curves (C20, C21) and moving frames (C28).
use crate::curve::{build, gtry, guard, Cv};
use crate::num::*;
use crate::report::Report;
use crate::surface::{structure, Sf};
use curvo::prelude::*;
use nalgebra::{Point3, Vector3};
use serde_json::{json, Value};

const TOL: f64 = 1e-7;
const NEAR: f64 = 1e-6;

fn curve(c: &Value) -> Result<NurbsCurve3D<f64>, String> {
    match gtry(|| build(c))? {
        Cv::C3(c) => Ok(c),
        _ => Err("not a space curve".into()),
    }
}
pub fn p3(v: &Value) -> Point3<f64> {
    Point3::from_slice(&vec(v))
}
pub fn v3(v: &Value) -> Vector3<f64> {
    Vector3::from_column_slice(&vec(v))
}
fn at(s: &Sf, u: f64, v: f64) -> Vec<f64> {
    s.point_at(u, v).coords.as_slice().to_vec()
}
fn lerp(d: (f64, f64), t: f64) -> f64 {
    if t == 1.0 { d.1 } else { d.0 + (d.1 - d.0) * t }
}
fn angle(e: &[f64]) -> f64 {
    let a = e[1].atan2(e[0]);
    if a < 0.0 { a + std::f64::consts::TAU } else { a }
}
fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}

fn extrude(s: &Value) -> Result<u64, String> {
    let c = curve(&s["c"])?;
    let f = guard(|| Sf::extrude(&c, &v3(&s["t"])))?;
    structure(&f)?;
    let (du, dv) = f.knots_domain();
    let dc = c.knots_domain();
    // the profile parameter is one of the two directions, the height runs along the other either way
    let mut why = String::new();
    for form in 0..4 {
        let mut bad = None;
        for e in arr(&s["e"]) {
            let (h, t) = (rat(&e["h"]), (rat(&e["u"]) - dc.0) / (dc.1 - dc.0));
            let h = if form % 2 == 0 { h } else { 1.0 - h };
            let (u, v) = if form < 2 { (lerp(du, h), lerp(dv, t)) } else { (lerp(du, t), lerp(dv, h)) };
            let x = guard(|| at(&f, u, v)).map_err(|m| format!("point at ({u}, {v}) {m}"))?;
            if !vclose(&x, &vec(&e["x"]), TOL) {
                bad = Some(format!("height {} of the profile's point at {} is {x:?} instead of {:?}", rat(&e["h"]), rat(&e["u"]), vec(&e["x"])));
                break;
            }
        }
        match bad {
            None => return Ok(arr(&s["e"]).len() as u64),
            Some(m) if form == 1 => why = m,
            _ => {}
        }
    }
    Err(why)
}

fn plane(s: &Value) -> Result<u64, String> {
    let f = guard(|| Sf::plane(p3(&s["o"]), v3(&s["x"]), v3(&s["y"])))?;
    structure(&f)?;
    let (du, dv) = f.knots_domain();
    for e in arr(&s["e"]) {
        let x = guard(|| at(&f, lerp(du, rat(&e["u"])), lerp(dv, rat(&e["v"]))))?;
        if !vclose(&x, &vec(&e["x"]), 1e-9) {
            return Err(format!("point at ({}, {}) is {x:?} instead of {:?}", rat(&e["u"]), rat(&e["v"]), vec(&e["x"])));
        }
    }
    Ok(25)
}

/// where the surface meets the sections, one after the other: the v at which the
/// points at the given u come closest to each section (the first close enough one)
fn meet(f: &Sf, us: &[f64], secs: &[Vec<Vec<f64>>]) -> Result<Vec<(f64, f64)>, String> {
    let (lo, hi) = f.v_knots_domain();
    let gap = |v: f64, k: usize| us.iter().zip(&secs[k]).map(|(u, x)| dist(&at(f, *u, v), x)).fold(0.0, |m: f64, x| if x.is_nan() { f64::INFINITY } else { m.max(x) });
    let scale = |k: usize| secs[k].iter().flatten().fold(1f64, |m, x| m.max(x.abs()));
    guard(|| {
        let mut out = vec![(lo, gap(lo, 0))];
        let mut from = lo;
        for k in 1..secs.len() - 1 {
            let n = 60 * secs.len();
            let vs: Vec<f64> = (0..=n).map(|i| from + (hi - from) * i as f64 / n as f64).collect();
            let g: Vec<f64> = vs.iter().map(|v| gap(*v, k)).collect();
            let mut best = (from, f64::INFINITY);
            for i in 1..n {
                if g[i] <= g[i - 1] && g[i] <= g[i + 1] {
                    let (mut a, mut b) = (vs[i - 1], vs[i + 1]);
                    for _ in 0..90 {
                        let (c, d) = (a + (b - a) * 0.382, a + (b - a) * 0.618);
                        if gap(c, k) < gap(d, k) { b = d } else { a = c }
                    }
                    let v = 0.5 * (a + b);
                    let d = gap(v, k);
                    if d < best.1 {
                        best = (v, d);
                    }
                    if d < NEAR * scale(k) {
                        break;
                    }
                }
            }
            from = best.0;
            out.push(best);
        }
        out.push((hi, gap(hi, secs.len() - 1)));
        out.iter_mut().enumerate().for_each(|(k, x)| x.1 /= scale(k));
        out
    })
}

fn loft(s: &Value) -> Result<u64, String> {
    let cs: Vec<_> = arr(&s["cs"]).iter().map(curve).collect::<Result<_, _>>()?;
    let qd = us(&s["qd"]);
    let f = gtry(|| Sf::try_loft(&cs, if qd == 0 { None } else { Some(qd) }))?;
    structure(&f)?;
    if f.u_degree() != us(&s["p"]) || f.v_degree() != us(&s["q"]) {
        return Err(format!("degrees {} and {} instead of {} and {}", f.u_degree(), f.v_degree(), us(&s["p"]), us(&s["q"])));
    }
    let d = f.u_knots_domain();
    let k: Vec<f64> = f.u_knots().iter().map(|x| (x - d.0) / (d.1 - d.0)).collect();
    if !vclose(&k, &vec(&s["U"]), 1e-9) {
        return Err(format!("knots along the sections (scaled to 0..1) {k:?} instead of {:?}", vec(&s["U"])));
    }
    let uu: Vec<f64> = vec(&s["S"]).iter().map(|t| lerp(d, *t)).collect();
    let secs: Vec<Vec<Vec<f64>>> = arr(&s["g"]).iter().map(|g| arr(g).iter().map(vec).collect()).collect();
    let m = meet(&f, &uu, &secs)?;
    for (i, (v, gap)) in m.iter().enumerate() {
        if !(*gap < NEAR) {
            return Err(format!("section {i} of {} is missed by {gap} (closest at v = {v} of {:?})", secs.len(), f.v_knots_domain()));
        }
    }
    Ok((uu.len() * secs.len()) as u64)
}

fn rows(f: &Sf, us: &[f64], vs: &[f64]) -> Result<Vec<Vec<Vec<f64>>>, String> {
    let r: Vec<Vec<Vec<f64>>> = guard(|| us.iter().map(|u| vs.iter().map(|v| at(f, *u, *v)).collect()).collect())?;
    if r.iter().flatten().flatten().any(|x| !x.is_finite()) {
        return Err("a point is not finite".into());
    }
    Ok(r)
}
fn enc_rows(r: &[Vec<Vec<f64>>]) -> Value {
    json!(r.iter().map(|r| r.iter().map(|p| encv(p)).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn revolve(s: &Value) -> Result<Value, String> {
    let c = curve(&s["c"])?;
    let theta = us(&s["m"]) as f64 * angle(&vec(&s["step"])) * us_i(&s["sg"]) as f64;
    let f = gtry(|| Sf::try_revolve(&c, &p3(&s["o"]), &v3(&s["ax"]), theta))?;
    structure(&f)?;
    let (du, dv) = f.knots_domain();
    let dc = c.knots_domain();
    let n = 20;
    let us: Vec<f64> = (0..=n).map(|i| lerp(du, i as f64 / n as f64)).collect();
    let vs: Vec<f64> = arr(&s["g"]).iter().map(|g| lerp(dv, (rat(&g[0]) - dc.0) / (dc.1 - dc.0))).collect();
    Ok(json!({"rows": enc_rows(&rows(&f, &us, &vs)?)}))
}
fn sphere(s: &Value) -> Result<Value, String> {
    let f = gtry(|| Sf::try_sphere(&p3(&s["o"]), &v3(&s["ax"]), &v3(&s["xa"]), rat(&s["r"])))?;
    structure(&f)?;
    let (du, dv) = f.knots_domain();
    let us: Vec<f64> = (0..=12).map(|i| lerp(du, i as f64 / 12.0)).collect();
    let vs: Vec<f64> = (0..=8).map(|i| lerp(dv, i as f64 / 8.0)).collect();
    Ok(json!({"rows": enc_rows(&rows(&f, &us, &vs)?)}))
}
fn frames(c: &NurbsCurve3D<f64>, r: &Value) -> Result<Vec<FrenetFrame<f64>>, String> {
    let d = c.knots_domain();
    let us: Vec<f64> = arr(r).iter().map(|q| rat(&q["u"]).clamp(d.0, d.1)).collect();
    let f = guard(|| c.compute_frenet_frames(&us))?;
    if f.iter().any(|f| f.position().iter().chain(f.tangent().iter()).chain(f.normal().iter()).chain(f.binormal().iter()).any(|x| !x.is_finite())) {
        return Err("a frame is not finite".into());
    }
    Ok(f)
}
fn enc_frames(f: &[FrenetFrame<f64>]) -> Value {
    json!(f.iter().map(|f| json!({"x": encv(f.position().coords.as_slice()), "t": encv(f.tangent().as_slice()), "n": encv(f.normal().as_slice()), "b": encv(f.binormal().as_slice())})).collect::<Vec<_>>())
}
fn sweep(s: &Value) -> Result<Value, String> {
    let (c, r) = (curve(&s["c"])?, curve(&s["rail"])?);
    let qd = us(&s["qd"]);
    let f = gtry(|| Sf::try_sweep(&c, &r, if qd == 0 { None } else { Some(qd) }))?;
    structure(&f)?;
    let fs = frames(&r, &s["R"])?;
    let dc = c.knots_domain();
    let uu: Vec<f64> = arr(&s["g"]).iter().map(|g| lerp(f.u_knots_domain(), (rat(&g[0]) - dc.0) / (dc.1 - dc.0))).collect();
    let local: Vec<Vec<f64>> = arr(&s["g"]).iter().map(|g| vec(&g[1])).collect();
    let secs: Vec<Vec<Vec<f64>>> = fs
        .iter()
        .map(|q| local.iter().map(|x| (q.position() + q.normal().cross(q.tangent()) * x[0] + q.normal() * x[1] + q.tangent() * x[2]).coords.as_slice().to_vec()).collect())
        .collect();
    let m = meet(&f, &uu, &secs)?;
    let vs: Vec<f64> = m.iter().map(|x| x.0).collect();
    let rs: Vec<Vec<Vec<f64>>> = guard(|| vs.iter().map(|v| uu.iter().map(|u| at(&f, *u, *v)).collect()).collect())?;
    if rs.iter().flatten().flatten().any(|x| !x.is_finite()) {
        return Err("a point is not finite".into());
    }
    Ok(json!({"rows": enc_rows(&rs), "frames": enc_frames(&fs)}))
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let s = &v["s"];
    let kind = st(&s["kind"]);
    rep.enter(true, kind);
    rep.count(&format!("made:{kind}"), 1);
    if rep.line < 5 {
        rep.samples.push(s.clone());
    }
    let judged = |r: Result<Value, String>, rep: &mut Report| match r {
        Ok(mut r) => {
            r["s"] = s.clone();
            rep.trace.push(r);
        }
        Err(m) => rep.violation(prop, kind.into(), m, s.clone()),
    };
    match kind {
        "extrude" | "plane" | "loft" => {
            let r = match kind { "extrude" => extrude(s), "plane" => plane(s), _ => loft(s) };
            match r {
                Ok(n) => rep.count("points", n),
                Err(m) => rep.violation(prop, kind.into(), m, s.clone()),
            }
        }
        "revolve" => judged(revolve(s), rep),
        "sphere" => judged(sphere(s), rep),
        "sweep" => judged(sweep(s), rep),
        _ => judged(curve(&s["c"]).and_then(|c| frames(&c, &s["R"])).map(|f| json!({"frames": enc_frames(&f)})), rep),
    }
}
