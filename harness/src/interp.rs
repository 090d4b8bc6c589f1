//! Replay of Interp.tla: curves made from point lists (C09).
use crate::curve::{gtry, guard, structure, Cv};
use crate::num::*;
use crate::report::Report;
use curvo::prelude::*;
use nalgebra::{Point2, Point3};
use serde_json::{json, Value};

fn style(m: &Value) -> KnotStyle {
    match st(&m["style"]) {
        "uniform" => KnotStyle::Uniform,
        "chordal" => KnotStyle::Chordal,
        _ => KnotStyle::Centripetal,
    }
}

fn make(m: &Value, pts: &[Vec<f64>]) -> Result<Cv, String> {
    macro_rules! with {
        ($c:ident, $wrap:path, $p:expr) => {{
            let p: Vec<_> = $p;
            gtry(|| {
                Ok($wrap(match st(&m["kind"]) {
                    "open" => $c::try_interpolate(&p, us(&m["p"]))?,
                    "periodic-i" => $c::try_periodic_interpolate(&p, us(&m["p"]), style(m))?,
                    "periodic" => $c::try_periodic(&p, us(&m["p"]))?,
                    "polyline" => $c::polyline(&p, bo(&m["norm"])),
                    k => panic!("maker {k}"),
                }))
            })
        }};
    }
    if pts[0].len() == 2 {
        with!(NurbsCurve2D, Cv::C2, pts.iter().map(|q| Point2::from_slice(q)).collect())
    } else {
        with!(NurbsCurve3D, Cv::C3, pts.iter().map(|q| Point3::from_slice(q)).collect())
    }
}

fn check(m: &Value, pts: &[Vec<f64>], r: &Value, rep: &mut Report) -> Result<(), String> {
    let got = make(m, pts);
    if bo(&r["refused"]) {
        rep.count("refusals", 1);
        return match got {
            Ok(_) => Err("too few points for the degree, but a curve was made".into()),
            Err(e) if e.starts_with("panicked") => Err(e),
            Err(_) => Ok(()),
        };
    }
    let c = match got {
        Ok(c) => c,
        // no such curve exists
        Err(e) if bo(&r["singular"]) && !e.starts_with("panicked") => {
            rep.count("unsolvable", 1);
            return Ok(());
        }
        Err(e) => return Err(e),
    };
    structure(&c)?;
    let p = if st(&m["kind"]) == "polyline" { 1 } else { us(&m["p"]) };
    if c.degree() != p {
        return Err(format!("degree {} instead of {p}", c.degree()));
    }
    let extent = pts.iter().flatten().fold(1.0f64, |m, x| m.max(x.abs()));
    let tol = 1e-9 * rat(&r["size"]).max(1.0) + if bo(&r["singular"]) { 1e-6 * extent } else { 0.0 };
    let (lo, hi) = c.domain();
    let at = |u: f64| guard(|| c.at(u.clamp(lo, hi))).map_err(|e| format!("point at {u} {e}"));
    let near = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol);
    for (i, q) in arr(&r["pass"]).iter().enumerate() {
        let (u, want) = (lo + (hi - lo) * rat(&q[0]), vec(&q[1]));
        let x = at(u)?;
        if !near(&x, &want) {
            return Err(format!("given point {i} {want:?} is missed: at {u} the curve is at {x:?}"));
        }
        rep.count("comparisons", 1);
    }
    for q in arr(&r["samples"]) {
        let (u, want) = (rat(&q[0]), vec(&q[1]));
        if u < lo - 1e-9 * u.abs().max(1.0) || u > hi + 1e-9 * u.abs().max(1.0) {
            return Err(format!("parameter {u} is not in the domain ({lo}, {hi})"));
        }
        let x = at(u)?;
        if !near(&x, &want) {
            return Err(format!("point at {u} is {x:?} instead of {want:?}"));
        }
        rep.count("comparisons", 1);
    }
    if let Some(s) = r["samples"].as_array().filter(|s| !s.is_empty()) {
        let (a, b) = (rat(&s[0][0]), rat(&s[s.len() - 1][0]));
        if !close(lo, a, a, 1e-9) || !close(hi, b, b, 1e-9) {
            return Err(format!("domain ({lo}, {hi}) instead of ({a}, {b})"));
        }
    }
    let smooth = r["smooth"].as_i64().unwrap();
    if smooth >= 0 && !near(&at(lo)?, &at(hi)?) {
        return Err(format!("not closed: {:?} and {:?}", at(lo)?, at(hi)?));
    }
    let speed = 1.0 / (hi - lo).min(1.0) / c.knots()[p..c.knots().len() - p].windows(2).map(|w| (w[1] - w[0]) / (hi - lo)).fold(1.0, f64::min);
    if smooth >= 1 {
        let (a, b) = (guard(|| c.d1(lo))?, guard(|| c.d1(hi))?);
        let s = a.iter().fold(1.0f64, |m, x| m.max(x.abs()));
        if a.iter().zip(&b).any(|(x, y)| !((x - y).abs() <= 1e-6 * s + tol * speed * 10.0)) {
            return Err(format!("tangents {a:?} and {b:?} at the seam"));
        }
        rep.count("seams", 1);
    }
    if smooth >= 2 {
        let (a, b) = (guard(|| c.d2(lo))?, guard(|| c.d2(hi))?);
        let s = a.iter().fold(1.0f64, |m, x| m.max(x.abs()));
        if a.iter().zip(&b).any(|(x, y)| !((x - y).abs() <= 1e-6 * s + tol * speed * speed * 100.0)) {
            return Err(format!("second derivatives {a:?} and {b:?} at the seam"));
        }
    }
    rep.count(&format!("made:{}", st(&m["kind"])), 1);
    Ok(())
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let (m, r) = (&v["make"], &v["r"]);
    let pts: Vec<Vec<f64>> = arr(&v["pts"]).iter().map(vec).collect();
    rep.enter(true, st(&m["kind"]));
    if rep.line < 5 {
        rep.samples.push(json!({"make": m, "points": pts}));
    }
    if let Err(e) = check(m, &pts, r, rep) {
        let s = if r["singular"].as_bool() == Some(true) { "-unsolvable" } else { "" };
        rep.violation(prop, format!("{}{s}", st(&m["kind"])), e, json!({"make": m, "points": pts}));
    }
}
