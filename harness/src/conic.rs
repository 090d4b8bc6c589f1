//! Conic.tla scenarios: build the curve, record what it looks like (C12).
use crate::curve::{gtry, guard, structure, Cv};
use crate::num::*;
use crate::report::Report;
use curvo::prelude::*;
use nalgebra::{Point2, Point3, Vector2, Vector3};
use serde_json::{json, Value};

fn angle(e: &[f64]) -> f64 {
    let a = e[1].atan2(e[0]);
    if a < 0.0 { a + std::f64::consts::TAU } else { a }
}

fn make(s: &Value) -> Result<Cv, String> {
    let c = vec(&s["c"]);
    let (x, y, dx, dy) = (vec(&s["x"]), vec(&s["y"]), vec(&s["dx"]), vec(&s["dy"]));
    let r = rat(&s["r"]);
    let start = angle(&vec(&s["e0"])) + us_i(&s["k0"]) as f64 * std::f64::consts::TAU;
    let end = start + us(&s["m"]) as f64 * angle(&vec(&s["step"]));
    macro_rules! with {
        ($c:ident, $w:path, $p:ident, $v:ident) => {{
            let (c, x, y, dx, dy) = ($p::from_slice(&c), $v::from_column_slice(&x), $v::from_column_slice(&y), $v::from_column_slice(&dx), $v::from_column_slice(&dy));
            gtry(|| {
                Ok($w(match st(&s["kind"]) {
                    "circle" => $c::try_circle(&c, &dx, &dy, r)?,
                    "arc" => $c::try_arc(&c, &dx, &dy, r, start, end)?,
                    "ellipse" => $c::try_ellipse(&c, &x, &y)?,
                    "ellipse-arc" => $c::try_ellipse_arc(&c, &x, &y, start, end)?,
                    _ if us(&s["m"]) % 2 == 0 => $c::try_ellipse_arc(&c, &x, &y, end, start)?,
                    _ => $c::try_arc(&c, &dx, &dy, r, start, start)?,
                }))
            })
        }};
    }
    if c.len() == 2 {
        with!(NurbsCurve2D, Cv::C2, Point2, Vector2)
    } else {
        with!(NurbsCurve3D, Cv::C3, Point3, Vector3)
    }
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let s = &v["s"];
    rep.enter(true, st(&s["kind"]));
    rep.count(&format!("made:{}", st(&s["kind"])), 1);
    let got = make(s);
    let rec = match got {
        Err(e) if e.starts_with("panicked") => return rep.violation(prop, format!("{}-panic", st(&s["kind"])), e, s.clone()),
        Err(e) => json!({"s": s, "refused": true, "why": e}),
        Ok(c) => {
            if let Err(e) = structure(&c) {
                return rep.violation(prop, format!("{}-structure", st(&s["kind"])), e, s.clone());
            }
            let (a, b) = c.domain();
            let k = 36;
            let pts: Vec<_> = (0..=k).map(|i| c.at(if i == k { b } else { a + (b - a) * i as f64 / k as f64 })).collect();
            let w: Vec<f64> = match &c { Cv::C2(c) => c.weights(), Cv::C3(c) => c.weights() };
            if pts.iter().flatten().chain(&w).any(|x| !x.is_finite()) {
                return rep.violation(prop, format!("{}-nan", st(&s["kind"])), "a point is not finite".into(), s.clone());
            }
            let closed = guard(|| match &c { Cv::C2(c) => c.is_closed(), Cv::C3(c) => c.is_closed() }).unwrap_or(false);
            json!({"s": s, "refused": false, "w": encv(&w), "closed": closed, "pts": pts.iter().map(|p| encv(p)).collect::<Vec<_>>()})
        }
    };
    if rep.line < 5 {
        rep.samples.push(rec["s"].clone());
    }
    rep.trace.push(rec);
}
