//! Closest.tla: nearest points of curves (C11).
use crate::curve::{build, gtry, structure, Cv};
use crate::num::*;
use crate::plane::count_zoom;
use crate::report::Report;
use nalgebra::{Point2, Point3};
use serde_json::{json, Value};

fn norm(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}

fn ask(c: &Cv, q: &Value, size: f64) -> Result<(), String> {
    let x = vec(&q["x"]);
    let (u, y) = gtry(|| {
        Ok(match c {
            Cv::C2(c) => { let p = Point2::from_slice(&x); (c.find_closest_parameter(&p)?, c.find_closest_point(&p)?.coords.as_slice().to_vec()) }
            Cv::C3(c) => { let p = Point3::from_slice(&x); (c.find_closest_parameter(&p)?, c.find_closest_point(&p)?.coords.as_slice().to_vec()) }
        })
    })?;
    let (lo, hi) = c.domain();
    if !(u >= lo && u <= hi) {
        return Err(format!("closest parameter {u} is outside ({lo}, {hi})"));
    }
    let at = c.at(u);
    if !vclose(&at, &y, 1e-9) {
        return Err(format!("closest point {y:?} is not the point {at:?} at the closest parameter {u}"));
    }
    let s = x.iter().chain(&at).fold(size, |m, x| m.max(x.abs()));
    let (d, b) = (norm(&x, &at), rat(&q["b"]).max(0.0).sqrt());
    if !(d <= b + 1e-5 * s) {
        return Err(format!("closest parameter {u} is at distance {d} from {x:?}, but another point is at {b}"));
    }
    if bo(&q["exact"]) && !(d >= b - 1e-5 * s) {
        return Err(format!("closest parameter {u} is at distance {d} from {x:?}, but the curve is at least {b} away"));
    }
    Ok(())
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    rep.enter(false, "create");
    let Ok(c) = gtry(|| build(&v["c"])) else {
        rep.foreign += 1;
        return;
    };
    if structure(&c).is_err() {
        return;
    }
    if rep.line < 5 {
        rep.samples.push(json!({"curve": v["c"], "queries": v["qs"]}));
    }
    let size = rat(&v["zoom"]["g"]);
    count_zoom(&v["zoom"], rep);
    for q in arr(&v["qs"]) {
        rep.enter(true, "closest");
        rep.count(&format!("query:{}", st(&q["kind"])), 1);
        if let Err(e) = ask(&c, q, size) {
            return rep.violation(prop, format!("{}{}", st(&q["kind"]), if c.degree() == 1 { "-polyline" } else { "" }), e,
                json!({"degree": c.degree(), "knots": c.knots(), "control_points": c.cps(), "query": q}));
        }
    }
}
