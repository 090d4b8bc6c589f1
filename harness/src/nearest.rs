//! Nearest.tla: nearest points of surfaces (C22).
use crate::construct::{p3, v3};
use crate::curve::{gtry, guard};
use crate::num::*;
use crate::plane::count_zoom;
use crate::report::Report;
use crate::surface::{build, structure, Sf};
use curvo::prelude::*;
use nalgebra::Point3;
use serde_json::{json, Value};

fn norm(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}

/// sphere, cylinder and torus as the library makes them (their shape is the business of C12, C20 and C21)
fn made(s: &Value) -> Result<Sf, String> {
    let (o, a, e) = (p3(&s["o"]), v3(&s["a"]), v3(&s["e"]));
    let (big, small) = (rat(&s["R"]), rat(&s["r"]));
    gtry(|| match st(&s["kind"]) {
        "sphere" => NurbsSurface3D::try_sphere(&o, &a, &e, big),
        "tube" => Ok(NurbsSurface3D::extrude(&NurbsCurve3D::try_circle(&o, &e, &a.cross(&e), small)?, &(a * big))),
        _ => NurbsSurface3D::try_revolve(&NurbsCurve3D::try_circle(&(o + e * big), &e, &a, small)?, &o, &a, std::f64::consts::TAU),
    })
}

fn ask(s: &Sf, q: &Value, size: f64) -> Result<(), String> {
    let x = vec(&q["x"]);
    let p = Point3::from_slice(&x);
    let ((u, v), y) = gtry(|| Ok((s.find_closest_parameter(&p)?, s.find_closest_point(&p)?)))?;
    let (du, dv) = s.knots_domain();
    if !(u >= du.0 && u <= du.1 && v >= dv.0 && v <= dv.1) {
        return Err(format!("closest parameter ({u}, {v}) is outside {du:?}, {dv:?}"));
    }
    let at = guard(|| s.point_at(u, v))?.coords.as_slice().to_vec();
    let y = y.coords.as_slice();
    let scale = x.iter().chain(&at).fold(size, |m, x| m.max(x.abs()));
    // the search may choose between equally near points
    if !(norm(&at, y) <= 1e-5 * scale || (norm(&x, &at) - norm(&x, y)).abs() <= 1e-5 * scale) {
        return Err(format!("closest point {y:?} is not the point {at:?} at the closest parameter ({u}, {v})"));
    }
    let (d, b) = (norm(&x, &at), rat(&q["b"]).max(0.0).sqrt());
    if !(d <= b + 1e-5 * scale) {
        return Err(format!("closest parameter ({u}, {v}) is at distance {d} from {x:?}, but another point is at {b}"));
    }
    if bo(&q["exact"]) && !(d >= b - 1e-5 * scale) {
        return Err(format!("closest parameter ({u}, {v}) is at distance {d} from {x:?}, but the surface is at least {b} away"));
    }
    Ok(())
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    rep.enter(false, "create");
    let round = v["round"].get("kind").is_some();
    let made = if round { made(&v["round"]) } else { guard(|| build(&v["s"])) };
    let Ok(s) = made else {
        rep.foreign += 1;
        return;
    };
    if structure(&s).is_err() {
        return;
    }
    if rep.line < 5 {
        rep.samples.push(json!({"surface": v["s"], "round": v["round"], "queries": v["qs"]}));
    }
    let size = rat(&v["zoom"]["g"]);
    count_zoom(&v["zoom"], rep);
    for q in arr(&v["qs"]) {
        rep.enter(true, "nearest");
        rep.count(&format!("query:{}", st(&q["kind"])), 1);
        if let Err(e) = ask(&s, q, size) {
            return rep.violation(prop, st(&q["kind"]).to_string(), e,
                json!({"round": v["round"], "degrees": [s.u_degree(), s.v_degree()], "u_knots": s.u_knots().to_vec(), "v_knots": s.v_knots().to_vec(), "surface": v["s"], "query": q}));
        }
    }
}
