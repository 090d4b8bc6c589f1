//! Pierce.tla: where curves pierce surfaces (C23).
use crate::curve::{build as curve_of, gtry, guard, structure as curve_structure, Cv};
use crate::num::*;
use crate::plane::count_zoom;
use crate::report::Report;
use crate::surface::{build, structure, Sf};
use curvo::prelude::*;
use serde_json::{json, Value};

/// how far apart the points of one intersection may be, at any size of the scene
const AT: f64 = 1.1e-5;

fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}
fn within(x: f64, d: (f64, f64)) -> bool {
    x >= d.0 && x <= d.1
}

struct Want {
    t: f64,
    x: Vec<f64>,
}

fn ask(s: &Sf, c: &NurbsCurve3D<f64>, closed: bool, size: f64, want: &[Want]) -> Result<(), (String, String)> {
    let bad = |k: &str, e: String| Err((k.to_string(), e));
    let found = gtry(|| s.find_intersections(c, None)).map_err(|e| ("error".to_string(), e))?;
    let (dt, (du, dv)) = (c.knots_domain(), s.knots_domain());
    let w = dt.1 - dt.0;
    let mut hit = vec![0; want.len()];
    for f in &found {
        let ((p, (u, v)), (q, t)) = (f.a(), f.b());
        if !within(*u, du) || !within(*v, dv) || !within(*t, dt) {
            return bad("domain", format!("parameters ({u}, {v}), {t} of an intersection are outside {du:?}, {dv:?}, {dt:?}"));
        }
        let at = guard(|| (s.point_at(*u, *v), c.point_at(*t))).map_err(|e| ("error".to_string(), e))?;
        let (at, ct) = (at.0.coords.as_slice().to_vec(), at.1.coords.as_slice().to_vec());
        if !vclose(p.coords.as_slice(), &at, 1e-9) || !vclose(q.coords.as_slice(), &ct, 1e-9) {
            return bad("point", format!("reported points {:?}, {:?} are not the points {at:?}, {ct:?} at their parameters", p.coords.as_slice(), q.coords.as_slice()));
        }
        if !(dist(&at, &ct) <= AT) {
            return bad("apart", format!("points of an intersection are apart: {at:?} and {ct:?}"));
        }
        let near = |x: &Want| {
            let d = (x.t - t).abs();
            dist(&at, &x.x) <= 1e-3 * size.max(1.0) && (d < w / 200.0 || closed && w - d < w / 200.0)
        };
        match want.iter().position(near) {
            Some(i) => hit[i] += 1,
            None => return bad("spurious", format!("reported intersection at {at:?} (curve parameter {t}) is not one")),
        }
    }
    for (x, n) in want.iter().zip(&hit) {
        if *n != 1 {
            let k = if *n == 0 { "missed" } else { "repeated" };
            return bad(k, format!("the curve pierces the surface at {:?} (curve parameter {}); reported {n} times, {} reported of {}", x.x, x.t, found.len(), want.len()));
        }
    }
    Ok(())
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    rep.enter(false, "create");
    let v = &v["s"];
    let c = gtry(|| curve_of(&v["c"])).ok().filter(|c| curve_structure(c).is_ok());
    let s = guard(|| build(&v["s"])).ok().filter(|s| structure(s).is_ok());
    let (Some(s), Some(Cv::C3(c))) = (s, c) else {
        rep.foreign += 1;
        return;
    };
    let want: Vec<Want> = arr(&v["x"]).iter().map(|x| Want { t: rat(&x["t"]), x: vec(&x["x"]) }).collect();
    rep.count("scenes", 1);
    count_zoom(&v["zoom"], rep);
    rep.count("crossings", want.len() as u64);
    rep.count(&format!("surface:{}", st(&v["kind"])), 1);
    rep.count(&format!("curve:{}", st(&v["curve"])), 1);
    if rep.line < 5 {
        rep.samples.push(v.clone());
    }
    rep.enter(true, "intersect");
    for how in ["once", "again"] {
        if let Err(e) = ask(&s, &c, bo(&v["closed"]), rat(&v["zoom"]["g"]), &want) {
            return rep.violation(prop, format!("{}:{}", st(&v["kind"]), e.0), format!("{how}: {}", e.1), json!({"scene": v}));
        }
    }
}
