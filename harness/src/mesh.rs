//! Mesh.tla: tessellated surfaces (C24).
use crate::curve::guard;
use crate::num::*;
use crate::plane::count_zoom;
use crate::report::Report;
use crate::surface::{build, structure, Sf};
use curvo::prelude::*;
use serde_json::{json, Value};

pub type Tess = SurfaceTessellation3D<f64>;

const BITS: i32 = 40;
fn key(x: f64) -> i128 {
    (x * 2f64.powi(BITS)).round() as i128
}
/// the distinct values, and each value's position (from 1) among them
pub fn ranks(x: &[f64]) -> (Vec<Value>, Vec<usize>) {
    let mut v: Vec<(i128, f64)> = x.iter().map(|x| (key(*x), *x)).collect();
    v.sort_by_key(|x| x.0);
    v.dedup_by_key(|x| x.0);
    let at = x.iter().map(|x| v.binary_search_by_key(&key(*x), |x| x.0).unwrap() + 1).collect();
    (v.iter().map(|x| enc_bits(x.1, BITS)).collect(), at)
}

pub fn options(h: &Value, depth0: bool) -> AdaptiveTessellationOptions<f64> {
    AdaptiveTessellationOptions {
        norm_tolerance: rat(&h["tol"]),
        min_divs_u: us(&h["du"]),
        min_divs_v: us(&h["dv"]),
        min_depth: if depth0 { 0 } else { us(&h["min"]) },
        max_depth: if depth0 { 0 } else { us(&h["max"]) },
    }
}
fn constraints(h: &Value) -> BoundaryConstraints<f64> {
    let mut c = BoundaryConstraints::default();
    for k in 0..2 {
        let (u, v) = (vec(&h["cu"][k]), vec(&h["cv"][k]));
        if !u.is_empty() {
            c = if k == 0 { c.with_u_parameters_at_v_min(u) } else { c.with_u_parameters_at_v_max(u) };
        }
        if !v.is_empty() {
            c = if k == 0 { c.with_v_parameters_at_u_min(v) } else { c.with_v_parameters_at_u_max(v) };
        }
    }
    c
}
fn make(s: &Sf, h: &Value, depth0: bool) -> Tess {
    let o = match st(&h["way"]) {
        "regular" => return s.regular_tessellate(us(&h["du"]), us(&h["dv"])),
        "plain" => None,
        _ => Some(options(h, depth0)),
    };
    if bo(&h["con"]) {
        s.constrained_tessellate(constraints(h), o)
    } else {
        s.tessellate(o)
    }
}

/// every vertex lies on the surface and carries its normal there
pub fn check_vertices(s: &Sf, t: &Tess) -> Result<(), String> {
    let n = t.points().len();
    if t.uvs().len() != n || t.normals().len() != n {
        return Err(format!("{n} points, {} parameters, {} normals", t.uvs().len(), t.normals().len()));
    }
    if let Some(f) = t.faces().iter().find(|f| f.iter().any(|i| *i >= n)) {
        return Err(format!("face {f:?} of a mesh of {n} vertices"));
    }
    // how fast the surface runs over its whole domain
    let ((u0, u1), (v0, v1)) = s.knots_domain();
    let net: Vec<_> = s.control_points().iter().flatten().map(|p| p.coords.xyz() / p.w).collect();
    let size = net.iter().map(|p| (p - net[0]).norm()).fold(0.0, f64::max);
    let fast = 0.1 * size / (u1 - u0) * size / (v1 - v0);
    for i in 0..n {
        let (uv, p, m) = (t.uvs()[i], t.points()[i], t.normals()[i]);
        let ds = guard(|| s.rational_derivatives(uv.x, uv.y, 1))?;
        if !vclose(p.coords.as_slice(), ds[0][0].as_slice(), 1e-8) {
            return Err(format!("vertex {p:?} at {uv:?} is not the surface's point {:?}", ds[0][0]));
        }
        if m.iter().any(|x| !x.is_finite()) {
            return Err(format!("the normal at {uv:?} is {m:?}"));
        }
        // at a crease either side's normal will do
        let near = |u: f64, v: f64| -> Result<bool, String> {
            let ds = guard(|| s.rational_derivatives(u, v, 1))?;
            let (a, b) = (&ds[1][0], &ds[0][1]);
            let c = a.cross(b);
            Ok(c.norm() <= 1e-5 * (fast + a.norm() * b.norm()) || ((m.norm() - 1.0).abs() < 1e-6 && m.cross(&c).norm() <= 1e-5 * m.norm() * c.norm() && m.dot(&c) > 0.0))
        };
        let (h, k) = (1e-9 * (u1 - u0), 1e-9 * (v1 - v0));
        let sides = |x: f64, lo: f64, hi: f64, h: f64| [x, (x - h).max(lo), (x + h).min(hi)];
        let mut ok = false;
        for u in sides(uv.x, u0, u1, h) {
            for v in sides(uv.y, v0, v1, k) {
                ok = ok || near(u, v)?;
            }
        }
        if !ok {
            return Err(format!("normal {m:?} at {uv:?} is not the surface's normal {:?}", ds[1][0].cross(&ds[0][1])));
        }
    }
    Ok(())
}

/// edges along the grid whose ends' normals differ by more than the tolerance
fn rough(t: &Tess, tol: f64) -> Vec<Value> {
    let mut out = vec![];
    for f in t.faces() {
        for k in 0..3 {
            let (a, b) = (f[k], f[(k + 1) % 3]);
            let d = t.uvs()[a] - t.uvs()[b];
            if (d.x == 0.0) != (d.y == 0.0) && (t.normals()[a] - t.normals()[b]).norm_squared() > tol * (1.0 + 1e-9) {
                out.push(json!([a + 1, b + 1]));
            }
        }
    }
    let n = (out.len() / 30).max(1);
    out.into_iter().step_by(n).collect()
}

pub fn record(t: &Tess) -> Value {
    let (us, iu) = ranks(&t.uvs().iter().map(|x| x.x).collect::<Vec<_>>());
    let (vs, iv) = ranks(&t.uvs().iter().map(|x| x.y).collect::<Vec<_>>());
    let n = t.points().len();
    let see: Vec<Value> = (0..n).step_by((n / 5).max(1))
        .map(|i| json!([enc_bits(t.uvs()[i].x, BITS), enc_bits(t.uvs()[i].y, BITS), t.points()[i].iter().map(|x| enc(*x)).collect::<Vec<_>>()]))
        .collect();
    json!({
        "uv": iu.iter().zip(&iv).map(|(a, b)| json!([a, b])).collect::<Vec<_>>(), "us": us, "vs": vs, "see": see,
        "f": t.faces().iter().map(|f| json!([f[0] + 1, f[1] + 1, f[2] + 1])).collect::<Vec<_>>(),
    })
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    rep.enter(false, "create");
    let Some(s) = guard(|| build(&v["s"])).ok().filter(|s| structure(s).is_ok()) else {
        rep.foreign += 1;
        return;
    };
    let h = &v["how"];
    rep.enter(true, st(&h["way"]));
    count_zoom(&v["zoom"], rep);
    rep.count(&format!("surface:{}", st(&v["kind"])), 1);
    rep.count(&format!("way:{}", st(&h["way"])), 1);
    if bo(&h["con"]) {
        rep.count("constrained", 1);
    }
    if rep.line < 5 {
        rep.samples.push(v.clone());
    }
    let fail = |rep: &mut Report, e: String| rep.violation(prop, st(&h["way"]).into(), e, v.clone());
    let made = guard(|| (make(&s, h, false), make(&s, h, true))).map_err(|e| e.to_string());
    let (t, base) = match made {
        Ok(x) => x,
        Err(e) => return fail(rep, e),
    };
    if let Err(e) = check_vertices(&s, &t) {
        return fail(rep, e);
    }
    rep.count("triangles", t.faces().len() as u64);
    let mut r = record(&t);
    r["base"] = json!([ranks(&base.uvs().iter().map(|x| x.x).collect::<Vec<_>>()).0, ranks(&base.uvs().iter().map(|x| x.y).collect::<Vec<_>>()).0]);
    // a degenerate normal stops the refinement
    let rough = if st(&h["way"]) == "adaptive" && ["bumps", "torus"].contains(&st(&v["kind"])) { rough(&t, rat(&h["tol"])) } else { vec![] };
    rep.count("rough edges", rough.len() as u64);
    r["rough"] = json!(rough);
    r["s"] = v.clone();
    r["line"] = json!(rep.line);
    rep.trace.push(r);
}
