//! Replay of Surface.tla behaviours.
use crate::curve::{gtry, guard};
use crate::num::*;
use crate::report::Report;
use curvo::prelude::*;
use nalgebra::{Const, OMatrix, Point4, Vector3};
use serde_json::{json, Value};

pub type Sf = NurbsSurface3D<f64>;
const TOL: f64 = 1e-8;

pub fn build(s: &Value) -> Sf {
    let pts = arr(&s["P"]).iter().map(|r| arr(r).iter().map(|q| Point4::from_slice(&vec(q))).collect()).collect();
    Sf::new(us(&s["p"]), us(&s["q"]), vec(&s["U"]), vec(&s["V"]), pts)
}

fn at(s: &Sf, u: f64, v: f64) -> Vec<f64> {
    s.point_at(u, v).coords.as_slice().to_vec()
}
fn flat(s: &Sf) -> Vec<f64> {
    s.control_points().iter().flatten().flat_map(|p| p.coords.iter().copied().collect::<Vec<_>>()).collect()
}

pub fn structure(s: &Sf) -> Result<(), String> {
    let (n, m) = (s.control_points().len(), s.control_points()[0].len());
    if s.control_points().iter().any(|r| r.len() != m) {
        return Err("the control net is not rectangular".into());
    }
    if s.u_knots().len() != n + s.u_degree() + 1 || s.v_knots().len() != m + s.v_degree() + 1 {
        return Err(format!("{} and {} knots for {n} by {m} control points of degrees {} and {}", s.u_knots().len(), s.v_knots().len(), s.u_degree(), s.v_degree()));
    }
    for k in [s.u_knots().to_vec(), s.v_knots().to_vec()] {
        if k.windows(2).any(|w| !(w[0] <= w[1])) {
            return Err(format!("knots not sorted: {k:?}"));
        }
    }
    Ok(())
}

/// degrees, knots, domains and the surviving correspondences
fn shape(s: &Sf, e: &Value, g: &Value, off: (f64, f64), exact: bool) -> Result<u64, String> {
    structure(s)?;
    if s.u_degree() != us(&e["p"]) || s.v_degree() != us(&e["q"]) {
        return Err(format!("degrees {} and {}", s.u_degree(), s.v_degree()));
    }
    let sh = |k: Vec<f64>, o: f64| k.iter().map(|x| x + o).collect::<Vec<_>>();
    let (u, v) = (sh(vec(&e["U"]), off.0), sh(vec(&e["V"]), off.1));
    let ((a, b), (c, d)) = s.knots_domain();
    if !exact {
        // an unclamped surface: the knots outside the domain are the library's choice
        let (p, q) = (s.u_degree(), s.v_degree());
        if !vclose(&[a, b, c, d], &[u[p], u[u.len() - 1 - p], v[q], v[v.len() - 1 - q]], TOL) {
            return Err(format!("domain {:?}", s.knots_domain()));
        }
    } else if !vclose(&s.u_knots().to_vec(), &u, TOL) || !vclose(&s.v_knots().to_vec(), &v, TOL) {
        return Err(format!("knots {:?} and {:?} instead of {u:?} and {v:?}", s.u_knots().to_vec(), s.v_knots().to_vec()));
    }
    for q in arr(g) {
        let (x, y) = ((rat(&q[0]) + off.0).clamp(a, b), (rat(&q[1]) + off.1).clamp(c, d));
        let p = guard(|| at(s, x, y)).map_err(|m| format!("point at ({x}, {y}) {m}"))?;
        if !vclose(&p, &vec(&q[2]), TOL) {
            return Err(format!("point at ({x}, {y}) is {p:?} instead of {:?}", vec(&q[2])));
        }
    }
    if exact {
        let w: Vec<f64> = arr(&e["P"]).iter().flat_map(|r| arr(r).iter().flat_map(vec).collect::<Vec<_>>()).collect();
        if !vclose(&flat(s), &w, TOL) {
            return Err(format!("control net {:?} instead of {w:?}", flat(s)));
        }
    }
    Ok(arr(g).len() as u64)
}

fn iso(c: &NurbsCurve3D<f64>, m: &Value, off: f64) -> Result<u64, String> {
    if c.degree() != us(&m["c"]["p"]) {
        return Err(format!("isocurve of degree {}", c.degree()));
    }
    let (a, b) = c.knots_domain();
    let g = arr(&m["g"]);
    let (lo, hi) = (rat(&g[0][0]) + off, rat(&g[g.len() - 1][0]) + off);
    if !close(a, lo, lo, TOL) || !close(b, hi, hi, TOL) {
        return Err(format!("isocurve over ({a}, {b}) instead of ({lo}, {hi})"));
    }
    for q in g {
        let t = (rat(&q[0]) + off).clamp(a, b);
        let x = guard(|| c.point_at(t).coords.as_slice().to_vec()).map_err(|m| format!("isocurve point {m}"))?;
        if !vclose(&x, &vec(&q[1]), TOL) {
            return Err(format!("isocurve point at {t} is {x:?} instead of {:?}", vec(&q[1])));
        }
    }
    Ok(g.len() as u64)
}

fn prop_of(op: &str) -> &'static str {
    match op {
        "create" => "C18",
        "refine" | "split" | "flip" | "invert" | "iso" | "boundary" | "cast" => "C19",
        "transform" => "C08",
        "serde" => "C27",
        _ => "",
    }
}
fn dir(o: &Value) -> UVDirection {
    if st(&o["d"]) == "u" { UVDirection::U } else { UVDirection::V }
}

fn apply(cur: &Sf, off: &mut (f64, f64), o: &Value, step: &Value, rep: &mut Report) -> Result<Sf, String> {
    let e = &step["e"]["s"];
    let g = &step["g"];
    let more = arr(&step["more"]);
    let mut n = 0;
    let out = match st(&o["op"]) {
        "refine" => {
            let d = dir(o);
            let sh = if st(&o["d"]) == "u" { off.0 } else { off.1 };
            let us: Vec<f64> = vec(&o["us"]).iter().map(|x| x + sh).collect();
            let mut s = cur.clone();
            gtry(|| s.try_refine_knot(us, d))?;
            n += shape(&s, e, g, *off, true)?;
            s
        }
        "split" => {
            let sh = if st(&o["d"]) == "u" { off.0 } else { off.1 };
            let a = rat(&o["a"]) + sh;
            let (l, r) = gtry(|| cur.try_split(SplitSurfaceOption::new(a, dir(o))))?;
            let exact = match dir(o) {
                UVDirection::U => cur.u_knots().is_clamped(cur.u_degree()),
                UVDirection::V => cur.v_knots().is_clamped(cur.v_degree()),
            };
            n += shape(&l, &more[0]["s"], &more[0]["g"], *off, exact).map_err(|m| format!("first part: {m}"))?;
            n += shape(&r, &more[1]["s"], &more[1]["g"], *off, exact).map_err(|m| format!("second part: {m}"))?;
            if !exact {
                *off = (0.0, 0.0);
                build(e)
            } else if us(&o["side"]) == 1 { l } else { r }
        }
        op @ ("flip" | "invert") => {
            let d = if op == "invert" { "uv" } else { st(&o["d"]) };
            let f = |s: &Sf| {
                if op == "invert" {
                    s.inverse()
                } else {
                    s.flip(match d { "u" => FlipDirection::U, "v" => FlipDirection::V, _ => FlipDirection::UV })
                }
            };
            let s = guard(|| f(cur))?;
            // the mirrored domain may be placed anywhere
            let ((lo, hi), (lo2, hi2)) = cur.knots_domain();
            let ((a, b), (a2, b2)) = s.knots_domain();
            if !close(b - a, hi - lo, hi - lo, 1e-12) || !close(b2 - a2, hi2 - lo2, hi2 - lo2, 1e-12) {
                return Err(format!("domain {:?} became {:?}", cur.knots_domain(), s.knots_domain()));
            }
            *off = (a - vec(&e["U"])[us(&e["p"])], a2 - vec(&e["V"])[us(&e["q"])]);
            n += shape(&s, e, g, *off, true)?;
            if flat(&guard(|| f(&s))?) != flat(cur) {
                return Err(format!("two times {op} does not restore the surface"));
            }
            s
        }
        "transform" => {
            let m: Vec<Vec<f64>> = arr(&o["M"]).iter().map(vec).collect();
            let t = vec(&o["t"]);
            let h = OMatrix::<f64, Const<4>, Const<4>>::from_fn(|i, j| {
                if i < 3 && j < 3 { m[i][j] } else if i < 3 { t[i] } else if j == 3 { 1.0 } else { 0.0 }
            });
            let s = guard(|| cur.transformed(&h))?;
            n += shape(&s, e, g, *off, true)?;
            s
        }
        "serde" => {
            let s: Sf = gtry(|| Ok(serde_json::from_str(&serde_json::to_string(cur)?)?))?;
            let s2: Sf = gtry(|| Ok(serde_json::from_value(serde_json::to_value(cur)?)?))?;
            if !vclose(&flat(&s), &flat(cur), 1e-14) || !vclose(&flat(&s2), &flat(cur), 1e-14) {
                return Err("round trip changed the control net".into());
            }
            n += shape(&s, e, g, *off, true)?;
            s
        }
        "cast" => {
            let f = guard(|| cur.cast::<f32>())?;
            let b = guard(|| f.cast::<f64>())?;
            if b.u_degree() != cur.u_degree() || b.v_degree() != cur.v_degree() || !vclose(&b.u_knots().to_vec(), &cur.u_knots().to_vec(), 1e-5)
                || !vclose(&b.v_knots().to_vec(), &cur.v_knots().to_vec(), 1e-5) || !vclose(&flat(&b), &flat(cur), 1e-5) {
                return Err("single-precision copy differs in structure".into());
            }
            let ((x0, x1), (y0, y1)) = f.knots_domain();
            for q in arr(g) {
                let (x, y) = (((rat(&q[0]) + off.0) as f32).clamp(x0, x1), ((rat(&q[1]) + off.1) as f32).clamp(y0, y1));
                let p: Vec<f64> = guard(|| f.point_at(x, y))?.coords.iter().map(|c| *c as f64).collect();
                if !vclose(&p, &vec(&q[2]), 1e-3) {
                    return Err(format!("single-precision point {p:?} instead of {:?}", vec(&q[2])));
                }
                n += 1;
            }
            cur.clone()
        }
        "iso" => {
            let (sh, so) = if st(&o["d"]) == "u" { (off.0, off.1) } else { (off.1, off.0) };
            let d = cur.knots_domain_at(dir(o));
            let t = (rat(&o["a"]) + sh).clamp(d.0, d.1);
            let c = gtry(|| cur.try_isocurve(t, dir(o)))?;
            n += iso(&c, &more[0], so)?;
            cur.clone()
        }
        "boundary" => {
            let cs = gtry(|| cur.try_boundary_curves())?;
            for (i, c) in cs.iter().enumerate() {
                n += iso(c, &more[i], if i % 2 == 0 { off.1 } else { off.0 }).map_err(|m| format!("boundary {i}: {m}"))?;
            }
            cur.clone()
        }
        op => panic!("unknown operation {op}"),
    };
    rep.count("comparisons", n);
    Ok(out)
}

/// C18: the surface built from the specification's data evaluates to its values
fn evaluate(e: &Value, rep: &mut Report) -> Result<(), String> {
    let s = build(&e["s"]);
    let ((a, b), (c, d)) = s.knots_domain();
    for q in arr(&e["smp"]) {
        let (u, v) = (rat(&q["u"]).clamp(a, b), rat(&q["v"]).clamp(c, d));
        let w = &q["d"];
        let x = guard(|| at(&s, u, v)).map_err(|m| format!("point at ({u}, {v}) {m}"))?;
        if !vclose(&x, &vec(&w["x"]), TOL) {
            return Err(format!("point at ({u}, {v}) is {x:?} instead of {:?}", vec(&w["x"])));
        }
        rep.count("comparisons", 1);
        if !bo(&q["sm"]) {
            continue;
        }
        let k = guard(|| s.rational_derivatives(u, v, 2)).map_err(|m| format!("derivatives at ({u}, {v}) {m}"))?;
        for (i, j, f) in [(0, 0, "x"), (1, 0, "u"), (0, 1, "v"), (2, 0, "uu"), (1, 1, "uv"), (0, 2, "vv")] {
            let y = k[i][j].as_slice();
            if !vclose(y, &vec(&w[f]), 1e-6) {
                return Err(format!("derivative {f} at ({u}, {v}) is {y:?} instead of {:?}", vec(&w[f])));
            }
        }
        let n = guard(|| s.normal_at(u, v)).map_err(|m| format!("normal at ({u}, {v}) {m}"))?;
        let (su, sv) = (Vector3::from_vec(vec(&w["u"])), Vector3::from_vec(vec(&w["v"])));
        let m = su.cross(&sv);
        let scale = su.norm() * sv.norm();
        // the direction of the normal
        if m.norm() > 1e-6 * scale.max(1e-9) && (n.cross(&m).norm() > 1e-6 * n.norm() * m.norm() || !(n.dot(&m) > 0.0)) {
            return Err(format!("normal at ({u}, {v}) is {n:?} instead of {m:?}"));
        }
        rep.count("comparisons", 7);
    }
    let k = arr(&e["s"]["U"]).len() + 2 * arr(&e["s"]["V"]).len();
    let (nu, nv) = (1 + k % 4, 1 + (k / 3) % 5);
    let pts = guard(|| s.regular_sample_points(nu, nv)).map_err(|m| format!("sampling points {m}"))?;
    let ders: Vec<_> = (1..=2)
        .map(|i| guard(|| s.regular_sample_rational_derivatives(nu, nv, i)).map_err(|m| format!("sampling {i} derivatives {m}")))
        .collect::<Result<_, _>>()?;
    let nor = guard(|| s.regular_sample_normals(nu, nv)).map_err(|m| format!("sampling normals {m}"))?;
    let full = |n: usize, f: &dyn Fn(usize) -> usize| n == nu + 1 && (0..n).all(|i| f(i) == nv + 1);
    if !full(pts.len(), &|i| pts[i].len()) || !full(nor.len(), &|i| nor[i].len()) || ders.iter().any(|x| !full(x.len(), &|i| x[i].len())) {
        return Err(format!("grids are not {} by {}", nu + 1, nv + 1));
    }
    let near = |k: &[f64], p: usize, t: f64| k[p + 1..k.len() - p - 1].iter().any(|x| (x - t).abs() < 1e-7);
    for i in 0..=nu {
        for j in 0..=nv {
            let (u, v) = (a + (b - a) * i as f64 / nu as f64, c + (d - c) * j as f64 / nv as f64);
            let (u, v) = (u.clamp(a, b), v.clamp(c, d));
            if !vclose(pts[i][j].coords.as_slice(), &at(&s, u, v), 1e-7) {
                return Err(format!("grid point ({i}, {j}) of ({nu}, {nv}) is {:?}, the surface has {:?}", pts[i][j], at(&s, u, v)));
            }
            rep.count("comparisons", 1);
            // inside a span (or at the ends of the domain) every order must agree
            if (i > 0 && i < nu && near(&s.u_knots().to_vec(), s.u_degree(), u)) || (j > 0 && j < nv && near(&s.v_knots().to_vec(), s.v_degree(), v)) {
                continue;
            }
            let k = guard(|| s.rational_derivatives(u, v, 2))?;
            for (o, x) in ders.iter().enumerate() {
                for (p, q) in [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)] {
                    if p + q <= o + 1 && !vclose(x[i][j][p][q].as_slice(), k[p][q].as_slice(), 1e-5) {
                        return Err(format!("grid derivative [{p}][{q}] at ({i}, {j}) of ({nu}, {nv}), order {}, is {:?}, the surface has {:?}", o + 1, x[i][j][p][q], k[p][q]));
                    }
                }
            }
            let m = k[1][0].cross(&k[0][1]);
            if m.norm() > 1e-5 * (k[1][0].norm() * k[0][1].norm()).max(1e-9) && (nor[i][j] - m.normalize()).norm() > 1e-5 {
                return Err(format!("grid normal at ({i}, {j}) of ({nu}, {nv}) is {:?}, the surface has {:?}", nor[i][j], m));
            }
            rep.count("comparisons", 6);
        }
    }
    Ok(())
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let steps = arr(&v["steps"]);
    let mut cur: Option<Sf> = None;
    let mut off = (0.0, 0.0);
    let ops: Vec<&str> = steps.iter().map(|s| st(&s["op"])).collect();
    if rep.line < 5 {
        rep.samples.push(json!({"history": ops, "start": steps[0]["e"]["s"]}));
    }
    for (i, s) in steps.iter().enumerate() {
        let op = st(&s["op"]);
        let own = prop_of(op) == prop;
        rep.count("steps", 1);
        rep.enter(own || prop == "C18", op);
        if prop == "C18" {
            if let Err(m) = evaluate(&s["e"], rep) {
                rep.violation("C18", "evaluate".into(), m, json!({"surface": s["e"]["s"], "history": ops[..=i]}));
                return;
            }
            continue;
        }
        if op == "create" {
            let c = build(&s["e"]["s"]);
            if let Err(m) = shape(&c, &s["e"]["s"], &s["g"], off, true) {
                rep.violation(prop, "create".into(), m, s["e"].clone());
                return;
            }
            cur = Some(c);
            continue;
        }
        let c0 = cur.clone().unwrap();
        let off0 = off;
        let r = apply(&c0, &mut off, &s["o"], s, rep);
        if own {
            rep.count(&format!("sop:{op}"), 1);
        }
        match r {
            Ok(c) => cur = Some(c),
            Err(m) if own => {
                let before = json!({"degrees": [c0.u_degree(), c0.v_degree()], "knots": [c0.u_knots().to_vec(), c0.v_knots().to_vec()], "net": flat(&c0), "offset": off0});
                rep.violation(prop, format!("surface-{op}"), m, json!({"before": before, "op": s["o"], "expected": s["e"]["s"], "history": ops[..=i]}));
                return;
            }
            Err(_) => {
                rep.foreign += 1;
                off = (0.0, 0.0);
                cur = Some(build(&s["e"]["s"]));
            }
        }
    }
}
