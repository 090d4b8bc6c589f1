//! Polyline.tla and Polygon.tla: curves drawn as polylines, recorded for JudgePolyline, and
//! points in polygons (C30).
use crate::curve::{gtry, guard};
use crate::num::*;
use crate::report::Report;
use curvo::prelude::*;
use nalgebra::{Const, OPoint, Point2, Point3, Point4};
use serde_json::{json, Value};

/// a piece between two knots (or vertices of a degree 1 curve) of a span
type Cell = (usize, f64, f64, bool);

/// places of the vertices: the pieces halved over and over; all ways of reading them are tried
fn halved(cells: &[Cell], pts: &[Vec<f64>], at: &dyn Fn(usize, f64) -> Vec<f64>, tol: f64) -> Option<Vec<(usize, f64)>> {
    struct Look<'a> {
        pts: &'a [Vec<f64>],
        at: &'a dyn Fn(usize, f64) -> Vec<f64>,
        tol: f64,
        left: usize,
    }
    fn near(a: &[f64], b: &[f64], tol: f64) -> bool {
        a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol)
    }
    /// the vertices after i at which the piece may end, with the places passed
    fn piece(l: &mut Look, c: Cell, i: usize, depth: usize) -> Vec<Vec<(usize, f64)>> {
        if l.left == 0 || i + 1 >= l.pts.len() {
            return vec![];
        }
        l.left -= 1;
        let mut out = vec![];
        if near(&l.pts[i + 1], &(l.at)(c.0, c.2), l.tol) {
            out.push(vec![(c.0, c.2)]);
        }
        if c.3 && depth < 24 && out.is_empty() || c.3 && depth < 6 {
            let m = c.1 + (c.2 - c.1) * 0.5;
            for a in piece(l, (c.0, c.1, m, true), i, depth + 1) {
                for b in piece(l, (c.0, m, c.2, true), i + a.len(), depth + 1) {
                    out.push(a.iter().chain(&b).copied().collect());
                }
            }
        }
        out.truncate(4);
        out
    }
    let mut l = Look { pts, at, tol, left: 400_000 };
    let mut ways: Vec<Vec<(usize, f64)>> = vec![vec![]];
    for c in cells {
        let mut next = vec![];
        for w in &ways {
            for p in piece(&mut l, *c, w.len(), 0) {
                next.push(w.iter().chain(&p).copied().collect::<Vec<_>>());
            }
        }
        next.truncate(16);
        ways = next;
    }
    ways.retain(|w| w.len() + 1 == pts.len());
    ways.into_iter().next().map(|w| {
        let mut out = vec![(cells[0].0, cells[0].1)];
        out.extend(w);
        out
    }).filter(|_| near(&pts[0], &at(cells[0].0, cells[0].1), tol))
}

/// places of the vertices, however they were chosen: the next point of the curve that is near
fn along(cells: &[Cell], pts: &[Vec<f64>], at: &dyn Fn(usize, f64) -> Vec<f64>, tol: f64) -> Option<Vec<(usize, f64)>> {
    let gap = |k: usize, t: f64, q: &[f64]| at(k, t).iter().zip(q).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt();
    let mut out = vec![(cells[0].0, cells[0].1)];
    let mut c = 0;
    let mut last = cells[0].1;
    'next: for q in &pts[1..] {
        while c < cells.len() {
            let (k, a, b, _) = cells[c];
            let n = 512;
            let h = (b - a) / n as f64;
            for j in 0..n {
                let (mut x, mut y) = (a + h * j as f64, a + h * (j + 1) as f64);
                if y <= last {
                    continue;
                }
                x = x.max(last);
                let end = (j == n - 1).then_some(b);
                if let Some(b) = end.filter(|b| gap(k, *b, q) <= tol) {
                    out.push((k, b));
                    c += 1;
                    last = cells.get(c).map_or(b, |c| c.1);
                    continue 'next;
                }
                for _ in 0..80 {
                    let (u, v) = (x + (y - x) / 3.0, y - (y - x) / 3.0);
                    if gap(k, u, q) < gap(k, v, q) { y = v } else { x = u }
                }
                let t = (x + y) / 2.0;
                if gap(k, t, q) <= tol && t > last + h * 1e-7 {
                    out.push((k, t));
                    last = t;
                    continue 'next;
                }
            }
            return None;
        }
        return None;
    }
    Some(out).filter(|_| c == cells.len())
}

fn cells(k: usize, c: &Value) -> Vec<Cell> {
    let (p, u) = (us(&c["p"]), vec(&c["U"]));
    if p == 1 {
        return u[1..u.len() - 1].windows(2).map(|w| (k, w[0], w[1], false)).collect();
    }
    let mut b: Vec<f64> = u[p..u.len() - p].to_vec();
    b.dedup();
    b.windows(2).map(|w| (k, w[0], w[1], true)).collect()
}

macro_rules! draw {
    ($m:ident, $n:literal, $d:literal, $h:ident) => {
        mod $m {
            use super::*;
            type Cu = NurbsCurve<f64, Const<$n>>;
            fn mk(c: &Value, f: f64) -> anyhow::Result<Cu> {
                Cu::try_new(us(&c["p"]), arr(&c["P"]).iter().map(|q| $h::from_slice(&vec(q))).collect(), vec(&c["U"]).iter().map(|x| x * f).collect())
            }
            pub fn run(prop: &str, v: &Value, ch: &[Value], tol: f64, std: bool, f: f64, closed: bool, rep: &mut Report) {
                let single = ch.len() == 1 && v["m"] == "polyline";
                let kind = if single { "curve" } else { "chain" };
                rep.enter(false, kind);
                let Ok(spans) = gtry(|| ch.iter().map(|c| mk(c, f)).collect::<anyhow::Result<Vec<_>>>()) else {
                    return rep.count("foreign", 1);
                };
                let ask = if std { None } else { Some(tol) };
                let whole = if single { None } else {
                    match guard(|| CompoundCurve::new(spans.clone())) {
                        Ok(c) if c.spans().len() == ch.len() && c.spans().iter().zip(&spans).all(|(a, b)| (a.dehomogenized_control_points()[0] - b.dehomogenized_control_points()[0]).norm() < 1e-9) => Some(c),
                        _ => return rep.count("foreign", 1),
                    }
                };
                rep.enter(true, kind);
                rep.count(&format!("drawn:{kind}"), 1);
                rep.count(&format!("drawn:{}", st(&v["kind"])), 1);
                let got = guard(|| match &whole { Some(c) => c.tessellate(ask), None => spans[0].tessellate(ask) });
                let pts: Vec<OPoint<f64, Const<$d>>> = match got {
                    Ok(p) => p,
                    Err(e) => return rep.violation(prop, format!("{kind}-panic"), e, v.clone()),
                };
                let pts: Vec<Vec<f64>> = pts.iter().map(|p| p.coords.as_slice().to_vec()).collect();
                if pts.len() < 2 || pts.iter().flatten().any(|x| !x.is_finite()) {
                    return rep.violation(prop, format!("{kind}-points"), format!("the polyline has {} points: {:?}", pts.len(), &pts[..pts.len().min(3)]), v.clone());
                }
                rep.count("vertices", pts.len() as u64);
                let at = |k: usize, t: f64| spans[k].point_at(t * f).coords.as_slice().to_vec();
                let all: Vec<Cell> = ch.iter().enumerate().flat_map(|(k, c)| cells(k, c)).collect();
                let eps = 1e-9 * pts.iter().flatten().fold(1f64, |m, x| m.max(x.abs()));
                let w = halved(&all, &pts, &at, eps).or_else(|| along(&all, &pts, &at, eps * 100.0)).unwrap_or_default();
                let again = pts[0] == pts[pts.len() - 1];
                let s = json!({"ch": ch, "tol": v["tol"], "kind": v["kind"], "scale": v["scale"]});
                let rec = json!({"s": s, "pts": pts.iter().map(|p| encv(p)).collect::<Vec<_>>(), "closed": closed, "again": again,
                                 "w": w.iter().map(|(k, t)| json!([k + 1, enc(*t)])).collect::<Vec<_>>()});
                if rep.line < 5 {
                    rep.samples.push(rec["s"].clone());
                }
                rep.trace.push(rec);
            }
        }
    };
}
draw!(flat, 3, 2, Point3);
draw!(space, 4, 3, Point4);

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let dim = arr(&arr(&v["ch"])[0]["P"])[0].as_array().unwrap().len();
    let (ch, tol, std, f) = (arr(&v["ch"]), rat(&v["tol"]), bo(&v["std"]), rat(&v["scale"]));
    if dim == 3 { flat::run(prop, v, ch, tol, std, f, false, rep) } else { space::run(prop, v, ch, tol, std, f, false, rep) }
}

/// the chain at the end of a behaviour of Compound.tla
pub fn chain(prop: &str, v: &Value, rep: &mut Report) {
    let ch: Vec<Value> = arr(&v["last"]).iter().map(|s| s["c"].clone()).collect();
    let dim = arr(&ch[0]["P"])[0].as_array().unwrap().len();
    let tol = [(1, 8), (1, 64), (1, 1000)][rep.line % 3];
    let w = json!({"m": "chain", "kind": v["kind"], "tol": [tol.0, tol.1], "scale": [1, 1]});
    let (t, std, closed) = (tol.0 as f64 / tol.1 as f64, tol.1 == 1000, bo(&v["closed"]));
    if dim == 3 { flat::run(prop, &w, &ch, t, std, 1.0, closed, rep) } else { space::run(prop, &w, &ch, t, std, 1.0, closed, rep) }
}

/// points in polygons
pub fn polygon(prop: &str, v: &Value, rep: &mut Report) {
    rep.enter(true, "polygon");
    rep.count("polygons", 1);
    let p: Vec<Point2<f64>> = arr(&v["P"]).iter().map(|q| Point2::from_slice(&vec(q))).collect();
    for r in 0..p.len() {
        for rev in [false, true] {
            let mut q = p.clone();
            q.rotate_left(r);
            if rev {
                q.reverse();
            }
            if r % 2 == 1 {
                q.push(q[0]); // as a closed polyline ends
            }
            let b: PolygonBoundary<f64, Const<2>> = q.iter().copied().collect();
            if b.vertices() != &q {
                return rep.violation(prop, "polygon-vertices".into(), format!("vertices {:?} of the polygon {q:?}", b.vertices()), v.clone());
            }
            for a in arr(&v["qs"]) {
                let x = Point2::from_slice(&vec(&a["x"]));
                let want = us_i(&a["n"]) != 0;
                rep.count(if want { "inside" } else { "outside" }, 1);
                match gtry(|| b.contains(&x, ())) {
                    Ok(g) if g == want => {}
                    g => return rep.violation(prop, "polygon-contains".into(), format!("contains {x} says {g:?}, but the polygon {q:?} turns {} times around it", a["n"]), v.clone()),
                }
            }
        }
    }
}
