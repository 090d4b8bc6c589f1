//! Boxes.tla: bounding boxes, subdivision trees and triangle meshes (C26).
use crate::curve::{build as curve_of, gtry, guard, structure as curve_structure, Cv};
use crate::num::*;
use crate::report::Report;
use crate::surface::{build, structure, Sf};
use curvo::prelude::*;
use nalgebra::{Const, DimNameDiff, DimNameSub, OPoint, OVector, U1};
use serde_json::{json, Value};

type Bad = (String, String);
fn bad<T>(k: &str, e: String) -> Result<T, Bad> {
    Err((k.into(), e))
}
fn failed(e: String) -> Bad {
    ("panic".into(), e)
}

/* boxes of points, scaled by a power of two */
macro_rules! algebra {
    ($name:ident, $t:ty, $d:literal) => {
        fn $name(v: &Value) -> Result<u64, Bad> {
            type P = OPoint<$t, Const<$d>>;
            let k = us_i(&v["k"]) as i32;
            let f = (2f64).powi(k) as $t;
            let pt = |x: &Value| P::from_slice(&vec(x).iter().map(|y| *y as $t * f).collect::<Vec<_>>());
            let ps: Vec<P> = arr(&v["P"]).iter().map(pt).collect();
            let qs: Vec<P> = arr(&v["Q"]).iter().map(pt).collect();
            let a: BoundingBox<$t, Const<$d>> = BoundingBox::new_with_points(ps.clone());
            let b: BoundingBox<$t, Const<$d>> = qs.iter().cloned().collect();
            let mut boxes = vec![("of points", a.clone())];
            if ps.len() == 2 {
                boxes.push(("of two corners", BoundingBox::new(ps[0].coords, ps[1].coords)));
                boxes.push(("of two corners", BoundingBox::new(ps[1].coords, ps[0].coords)));
            }
            let void = ps.is_empty();
            let mut n = 0;
            for (how, x) in &boxes {
                let at = |w: &str, e: String| bad(w, format!("box {how}: {e}"));
                if !void {
                    let (lo, hi) = (pt(&v["box"]["lo"]), pt(&v["box"]["hi"]));
                    if *x.min() != lo.coords || *x.max() != hi.coords {
                        return at("extent", format!("{:?}..{:?} instead of {lo:?}..{hi:?}", x.min(), x.max()));
                    }
                    if x.size() != pt(&v["size"]).coords || x.center() != pt(&v["centre"]).coords {
                        return at("size", format!("size {:?} and centre {:?} of the box {lo:?}..{hi:?}", x.size(), x.center()));
                    }
                    let mut want: Vec<P> = arr(&v["corners"]).iter().map(pt).collect();
                    let mut got = x.corners();
                    let order = |s: &P, t: &P| s.coords.as_slice().partial_cmp(t.coords.as_slice()).unwrap();
                    want.sort_by(order);
                    got.sort_by(order);
                    if got != want {
                        return at("corners", format!("corners {got:?} of the box {lo:?}..{hi:?}"));
                    }
                    // every edge the same number of times, in either direction
                    let edge = |(s, t): (P, P)| if order(&s, &t).is_le() { (s, t) } else { (t, s) };
                    let both = |s: &(P, P), t: &(P, P)| order(&s.0, &t.0).then(order(&s.1, &t.1));
                    let mut want: Vec<(P, P)> = arr(&v["edges"]).iter().map(|e| edge((pt(&e[0]), pt(&e[1])))).collect();
                    let mut got: Vec<(P, P)> = x.lines().into_iter().map(edge).collect();
                    let times = got.len() / want.len();
                    want = want.iter().flat_map(|e| vec![e.clone(); times]).collect();
                    want.sort_by(both);
                    got.sort_by(both);
                    if times == 0 || got != want {
                        return at("edges", format!("edges {got:?} of the box {lo:?}..{hi:?}"));
                    }
                    if k.abs() < 50 {
                        let (y, z) = (x.cast::<f64>(), x.cast::<f32>());
                        if (0..$d).any(|i| y.min()[i] != lo[i] as f64 || y.max()[i] != hi[i] as f64 || z.min()[i] != lo[i] as f32 || z.max()[i] != hi[i] as f32) {
                            return at("cast", format!("cast boxes {y:?}, {z:?}"));
                        }
                    }
                    if !x.intersects(x, None) {
                        return at("meets", "does not meet itself".into());
                    }
                }
                for (q, h) in arr(&v["x"]).iter().zip(arr(&v["has"])) {
                    n += 1;
                    if x.contains(&pt(q)) != bo(h) {
                        return at("contains", format!("contains {:?} is {} for {:?}..{:?}", pt(q), !bo(h), x.min(), x.max()));
                    }
                }
                let tol = arr(&v["tol"]).first().map(|t| rat(t) as $t * f);
                if tol.is_some() || k >= 0 {
                    n += 1;
                    let (s, t) = (x.intersects(&b, tol), b.intersects(x, tol));
                    if (s && t) != bo(&v["meets"]) && (s || t) != !bo(&v["apart"]) || s != t {
                        return at("meets", format!("meets, meets in the other order: {s}, {t} with tolerance {tol:?} for {:?}..{:?} and {:?}..{:?}", x.min(), x.max(), b.min(), b.max()));
                    }
                }
            }
            Ok(n)
        }
    };
}
algebra!(algebra2, f64, 2);
algebra!(algebra3, f64, 3);
algebra!(algebra2s, f32, 2);
algebra!(algebra3s, f32, 3);

fn corners<const D: usize>(b: &BoundingBox<f64, Const<D>>) -> (Vec<f64>, Vec<f64>) {
    (b.min().as_slice().to_vec(), b.max().as_slice().to_vec())
}
fn sub<D: DimNameSub<U1>>(b: &BoundingBox<f64, DimNameDiff<D, U1>>) -> (Vec<f64>, Vec<f64>)
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<DimNameDiff<D, U1>>,
{
    let f = |x: &OVector<f64, DimNameDiff<D, U1>>| x.as_slice().to_vec();
    (f(b.min()), f(b.max()))
}

fn curve(v: &Value) -> Option<Cv> {
    gtry(|| curve_of(v)).ok().filter(|c| curve_structure(c).is_ok())
}
fn surface(v: &Value) -> Option<Sf> {
    guard(|| build(v)).ok().filter(|s| structure(s).is_ok())
}

/// the box of an object: contains its points and is not larger than the net
fn hull(v: &Value) -> Result<Option<u64>, Bad> {
    let o = arr(&v["o"]);
    let (lo, hi) = match st(&v["of"]) {
        "surface" => {
            let Some(s) = surface(&o[0]) else { return Ok(None) };
            corners(&guard(|| BoundingBox::from(&s)).map_err(failed)?)
        }
        "curve" => {
            let Some(c) = curve(&o[0]) else { return Ok(None) };
            match &c {
                Cv::C2(c) => corners(&guard(|| BoundingBox::from(c)).map_err(failed)?),
                Cv::C3(c) => corners(&guard(|| BoundingBox::from(c)).map_err(failed)?),
            }
        }
        _ => {
            let (Some(a), Some(b)) = (curve(&o[0]), curve(&o[1])) else { return Ok(None) };
            match (a, b) {
                (Cv::C2(a), Cv::C2(b)) => {
                    let Ok(c) = guard(|| CompoundCurve::new(vec![a, b])) else { return Ok(None) };
                    corners(&guard(|| BoundingBox::from(&c)).map_err(failed)?)
                }
                (Cv::C3(a), Cv::C3(b)) => {
                    let Ok(c) = guard(|| CompoundCurve::new(vec![a, b])) else { return Ok(None) };
                    corners(&guard(|| BoundingBox::from(&c)).map_err(failed)?)
                }
                _ => return Ok(None),
            }
        }
    };
    let (wlo, whi) = (vec(&v["hull"]["lo"]), vec(&v["hull"]["hi"]));
    let e = 1e-9 * wlo.iter().chain(&whi).fold(1.0f64, |m, x| m.max(x.abs()));
    let what = || format!("the box {lo:?}..{hi:?} of a {}", st(&v["of"]));
    for x in arr(&v["x"]) {
        let x = vec(x);
        if (0..x.len()).any(|i| !(lo[i] - e <= x[i] && x[i] <= hi[i] + e)) {
            return bad("outside", format!("{} does not contain its point {x:?}", what()));
        }
    }
    if (0..lo.len()).any(|i| !(wlo[i] - e <= lo[i] && hi[i] <= whi[i] + e)) {
        return bad("loose", format!("{} is larger than that of its control points, {wlo:?}..{whi:?}", what()));
    }
    Ok(Some(arr(&v["x"]).len() as u64))
}

/* subdivision */
const MANY: usize = 20000;
fn leaves<D, T: BoundingBoxTree<f64, D>>(t: T) -> Result<Vec<T>, Bad>
where
    D: DimNameSub<U1>,
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D> + nalgebra::allocator::Allocator<DimNameDiff<D, U1>>,
{
    let (mut todo, mut done) = (vec![t], vec![]);
    while let Some(t) = todo.pop() {
        if !guard(|| t.is_dividable()).map_err(failed)? {
            done.push(t);
        } else {
            let (a, b) = gtry(|| t.try_divide()).map_err(|e| ("divide".to_string(), e))?;
            todo.push(b);
            todo.push(a);
        }
        if todo.len() + done.len() > MANY {
            return bad("endless", format!("more than {MANY} parts"));
        }
    }
    Ok(done)
}
fn boxed((lo, hi): (Vec<f64>, Vec<f64>), mut r: Value) -> Value {
    r["lo"] = encv(&lo);
    r["hi"] = encv(&hi);
    r
}
macro_rules! curve_leaf {
    ($n:literal, $l:expr) => {{
        let (a, b) = $l.curve().knots_domain();
        boxed(sub::<Const<$n>>(&$l.bounding_box()), json!({"a": enc(a), "b": enc(b)}))
    }};
}
fn surface_leaf(l: &SurfaceBoundingBoxTree<f64, Const<4>>) -> Value {
    let ((a, b), (c, d)) = l.surface().knots_domain();
    boxed(sub::<Const<4>>(&l.bounding_box()), json!({"a": enc(a), "b": enc(b), "c": enc(c), "d": enc(d)}))
}
/// a leaf is the part of the object over its domain
fn agree(p: Result<(Vec<f64>, Vec<f64>), String>) -> Result<(), Bad> {
    let (x, y) = p.map_err(failed)?;
    if vclose(&x, &y, 1e-7) { Ok(()) } else { bad("part", format!("a leaf passes through {x:?} where the object passes through {y:?}")) }
}
fn mids(a: f64, b: f64) -> [f64; 3] {
    [a, 0.5 * (a + b), b]
}
fn one(v: &Value) -> Option<f64> {
    arr(v).first().map(rat)
}
fn direction(v: &Value) -> UVDirection {
    if st(v) == "u" { UVDirection::U } else { UVDirection::V }
}
fn pair(v: &Value) -> (f64, f64) {
    (rat(&v[0]), rat(&v[1]))
}

fn tree(v: &Value, rep: &mut Report) -> Result<Option<Value>, Bad> {
    let ls: Vec<Value> = if st(&v["of"]) == "surface" {
        let Some(s) = surface(&v["o"]) else { return Ok(None) };
        let ls = leaves(SurfaceBoundingBoxTree::new(&s, direction(&v["first"]), Some(pair(&v["tol"]))))?;
        for l in &ls {
            let ((a, b), (c, d)) = l.surface().knots_domain();
            for u in mids(a, b) {
                for w in mids(c, d) {
                    agree(guard(|| (l.surface().point_at(u, w).coords.as_slice().to_vec(), s.point_at(u, w).coords.as_slice().to_vec())))?;
                }
            }
        }
        ls.iter().map(surface_leaf).collect()
    } else {
        let Some(c) = curve(&v["o"]) else { return Ok(None) };
        macro_rules! go {
            ($c:ident, $n:literal) => {{
                let ls = leaves(CurveBoundingBoxTree::new($c, one(&v["tol"])))?;
                for l in &ls {
                    let (a, b) = l.curve().knots_domain();
                    for u in mids(a, b) {
                        agree(guard(|| (l.curve().point_at(u).coords.as_slice().to_vec(), $c.point_at(u).coords.as_slice().to_vec())))?;
                    }
                }
                ls.iter().map(|l| curve_leaf!($n, l)).collect()
            }};
        }
        match &c {
            Cv::C2(c) => go!(c, 3),
            Cv::C3(c) => go!(c, 4),
        }
    };
    rep.count("leaves", ls.len() as u64);
    Ok(Some(json!({"s": v, "leaves": ls})))
}

fn meet(v: &Value, rep: &mut Report) -> Result<Option<Value>, Bad> {
    let Some(b) = curve(&v["b"]) else { return Ok(None) };
    let tb = one(&v["tolb"]);
    let err = |e| ("error".to_string(), e);
    let ps: Vec<Value> = if st(&v["of"]) == "surface" {
        let (Some(s), Cv::C3(c)) = (surface(&v["a"]), &b) else { return Ok(None) };
        let t = gtry(|| {
            BoundingBoxTraversal::try_traverse(
                SurfaceBoundingBoxTree::new(&s, direction(&v["first"]), Some(pair(&v["tola"]))),
                CurveBoundingBoxTree::new(c, tb),
            )
        })
        .map_err(err)?;
        let n = t.pairs().len();
        if t.pairs_iter().count() != n {
            return bad("pairs", "the ways of reading the pairs differ".into());
        }
        t.into_pairs_iter().map(|(a, b)| json!({"a": surface_leaf(&a), "b": curve_leaf!(4, b)})).collect()
    } else {
        let Some(a) = curve(&v["a"]) else { return Ok(None) };
        let ta = one(&v["tola"]);
        macro_rules! go {
            ($a:ident, $b:ident, $n:literal) => {{
                let t = gtry(|| BoundingBoxTraversal::try_traverse(CurveBoundingBoxTree::new($a, ta), CurveBoundingBoxTree::new($b, tb))).map_err(err)?;
                t.into_pairs().iter().map(|(a, b)| json!({"a": curve_leaf!($n, a), "b": curve_leaf!($n, b)})).collect()
            }};
        }
        match (&a, &b) {
            (Cv::C2(a), Cv::C2(b)) => go!(a, b, 3),
            (Cv::C3(a), Cv::C3(b)) => go!(a, b, 4),
            _ => return Ok(None),
        }
    };
    rep.count("pairs", ps.len() as u64);
    Ok(Some(json!({"s": v, "pairs": ps})))
}

/* meshes */
macro_rules! mesh {
    ($name:ident, $d:literal) => {
        fn $name(v: &Value) -> Result<u64, Bad> {
            type P = OPoint<f64, Const<$d>>;
            type M = PolygonMesh<f64, Const<$d>>;
            let pt = |x: &Value| P::from_slice(&vec(x));
            let close = |a: f64, b: f64| (a - b).abs() <= 1e-10 * (1.0 + b.abs());
            let same = |m: &M, ts: &Value| {
                let t = m.triangles();
                t.len() == m.faces().len() && t.len() == arr(ts).len() && t.iter().zip(arr(ts)).all(|(a, b)| (0..3).all(|i| a[i] == pt(&b[i])))
            };
            let mut all: Vec<M> = vec![];
            for p in arr(&v["parts"]) {
                let vs: Vec<P> = arr(&p["V"]).iter().map(pt).collect();
                let fs: Vec<[usize; 3]> = arr(&p["F"]).iter().map(|f| [us(&f[0]), us(&f[1]), us(&f[2])]).collect();
                let m = M::new(vs.clone(), fs.clone());
                if m.vertices() != vs || m.faces() != fs || !same(&m, &p["T"]) {
                    return bad("mesh", "a mesh does not have the vertices and triangles it was made of".into());
                }
                if !close(m.area(), rat(&p["area"])) {
                    return bad("area", format!("area {} instead of {}", m.area(), rat(&p["area"])));
                }
                all.push(m);
            }
            let sum: M = all.iter().cloned().sum();
            let added = all.iter().cloned().reduce(|a, b| a + b).unwrap();
            let back = all.iter().rev().cloned().reduce(|a, b| b + a).unwrap();
            for (how, m) in [("sum", sum), ("additions", added), ("additions from the end", back)] {
                if !same(&m, &v["T"]) || !close(m.area(), rat(&v["total"])) {
                    return bad("sum", format!("{how} of meshes: area {} instead of {}, {} triangles", m.area(), rat(&v["total"]), m.faces().len()));
                }
            }
            Ok(all.len() as u64)
        }
    };
}
mesh!(mesh2, 2);
mesh!(mesh3, 3);

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let kind = st(&v["kind"]).to_string();
    rep.enter(true, &kind);
    if rep.line < 5 {
        rep.samples.push(v.clone());
    }
    let of = v["of"].as_str().unwrap_or("").to_string();
    let r = match kind.as_str() {
        "algebra" => {
            let d = arr(&arr(&v["Q"])[0]).len();
            let k = us_i(&v["k"]).abs();
            let r = guard(|| if d == 2 { algebra2(v) } else { algebra3(v) }).unwrap_or_else(|e| Err(failed(e)));
            let s = if k > 100 { Ok(0) } else { guard(|| if d == 2 { algebra2s(v) } else { algebra3s(v) }).unwrap_or_else(|e| Err(failed(e))) };
            r.and_then(|n| s.map(|m| n + m)).map(|n| {
                rep.count("comparisons", n);
                None
            })
        }
        "hull" => hull(v).map(|n| {
            rep.count("points", n.unwrap_or(0));
            rep.foreign += n.is_none() as u64;
            None
        }),
        "mesh" => guard(|| if us(&v["d"]) == 2 { mesh2(v) } else { mesh3(v) }).unwrap_or_else(|e| Err(failed(e))).map(|n| {
            rep.count("meshes", n);
            None
        }),
        k => (if k == "tree" { tree(v, rep) } else { meet(v, rep) }).map(|r| {
            rep.foreign += r.is_none() as u64;
            r
        }),
    };
    rep.count(&format!("made:{kind}{}{of}", if of.is_empty() { "" } else { ":" }), 1);
    match r {
        Err((k, e)) => rep.violation(prop, format!("{kind}:{k}"), e, v.clone()),
        Ok(Some(t)) => rep.trace.push(t),
        Ok(None) => {}
    }
}
