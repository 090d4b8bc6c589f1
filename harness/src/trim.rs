//! Trim.tla: tessellated trimmed surfaces and regions (C25), their maps (C08), and reversed regions (C17).
use crate::curve::{gtry, guard};
use crate::mesh::{check_vertices, options, ranks, record};
use crate::num::*;
use crate::plane::{plane, spans, C2};
use crate::report::Report;
use crate::surface::{build, structure, Sf};
use crate::wire::round;
use curvo::prelude::*;
use nalgebra::{Matrix4, Point2, Vector3};
use serde_json::{json, Value};
use std::collections::HashMap;

type Trimmed = TrimmedSurface<f64>;

/// the polygon without its last side
fn unclosed(c: &C2) -> Option<C2> {
    let n = c.control_points().len() - 1;
    let mut k = c.knots().to_vec();
    k.truncate(n + 1);
    k.push(k[n]);
    NurbsCurve2D::try_new(1, c.control_points()[..n].to_vec(), k).ok()
}
/// the curve in the plane z of space
fn lift(c: &C2, z: f64) -> NurbsCurve3D<f64> {
    let p = c.control_points().iter().map(|p| nalgebra::Point4::new(p.x, p.y, z * p.z, p.z)).collect();
    NurbsCurve3D::try_new(c.degree(), p, c.knots().to_vec()).unwrap()
}
fn matrix(o: &Value) -> Matrix4<f64> {
    let m: Vec<Vec<f64>> = arr(&o["M"]).iter().map(vec).collect();
    let t = vec(&o["t"]);
    Matrix4::from_fn(|i, j| if i < 3 && j < 3 { m[i][j] } else if i < 3 { t[i] } else if j == 3 { 1.0 } else { 0.0 })
}

struct Case {
    s: Sf,
    ext: Option<C2>,
    holes: Vec<C2>,
    now: Sf,
    loops: Vec<C2>,
}
fn read(v: &Value) -> Option<Case> {
    let get = |x: &Value| -> Option<Vec<C2>> { arr(x).iter().map(plane).collect() };
    let sf = |x: &Value| guard(|| build(x)).ok().filter(|s| structure(s).is_ok());
    let (a, b) = (&v["start"], &v["now"]);
    let ext = get(&a["ext"])?;
    let mut loops = get(&b["ext"])?;
    loops.extend(get(&b["holes"])?);
    Some(Case { s: sf(&a["s"])?, ext: ext.into_iter().next(), holes: get(&a["holes"])?, now: sf(&b["s"])?, loops })
}

/// projected loops are those of the specification, up to the accuracy of the search
fn same(t: &Trimmed, k: &Case) -> Result<(), String> {
    if t.exterior().is_some() != k.ext.is_some() || t.interiors().len() != k.holes.len() {
        return Err("the projection has other loops".into());
    }
    let size = |c: &C2| c.dehomogenized_control_points().iter().fold(1.0f64, |m, p| m.max(p.coords.norm()));
    for (a, b) in t.exterior().into_iter().chain(t.interiors()).zip(k.ext.iter().chain(&k.holes)) {
        let (lo, hi) = b.knots_domain();
        if a.knots_domain() != (lo, hi) {
            return Err("a projected loop has another domain".into());
        }
        for i in 0..=40 {
            let t = lo + (hi - lo) * i as f64 / 40.0;
            let (p, q) = (a.point_at(t), b.point_at(t));
            if !((p - q).norm() < 1e-3 * size(b)) {
                return Err(format!("the projected loop is at {p} instead of {q} at {t}"));
            }
        }
    }
    Ok(())
}

fn make(v: &Value, k: &Case, line: usize) -> anyhow::Result<Trimmed> {
    let ext = match &k.ext {
        Some(c) if bo(&v["cut"]) => Some(unclosed(c).ok_or_else(|| anyhow::anyhow!("the open polygon is refused"))?),
        c => c.clone(),
    };
    let up = 1.0 + (line % 7) as f64;
    let high = k.s.control_points().iter().flatten().map(|p| p.z / p.w).fold(f64::MIN, f64::max);
    let mut t = match st(&v["from"]) {
        "projected" if ext.is_some() || !k.holes.is_empty() => Trimmed::try_projection(
            k.s.clone(), -Vector3::z() * if line % 2 == 0 { 1.0 } else { 2.5 },
            ext.as_ref().map(|c| lift(c, high + up)), k.holes.iter().map(|c| lift(c, high + up)).collect(),
        )?,
        "mapped" if ext.is_some() || !k.holes.is_empty() => Trimmed::try_map_closest_point(
            k.s.clone(), ext.as_ref().map(|c| lift(c, high + up)), k.holes.iter().map(|c| lift(c, high + up)).collect(),
        )?,
        _ => Trimmed::new(k.s.clone(), ext.clone(), k.holes.clone()),
    };
    if st(&v["from"]) != "given" {
        // their ends need not meet exactly, and small gaps are theirs
        same(&t, k).map_err(|e| anyhow::anyhow!(e))?;
        t = Trimmed::new(k.s.clone(), ext, k.holes.clone());
    }
    for o in arr(&v["steps"]) {
        match st(&o["op"]) {
            "invert" => t.invert(),
            _ => t.transform(&matrix(o)),
        }
    }
    Ok(t)
}

/// the boundary vertices of a mesh, by position: those of edges not used in both directions
fn rim(uv: &[(usize, usize)], faces: &[[usize; 3]], skip: impl Fn((usize, usize), (usize, usize)) -> bool) -> Vec<usize> {
    let mut n: HashMap<((usize, usize), (usize, usize)), i64> = HashMap::new();
    for f in faces {
        let p = f.map(|i| uv[i]);
        if p[0] == p[1] || p[1] == p[2] || p[2] == p[0] {
            continue;
        }
        for i in 0..3 {
            let (a, b) = (p[i], p[(i + 1) % 3]);
            *n.entry((a, b)).or_default() += 1;
            *n.entry((b, a)).or_default() -= 1;
        }
    }
    let mut on: Vec<(usize, usize)> = n.iter().filter(|(e, n)| **n != 0 && !skip(e.0, e.1)).map(|(e, _)| e.0).collect();
    on.sort();
    on.dedup();
    on.iter().map(|p| uv.iter().position(|q| q == p).unwrap()).collect()
}

/// the closest parameter of a loop
struct Track {
    c: C2,
    at: Vec<(f64, Point2<f64>)>,
}
impl Track {
    fn new(c: &C2, breaks: &[f64]) -> Self {
        let n = if c.degree() == 1 { 1 } else { 64 };
        let mut at = vec![];
        for w in breaks.windows(2) {
            for i in 0..n {
                let t = w[0] + (w[1] - w[0]) * i as f64 / n as f64;
                at.push((t, c.point_at(t)));
            }
        }
        let t = *breaks.last().unwrap();
        at.push((t, c.point_at(t)));
        Track { c: c.clone(), at }
    }
    fn nearest(&self, q: &Point2<f64>) -> (f64, f64) {
        let mut best = (f64::MAX, 0.0, 0);
        for (i, w) in self.at.windows(2).enumerate() {
            let d = w[1].1 - w[0].1;
            let l = d.norm_squared();
            let s = if l > 0.0 { ((q - w[0].1).dot(&d) / l).clamp(0.0, 1.0) } else { 0.0 };
            let e = (w[0].1 + d * s - q).norm();
            if e < best.0 {
                best = (e, w[0].0 + (w[1].0 - w[0].0) * s, i);
            }
        }
        if self.c.degree() == 1 {
            return (best.0, best.1);
        }
        let (lo, hi) = (self.at[0].0, self.at[self.at.len() - 1].0);
        let mut t = best.1;
        for _ in 0..8 {
            let (p, d) = self.c.point_tangent_at(t.clamp(lo, hi));
            let k = d.norm_squared();
            if k > 0.0 {
                t = (t - (p - q).dot(&d) / k).clamp(lo, hi);
            }
        }
        ((self.c.point_at(t) - q).norm(), t)
    }
}

fn loops(uv: &[[f64; 2]], at: &[(usize, usize)], rim: &[usize], tracks: &[Track]) -> Value {
    let mut out: Vec<Vec<(f64, usize)>> = vec![vec![]; tracks.len()];
    for i in rim {
        let q = Point2::new(uv[*i][0], uv[*i][1]);
        let (k, (_, t)) = tracks.iter().map(|x| x.nearest(&q)).enumerate().min_by(|a, b| a.1.0.total_cmp(&b.1.0)).unwrap();
        out[k].push((t, *i));
    }
    let lists: Vec<Value> = out
        .into_iter()
        .zip(tracks)
        .map(|(mut l, x)| {
            let (lo, hi) = (x.at[0].0, x.at[x.at.len() - 1].0);
            let e = (hi - lo) * 1e-9;
            let start = x.at[0].1;
            // the closing point is both ends
            for p in l.iter_mut() {
                if (Point2::new(uv[p.1][0], uv[p.1][1]) - start).norm() < 1e-9 && (p.0 - lo < e || hi - p.0 < e) {
                    p.0 = lo;
                }
            }
            l.sort_by(|a, b| a.0.total_cmp(&b.0));
            l.dedup_by_key(|p| at[p.1]);
            if let Some(p) = l.first().copied().filter(|p| p.0 == lo) {
                l.push((hi, p.1));
            }
            json!(l.iter().map(|(t, i)| json!([enc_bits(*t, 44), i + 1])).collect::<Vec<_>>())
        })
        .collect();
    json!(lists)
}

fn trimmed(v: &Value, k: &Case, rep: &mut Report) -> Result<Value, String> {
    let t = gtry(|| make(v, k, rep.line))?;
    let h = &v["how"];
    let o = if st(&h["way"]) == "plain" { None } else { Some(options(h, false)) };
    let m = gtry(|| {
        if bo(&h["con"]) {
            let list = |x: &Value| Some(vec(x)).filter(|x| !x.is_empty());
            t.constrained_tessellate(TrimmedSurfaceConstraints::new(list(&h["ce"]), arr(&h["ch"]).iter().map(list).collect()), o)
        } else {
            t.tessellate(o)
        }
    })?;
    check_vertices(&k.now, &m)?;
    rep.count("triangles", m.faces().len() as u64);
    let mut r = record(&m);
    let uv: Vec<[f64; 2]> = m.uvs().iter().map(|x| [x.x, x.y]).collect();
    r["loops"] = rim_loops(&uv, m.faces(), v, k);
    Ok(r)
}
fn rim_loops(uv: &[[f64; 2]], faces: &[[usize; 3]], v: &Value, k: &Case) -> Value {
    let (us, iu) = ranks(&uv.iter().map(|x| x[0]).collect::<Vec<_>>());
    let (vs, iv) = ranks(&uv.iter().map(|x| x[1]).collect::<Vec<_>>());
    let at: Vec<(usize, usize)> = iu.into_iter().zip(iv).collect();
    let none = arr(&v["now"]["ext"]).is_empty();
    let side = |a: usize, b: usize, n: usize| a == b && (a == 1 || a == n);
    let edge = rim(&at, faces, |a, b| none && (side(a.0, b.0, us.len()) || side(a.1, b.1, vs.len())));
    let tracks: Vec<Track> = k.loops.iter().zip(arr(&v["breaks"])).map(|(c, b)| Track::new(c, &vec(b))).collect();
    if tracks.is_empty() { json!([]) } else { loops(uv, &at, &edge, &tracks) }
}

fn region(v: &Value, k: &Case, rep: &mut Report) -> Result<Value, String> {
    let ext = k.ext.as_ref().unwrap();
    let cuts = vec(&v["cuts"]);
    let r = gtry(|| {
        let c = if rep.line % 2 == 0 { spans(ext, &cuts, rep.line / 2).unwrap_or_else(|_| ext.clone().into()) } else { ext.clone().into() };
        Ok(Region::new(c, k.holes.iter().map(|h| h.clone().into()).collect()))
    })?;
    let tol = if st(&v["how"]["way"]) == "plain" { None } else { Some(rat(&v["how"]["tol"])) };
    let m = gtry(|| r.tessellate(tol))?;
    rep.count("triangles", m.faces().len() as u64);
    let uv: Vec<[f64; 2]> = m.vertices().iter().map(|x| [x.x, x.y]).collect();
    if let Some(f) = m.faces().iter().find(|f| f.iter().any(|i| *i >= uv.len())) {
        return Err(format!("face {f:?} of a mesh of {} vertices", uv.len()));
    }
    let (us, iu) = ranks(&uv.iter().map(|x| x[0]).collect::<Vec<_>>());
    let (vs, iv) = ranks(&uv.iter().map(|x| x[1]).collect::<Vec<_>>());
    Ok(json!({
        "uv": iu.iter().zip(&iv).map(|(a, b)| json!([a, b])).collect::<Vec<_>>(), "us": us, "vs": vs, "see": [],
        "f": m.faces().iter().map(|f| json!([f[0] + 1, f[1] + 1, f[2] + 1])).collect::<Vec<_>>(),
        "loops": rim_loops(&uv, m.faces(), v, k),
    }))
}

/// the object before and after its history is written and read again
fn written(v: &Value, k: &Case, rep: &mut Report) {
    let mut objects = vec![Trimmed::new(k.s.clone(), k.ext.clone(), k.holes.clone())];
    match gtry(|| make(v, k, rep.line)) {
        Ok(t) => objects.push(t),
        Err(_) => rep.foreign += 1,
    }
    rep.enter(true, "serde");
    rep.count("written:trimmed", objects.len() as u64);
    let mut r = objects.iter().try_for_each(round);
    if let Some(e) = &k.ext {
        let g = Region::new(e.clone().into(), k.holes.iter().map(|h| h.clone().into()).collect());
        rep.count("written:region", 1);
        r = r.and_then(|_| round(&g));
    }
    if let Err(e) = r {
        rep.violation("C27", format!("written:{}", st(&v["kind"])), e.chars().take(600).collect(), v.clone());
    }
}

/// a region as a whole is mapped (C08) and reversed (C17)
pub fn moved(prop: &str, v: &Value, rep: &mut Report) {
    use crate::compound::two;
    rep.enter(false, "create");
    let made = gtry(|| {
        let loops = arr(&v["start"]).iter().map(|l| Ok(CompoundCurve::new(arr(l).iter().map(|s| two::mk(&s["c"])).collect::<anyhow::Result<Vec<_>>>()?)));
        let mut loops: Vec<_> = loops.collect::<anyhow::Result<Vec<_>>>()?;
        let ext = loops.remove(0);
        Ok(Region::new(ext, loops))
    });
    let see = |r: &Region<f64>, e: &Value, rep: &mut Report| {
        let e = arr(e);
        if r.interiors().len() + 1 != e.len() {
            return Err(format!("{} holes instead of {}", r.interiors().len(), e.len() - 1));
        }
        for (i, (c, e)) in std::iter::once(r.exterior()).chain(r.interiors()).zip(e).enumerate() {
            let e = arr(e);
            two::chain(c.spans(), Some(c), e, &two::natural(e.len()), rep).map_err(|m| format!("loop {i}: {m}"))?;
        }
        Ok(())
    };
    let mut r = match made {
        Ok(r) if see(&r, &v["start"], rep).is_ok() => r,
        _ => {
            rep.foreign += 1;
            return;
        }
    };
    rep.count("regions", 1);
    rep.count("holes", r.interiors().len() as u64);
    for m in arr(&v["moves"]) {
        let op = st(&m["op"]);
        let mine = (prop == "C08") == (op == "transform");
        rep.enter(mine, op);
        let next = gtry(|| {
            let mut n = r.clone();
            if op == "invert" {
                n.invert();
            } else {
                let (a, t): (Vec<Vec<f64>>, _) = (arr(&m["o"]["M"]).iter().map(vec).collect(), vec(&m["o"]["t"]));
                n.transform(&nalgebra::Matrix3::new(a[0][0], a[0][1], t[0], a[1][0], a[1][1], t[1], 0.0, 0.0, 1.0));
            }
            Ok(n)
        });
        match next.and_then(|n| see(&n, &m["e"], rep).map(|_| n)) {
            Ok(n) => r = n,
            Err(e) if mine => return rep.violation(prop, format!("region:{op}"), e, json!({"start": v["start"], "moves": arr(&v["moves"]).iter().map(|m| m["o"].clone()).collect::<Vec<_>>()})),
            Err(_) => {
                rep.foreign += 1;
                return;
            }
        }
        if mine {
            rep.count(&format!("region:{op}"), 1);
        }
    }
}

/// a trimmed surface is mapped in space: the surface moves, its loops do not
fn mapped(v: &Value, k: &Case, rep: &mut Report) {
    let mut now = Trimmed::new(k.s.clone(), k.ext.clone(), k.holes.clone());
    let points = |s: &Sf| s.control_points().iter().flatten().flat_map(|p| p.coords.as_slice().to_vec()).collect::<Vec<f64>>();
    let knots = |s: &Sf| [s.u_knots().to_vec(), s.v_knots().to_vec()].concat();
    let same = |a: &C2, b: &C2| a.degree() == b.degree() && a.knots().to_vec() == b.knots().to_vec() && a.control_points() == b.control_points();
    for o in arr(&v["steps"]) {
        if st(&o["op"]) == "invert" {
            rep.enter(false, "invert");
            match gtry(|| { let mut n = now.clone(); n.invert(); Ok(n) }) {
                Ok(n) => now = n,
                Err(_) => { rep.foreign += 1; return; }
            }
            continue;
        }
        rep.enter(true, "transform");
        let m = matrix(o);
        let want: Vec<f64> = now.surface().control_points().iter().flatten().flat_map(|p| (m * p.coords).as_slice().to_vec()).collect();
        let r = gtry(|| { let mut n = now.clone(); n.transform(&m); Ok(n) }).and_then(|n| {
            let (a, b) = (now.exterior().into_iter().chain(now.interiors()), n.exterior().into_iter().chain(n.interiors()));
            if now.exterior().is_some() != n.exterior().is_some() || now.interiors().len() != n.interiors().len() || !a.zip(b).all(|(a, b)| same(a, b)) {
                return Err("the map of a trimmed surface changes its loops".into());
            }
            if (now.surface().u_degree(), now.surface().v_degree()) != (n.surface().u_degree(), n.surface().v_degree()) || knots(now.surface()) != knots(n.surface()) || !vclose(&points(n.surface()), &want, 1e-9) {
                return Err("the map of a trimmed surface is not that of its surface".to_string());
            }
            Ok(n)
        });
        match r {
            Ok(n) => now = n,
            Err(e) => return rep.violation("C08", "trimmed:transform".into(), e, v.clone()),
        }
        rep.count("trimmed:transform", 1);
    }
    // after its whole history the surface is that of the specification
    let e: Vec<f64> = points(&k.now);
    rep.enter(false, "create");
    if !arr(&v["steps"]).iter().any(|o| st(&o["op"]) == "invert") && !vclose(&points(now.surface()), &e, 1e-7) {
        rep.violation("C08", "trimmed:transform".into(), "the history of maps is not their product".into(), v.clone());
    }
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    rep.enter(false, "create");
    let Some(k) = read(v) else {
        rep.foreign += 1;
        return;
    };
    let kind = st(&v["kind"]);
    if prop == "C08" {
        return mapped(v, &k, rep);
    }
    if prop == "C27" {
        return written(v, &k, rep);
    }
    rep.enter(true, st(&v["how"]["way"]));
    rep.count(&format!("base:{kind}"), 1);
    rep.count(&format!("from:{}", st(&v["from"])), 1);
    rep.count("holes", k.holes.len() as u64);
    for o in arr(&v["steps"]) {
        rep.count(&format!("step:{}", st(&o["op"])), 1);
    }
    if bo(&v["how"]["con"]) {
        rep.count("constrained", 1);
    }
    if bo(&v["cut"]) {
        rep.count("implicitly closed", 1);
    }
    if rep.line < 5 {
        rep.samples.push(v.clone());
    }
    match if kind == "region" { region(v, &k, rep) } else { trimmed(v, &k, rep) } {
        Err(e) => rep.violation(prop, kind.into(), e, v.clone()),
        Ok(mut r) => {
            r["s"] = v.clone();
            r["line"] = json!(rep.line);
            rep.trace.push(r);
        }
    }
}
