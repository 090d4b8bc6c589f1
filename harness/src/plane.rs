//! Plane.tla: crossings (C13), containment (C14) and booleans (C15, C16) of plane curves.
use crate::curve::{build, gtry, structure, Cv};
use crate::num::*;
use crate::report::Report;
use curvo::prelude::*;
use nalgebra::Const;
use serde_json::{json, Value};

pub type C2 = NurbsCurve2D<f64>;
pub type CC = CompoundCurve<f64, Const<3>>;

fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}
pub fn plane(v: &Value) -> Option<C2> {
    let c = gtry(|| build(v)).ok()?;
    structure(&c).ok()?;
    match c {
        Cv::C2(c) => Some(c),
        _ => None,
    }
}

/// one reported intersection: parameters and points on both, and the points evaluated there
struct Found {
    u: [f64; 2],
    p: [Vec<f64>; 2],
    at: [Vec<f64>; 2],
    dom: [(f64, f64); 2],
}
impl Found {
    fn swap(mut self) -> Self {
        self.u.swap(0, 1);
        self.p.swap(0, 1);
        self.at.swap(0, 1);
        self.dom.swap(0, 1);
        self
    }
}
/// how far apart the points of one intersection may be, at any size of the scene
const AT: f64 = 1.1e-5;

fn curves(a: &C2, b: &C2) -> anyhow::Result<Vec<Found>> {
    Ok(a.find_intersections(b, None)?
        .into_iter()
        .map(|it| {
            let (u, v) = (it.a_parameter(), it.b_parameter());
            Found {
                u: [u, v],
                p: [it.a().0.coords.as_slice().to_vec(), it.b().0.coords.as_slice().to_vec()],
                at: [a.point_at(u).coords.as_slice().to_vec(), b.point_at(v).coords.as_slice().to_vec()],
                dom: [a.knots_domain(), b.knots_domain()],
            }
        })
        .collect())
}
fn compound(it: &CompoundCurveIntersection<f64, Const<3>>) -> Found {
    let (a, b) = (it.a(), it.b());
    let (ca, cb) = (it.a_curve(), it.b_curve());
    Found {
        u: [a.2, b.2],
        p: [a.1.coords.as_slice().to_vec(), b.1.coords.as_slice().to_vec()],
        at: [ca.point_at(a.2).coords.as_slice().to_vec(), cb.point_at(b.2).coords.as_slice().to_vec()],
        dom: [ca.knots_domain(), cb.knots_domain()],
    }
}

fn near(c: &C2, closed: bool, u: f64, v: f64) -> bool {
    let (lo, hi) = c.knots_domain();
    let w = hi - lo;
    let d = (u - v).abs();
    d < w / 200.0 || closed && w - d < w / 200.0
}

/// every report is a real crossing, every crossing is reported once
fn judge(found: &[Found], want: &[(f64, f64, Vec<f64>)], size: f64, params: Option<(&C2, bool, &C2, bool)>) -> Result<(), (String, String)> {
    for f in found {
        for k in 0..2 {
            let (lo, hi) = f.dom[k];
            if !(f.u[k] >= lo && f.u[k] <= hi) {
                return Err(("domain".into(), format!("parameter {} of an intersection is outside {:?}", f.u[k], f.dom[k])));
            }
            if !vclose(&f.p[k], &f.at[k], 1e-9) {
                return Err(("point".into(), format!("reported point {:?} is not the point {:?} at its parameter {}", f.p[k], f.at[k], f.u[k])));
            }
        }
        if !(dist(&f.at[0], &f.at[1]) <= AT) {
            return Err(("apart".into(), format!("points of an intersection are apart: {:?} and {:?}", f.at[0], f.at[1])));
        }
    }
    let mut hit = vec![0; want.len()];
    for f in found {
        let mut m = vec![];
        for (i, w) in want.iter().enumerate() {
            let same = dist(&f.at[0], &w.2) <= 1e-3 * size.max(1.0)
                && params.is_none_or(|(a, ca, b, cb)| near(a, ca, f.u[0], w.0) && near(b, cb, f.u[1], w.1));
            if same {
                m.push(i);
            }
        }
        // crossings at the same place (of a curve crossing itself there) count together
        match m.iter().min_by_key(|i| hit[**i]) {
            Some(i) => hit[*i] += 1,
            None => return Err(("spurious".into(), format!("reported intersection at {:?} (parameters {:?}) is not a crossing", f.at[0], f.u))),
        }
    }
    for (w, n) in want.iter().zip(&hit) {
        if *n != 1 {
            let k = if *n == 0 { "missed" } else { "repeated" };
            return Err((k.into(), format!("the crossing at {:?} (parameters {}, {}) is reported {n} times; {} reported of {}", w.2, w.0, w.1, found.len(), want.len())));
        }
    }
    Ok(())
}

/// the curve as connected spans, cut at some of the given parameters, some reversed, in any order
pub fn spans(c: &C2, cuts: &[f64], salt: usize) -> anyhow::Result<CC> {
    let mut rest = c.clone();
    let mut out = vec![];
    for (i, u) in cuts.iter().enumerate() {
        if (i + salt) % 3 != 0 {
            continue;
        }
        let (l, r) = rest.try_split(*u)?;
        out.push(l);
        rest = r;
    }
    out.push(rest);
    let n = out.len();
    // a chain that visits a joint again is not determined by its pieces
    let joints: Vec<_> = out.iter().map(|c| c.point_at(c.knots_domain().1)).collect();
    let start = c.point_at(c.knots_domain().0);
    for (i, p) in joints.iter().enumerate() {
        anyhow::ensure!(joints[..i].iter().all(|q| (p - q).norm() > 0.02), "joint visited again");
        anyhow::ensure!(i + 1 == n || (p - start).norm() > 0.02, "start visited again");
    }
    for i in 0..n {
        if (salt >> (i % 5)) & 1 == 1 {
            out[i] = out[i].inverse();
        }
    }
    out.rotate_left(salt % n);
    Ok(CC::new(out))
}

/// scenes of other sizes and curves of other paces
pub fn count_zoom(z: &Value, rep: &mut Report) {
    let one = |k: &str| z.get(k).is_none_or(|f| rat(f) == 1.0);
    if !one("g") {
        rep.count("zoom:size", 1);
    }
    if !(one("fa") && one("fb") && one("fc")) {
        rep.count("zoom:pace", 1);
    }
}

pub fn cross(prop: &str, v: &Value, rep: &mut Report) {
    rep.enter(false, "create");
    let (Some(a), Some(b)) = (plane(&v["a"]), plane(&v["b"])) else {
        rep.foreign += 1;
        return;
    };
    let kind = st(&v["kind"]);
    let closed: Vec<bool> = arr(&v["closed"]).iter().map(bo).collect();
    let want: Vec<(f64, f64, Vec<f64>)> = arr(&v["x"]).iter().map(|x| (rat(&x["u"]), rat(&x["v"]), vec(&x["x"]))).collect();
    let cuts = vec(&v["cuts"]);
    let size = rat(&v["zoom"]["g"]);
    count_zoom(&v["zoom"], rep);
    rep.count("pairs", 1);
    rep.count("crossings", want.len() as u64);
    rep.count(&format!("pair:{kind}"), 1);
    if rep.line < 5 {
        rep.samples.push(json!({"a": v["a"], "b": v["b"], "crossings": v["x"]}));
    }
    let salt = rep.line;
    // splitting and joining have properties of their own
    let ca = gtry(|| spans(&a, &cuts, salt)).ok();
    let cb = gtry(|| spans(&b, &[], 1)).ok();
    rep.enter(true, "intersect");
    let fail = |rep: &mut Report, how: &str, e: (String, String)| {
        rep.violation(prop, format!("{how}:{}", e.0), format!("{how}: {}", e.1),
            json!({"kind": kind, "a": v["a"], "b": v["b"], "crossings": v["x"]}));
    };
    let err = |e: String| ("error".to_string(), e);
    for (how, r) in [("a-b", gtry(|| curves(&a, &b))), ("b-a", gtry(|| Ok(curves(&b, &a)?.into_iter().map(Found::swap).collect()))), ("again", gtry(|| curves(&a, &b)))] {
        let r = r.map_err(err).and_then(|f| judge(&f, &want, size, Some((&a, closed[0], &b, closed[1]))));
        rep.count("asked", 1);
        if let Err(e) = r {
            return fail(rep, how, e);
        }
    }
    let (Some(ca), Some(cb)) = (ca, cb) else {
        return;
    };
    rep.count("compounds", 1);
    type Ask<'a> = Box<dyn Fn() -> anyhow::Result<Vec<Found>> + 'a>;
    let asks: Vec<(&str, Ask)> = vec![
        ("spans-b", Box::new(|| Ok(ca.find_intersections(&b, None)?.iter().map(compound).collect()))),
        ("spans-spans", Box::new(|| Ok(ca.find_intersections(&cb, None)?.iter().map(compound).collect()))),
        ("spans-a", Box::new(|| Ok(cb.find_intersections(&ca, None)?.iter().map(compound).map(Found::swap).collect()))),
    ];
    for (how, ask) in asks {
        let r = gtry(ask).map_err(err).and_then(|f| judge(&f, &want, size, None));
        if let Err(e) = r {
            return fail(rep, how, e);
        }
    }
}

pub fn inside(prop: &str, v: &Value, rep: &mut Report) {
    rep.enter(false, "create");
    let Some(c) = plane(&v["c"]) else {
        rep.foreign += 1;
        return;
    };
    let kind = st(&v["kind"]);
    let closed = bo(&v["closed"]);
    count_zoom(&v["zoom"], rep);
    rep.count(&format!("loop:{kind}"), 1);
    if rep.line < 5 {
        rep.samples.push(json!({"curve": v["c"], "kind": kind, "queries": v["qs"]}));
    }
    let salt = rep.line;
    let cuts = vec(&v["cuts"]);
    let cc = if closed { gtry(|| spans(&c, &cuts, salt)).ok() } else { None };
    for q in arr(&v["qs"]) {
        let x = vec(&q["x"]);
        let p = nalgebra::Point2::new(x[0], x[1]);
        let k = st(&q["kind"]);
        rep.enter(true, "contains");
        let fail = |rep: &mut Report, how: &str, e: String| {
            rep.violation(prop, format!("{how}:{k}"), e, json!({"kind": kind, "curve": v["c"], "operations": v["ops"], "query": q}));
        };
        if !closed {
            rep.count("refusals", 1);
            match gtry(|| c.contains(&p, None)) {
                Ok(r) => return fail(rep, "open", format!("containment of {x:?} in an open curve is answered {r}")),
                Err(e) if e.starts_with("panicked") => return fail(rep, "open", e),
                Err(_) => {}
            }
            continue;
        }
        let want = match us_i(&q["in"]) {
            0 => false,
            1 => true,
            _ => continue,
        };
        rep.count(&format!("query:{k}"), 1);
        rep.count(if want { "inside" } else { "outside" }, 1);
        match gtry(|| c.contains(&p, None)) {
            Ok(r) if r == want => {}
            Ok(r) => return fail(rep, "curve", format!("{x:?} is {} the curve, contains answers {r}", if want { "in" } else { "outside" })),
            Err(e) => return fail(rep, "curve", format!("contains of {x:?} {e}")),
        }
        if let Some(cc) = &cc {
            rep.count("compounds", 1);
            match gtry(|| cc.contains(&p, None)) {
                Ok(r) if r == want => {}
                Ok(r) => return fail(rep, "compound", format!("{x:?} is {} the curve, contains of its spans answers {r}", if want { "in" } else { "outside" })),
                Err(e) => return fail(rep, "compound", format!("contains of {x:?} {e}")),
            }
        }
    }
}
