//! Region.tla: set operations on curves (C15) and regions (C16).
use crate::curve::gtry;
use crate::num::*;
use crate::plane::{count_zoom, plane, spans, C2, CC};
use crate::report::Report;
use curvo::prelude::operation::BooleanOperation as Op;
use curvo::prelude::*;
use nalgebra::Point2;
use serde_json::{json, Value};

type Loop = Vec<Point2<f64>>;
struct Area(Vec<Loop>);

/// points of the curve: the knots of its domain, and between them if it is not a polyline
fn sample(c: &C2, out: &mut Loop) {
    let (lo, hi) = c.knots_domain();
    let mut k: Vec<f64> = c.knots().iter().copied().filter(|u| *u > lo && *u < hi).collect();
    k.insert(0, lo);
    k.push(hi);
    let n = if c.degree() == 1 { 1 } else { 48 };
    for w in k.windows(2) {
        if w[1] - w[0] > 1e-12 {
            for i in 0..n {
                out.push(c.point_at(w[0] + (w[1] - w[0]) * i as f64 / n as f64));
            }
        }
    }
    out.push(c.point_at(hi));
}
fn loop_of(c: &CC) -> Loop {
    let mut out = vec![];
    for s in c.spans() {
        sample(s, &mut out);
    }
    out
}
fn parity(p: &Loop, q: &Point2<f64>) -> bool {
    let mut c = false;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        if (a.y > q.y) != (b.y > q.y) && a.x + (q.y - a.y) / (b.y - a.y) * (b.x - a.x) > q.x {
            c = !c;
        }
    }
    c
}
fn dist(p: &Loop, q: &Point2<f64>) -> f64 {
    let mut m = f64::MAX;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        let d = b - a;
        let l = d.norm_squared();
        let t = if l > 0.0 { ((q - a).dot(&d) / l).clamp(0.0, 1.0) } else { 0.0 };
        m = m.min((a + d * t - q).norm());
    }
    m
}
fn shoelace(p: &Loop) -> f64 {
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).map(|(a, b)| a.x * b.y - a.y * b.x).sum::<f64>().abs() / 2.0
}
impl Area {
    fn of(r: &Region<f64>) -> Self {
        Area(std::iter::once(r.exterior()).chain(r.interiors()).map(loop_of).collect())
    }
    fn covers(&self, q: &Point2<f64>) -> bool {
        parity(&self.0[0], q) && !self.0[1..].iter().any(|h| parity(h, q))
    }
    fn area(&self) -> f64 {
        shoelace(&self.0[0]) - self.0[1..].iter().map(shoelace).sum::<f64>()
    }
}

struct Operand {
    ext: C2,
    holes: Vec<C2>,
    cuts: Vec<f64>,
}
impl Operand {
    fn read(v: &Value) -> Option<Self> {
        let holes: Vec<C2> = arr(&v["holes"]).iter().filter_map(plane).collect();
        if holes.len() != arr(&v["holes"]).len() {
            return None;
        }
        Some(Operand { ext: plane(&v["ext"])?, holes, cuts: vec(&v["cuts"]) })
    }
    fn compound(&self, salt: usize) -> CC {
        if salt % 2 == 0 {
            if let Ok(c) = gtry(|| spans(&self.ext, &self.cuts, salt / 2)) {
                return c;
            }
        }
        self.ext.clone().into()
    }
    fn region(&self, salt: usize) -> Region<f64> {
        Region::new(self.compound(salt), self.holes.iter().map(|h| h.clone().into()).collect())
    }
}
fn op(s: &str) -> Op {
    match s {
        "union" => Op::Union,
        "intersection" => Op::Intersection,
        "difference" => Op::Difference,
        _ => panic!("spec value: unknown operation {s}"),
    }
}

/// the regions cover exactly the expected probes, once, with closed loops
fn judge(regs: &[Region<f64>], probes: &[Point2<f64>], want: &[i64], clear: &[bool], size: f64, rep: &mut Report) -> Result<(), (String, String)> {
    for r in regs {
        for l in std::iter::once(r.exterior()).chain(r.interiors()) {
            let p = loop_of(l);
            let gap = (p[0] - p[p.len() - 1]).norm();
            if !(gap < 1e-4 * size.max(1.0)) {
                return Err(("open".into(), format!("a loop of the result does not close: from {} to {}", p[0], p[p.len() - 1])));
            }
            for w in l.spans().windows(2) {
                let (a, b) = (w[0].point_at(w[0].knots_domain().1), w[1].point_at(w[1].knots_domain().0));
                if !((a - b).norm() < 1e-4 * size.max(1.0)) {
                    return Err(("broken".into(), format!("spans of a loop of the result are apart: {a} and {b}")));
                }
            }
        }
    }
    let areas: Vec<Area> = regs.iter().map(Area::of).collect();
    for ((q, w), c) in probes.iter().zip(want).zip(clear) {
        if !c || *w < 0 {
            continue;
        }
        rep.count("probes", 1);
        let n = areas.iter().filter(|a| a.covers(q)).count();
        if n as i64 != *w {
            let k = if n as i64 > *w { if *w == 1 { "overlap" } else { "extra" } } else { "missing" };
            return Err((k.into(), format!("{q} is covered {n} times, but should be {w} times ({} regions)", regs.len())));
        }
    }
    Ok(())
}
fn total(regs: &[Region<f64>]) -> f64 {
    regs.iter().map(|r| Area::of(r).area()).sum()
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    rep.enter(false, "create");
    let ops: Vec<Operand> = arr(&v["regs"]).iter().filter_map(Operand::read).collect();
    if ops.len() != arr(&v["regs"]).len() {
        rep.foreign += 1;
        return;
    }
    let probes: Vec<Point2<f64>> = arr(&v["probes"]).iter().map(vec).map(|x| Point2::new(x[0], x[1])).collect();
    let bounds: Vec<Loop> = ops.iter().flat_map(|o| std::iter::once(&o.ext).chain(&o.holes)).map(|c| { let mut l = vec![]; sample(c, &mut l); l }).collect();
    let size = rat(&v["zoom"]["g"]);
    let clear: Vec<bool> = probes.iter().map(|q| bounds.iter().all(|l| dist(l, q) > 0.02 * size)).collect();
    if rep.line < 5 {
        rep.samples.push(json!({"regions": v["regs"], "steps": v["steps"]}));
    }
    let salt = rep.line;
    let hits = us(&v["hits"]);
    count_zoom(&v["zoom"], rep);
    rep.count(if hits == 0 { "without crossings" } else { "with crossings" }, 1);
    rep.count("holes", ops.iter().map(|o| o.holes.len() as u64).sum());
    let vals = |x: &Value| -> Vec<i64> { arr(x).iter().map(us_i).collect() };
    let fail = |rep: &mut Report, how: &str, e: (String, String)| {
        rep.violation(prop, format!("{how}:{}", e.0), format!("{how}: {}", e.1),
            json!({"regions": v["regs"], "operations": arr(&v["steps"]).iter().map(|s| s["op"].clone()).collect::<Vec<_>>()}));
    };
    let err = |e: String| ("error".to_string(), e);
    let plain = ops.len() == 2 && ops.iter().all(|o| o.holes.is_empty());
    rep.enter(true, "boolean");
    if plain {
        // curves and compound curves, all operations, both orders
        let (a, b) = (vals(&v["steps"][0]["was"]), vals(&v["steps"][0]["b"]));
        let (ca, cb) = (ops[0].compound(2 * salt), ops[1].compound(2 * salt + 2));
        let areas: Vec<f64> = bounds.iter().map(shoelace).collect();
        let mut got = vec![];
        for (name, f) in [("union", (|a, b| a.max(b)) as fn(i64, i64) -> i64), ("intersection", |a, b| a.min(b)), ("difference", |a, b| a * (1 - b)), ("other difference", |a, b| b * (1 - a))] {
            let want: Vec<i64> = a.iter().zip(&b).map(|(a, b)| if *a < 0 || *b < 0 { -1 } else { f(*a, *b) }).collect();
            let o = op(name.trim_start_matches("other "));
            let swapped = name.starts_with("other");
            let (x, y, cx, cy) = if swapped { (&ops[1].ext, &ops[0].ext, &cb, &ca) } else { (&ops[0].ext, &ops[1].ext, &ca, &cb) };
            let mut asks: Vec<(String, Result<Vec<Region<f64>>, String>)> = vec![(format!("curve {name}"), gtry(|| Ok(x.boolean(o, y, None)?.into_regions())))];
            if !swapped && name != "difference" {
                asks.push((format!("swapped {name}"), gtry(|| Ok(y.boolean(o, x, None)?.into_regions()))));
            }
            match salt % 3 {
                0 => asks.push((format!("curve compound {name}"), gtry(|| Ok(x.boolean(o, cy, None)?.into_regions())))),
                1 => asks.push((format!("compound curve {name}"), gtry(|| Ok(cx.boolean(o, y, None)?.into_regions())))),
                _ => asks.push((format!("compounds {name}"), gtry(|| Ok(cx.boolean(o, cy, None)?.into_regions())))),
            }
            for (how, r) in asks {
                rep.count("operations", 1);
                let r = r.map_err(err).and_then(|r| judge(&r, &probes, &want, &clear, size, rep).map(|_| r));
                match r {
                    Err(e) => return fail(rep, &how, e),
                    Ok(r) => {
                        rep.count("regions", r.len() as u64);
                        if how.starts_with("curve ") && !how.starts_with("curve compound") {
                            got.push(total(&r));
                        }
                    }
                }
            }
        }
        let s = 1e-2 * (size * size + areas[0] + areas[1]);
        for (what, x, y) in [("union and intersection", got[0] + got[1], areas[0] + areas[1]), ("difference and intersection", got[2] + got[1], areas[0]),
            ("other difference and intersection", got[3] + got[1], areas[1])] {
            if !((x - y).abs() <= s) {
                return fail(rep, "area", (what.into(), format!("areas of {what} sum to {x} instead of {y}")));
            }
        }
        return;
    }
    let mut now = vec![ops[0].region(salt)];
    for (i, s) in arr(&v["steps"]).iter().enumerate() {
        let name = st(&s["op"]);
        let o = op(name);
        let b = &ops[i + 1];
        if now.len() != 1 && name == "union" {
            return; // joining with several regions at once is not an operation of the library
        }
        let how = if b.holes.is_empty() { (salt + i) % 3 } else { 2 };
        let (cb, rb) = (b.compound(salt + i), b.region(salt + i));
        let label = format!("{} {name}", ["region curve", "region compound", "regions"][how]);
        let mut next = vec![];
        for r in &now {
            rep.count("operations", 1);
            let got = gtry(|| Ok(match how {
                0 => r.boolean(o, &b.ext, None)?,
                1 => r.boolean(o, &cb, None)?,
                _ => r.boolean(o, &rb, None)?,
            }.into_regions()));
            match got {
                Ok(g) => next.extend(g),
                Err(e) => return fail(rep, &label, err(e)),
            }
        }
        rep.count("regions", next.len() as u64);
        rep.count(&format!("step:{}", i + 1), 1);
        if let Err(e) = judge(&next, &probes, &vals(&s["e"]), &clear, size, rep) {
            return fail(rep, &label, e);
        }
        if name != "difference" && i == 0 {
            // the other way round
            let (ra, rb) = (ops[0].region(salt), b.region(salt + 1));
            let r = gtry(|| Ok(rb.boolean(o, &ra, None)?.into_regions())).map_err(err).and_then(|r| judge(&r, &probes, &vals(&s["e"]), &clear, size, rep));
            if let Err(e) = r {
                return fail(rep, &format!("swapped {label}"), e);
            }
        }
        now = next;
    }
}
