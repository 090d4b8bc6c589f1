//! Compound.tla: chains of curves (C17), and their transforms (C08) and serialisation (C27).
use crate::curve::{gtry, guard};
use crate::num::*;
use crate::report::Report;
use curvo::prelude::*;
use nalgebra::{Const, OMatrix, OPoint, Point3, Point4};
use serde_json::{json, Value};

const TOL: f64 = 1e-7;
/// which expected span, and whether backwards
type Order = Vec<(usize, bool)>;
type Res<T> = Result<T, (&'static str, String)>;

macro_rules! chains {
    ($m:ident, $n:literal, $d:literal, $h:ident) => {
        pub mod $m {
            use super::*;
            type Cu = NurbsCurve<f64, Const<$n>>;
            type Ch = CompoundCurve<f64, Const<$n>>;
            fn pt(x: &[f64]) -> OPoint<f64, Const<$d>> {
                OPoint::from_slice(x)
            }
            fn sl(p: &OPoint<f64, Const<$d>>) -> Vec<f64> {
                p.coords.as_slice().to_vec()
            }
            pub fn mk(c: &Value) -> anyhow::Result<Cu> {
                Cu::try_new(us(&c["p"]), arr(&c["P"]).iter().map(|q| $h::from_slice(&vec(q))).collect(), vec(&c["U"]))
            }
            /// the spans are the expected ones in that order, one after the other; c: evaluation of the whole
            pub fn chain(spans: &[Cu], whole: Option<&Ch>, e: &[Value], order: &Order, rep: &mut Report) -> Result<(), String> {
                if spans.len() != order.len() {
                    return Err(format!("{} spans instead of {}", spans.len(), order.len()));
                }
                let mut last: Option<(f64, Vec<f64>)> = None;
                for (k, (s, (i, rev))) in spans.iter().zip(order).enumerate() {
                    let (a, b) = s.knots_domain();
                    let g = arr(&e[*i]["g"]);
                    let (lo, hi) = (rat(&g[0][0]), rat(&g[g.len() - 1][0]));
                    if !(a < b) {
                        return Err(format!("domain ({a}, {b}) of span {k}"));
                    }
                    if s.degree() != us(&e[*i]["c"]["p"]) {
                        return Err(format!("span {k} has degree {}", s.degree()));
                    }
                    if let Some((end, x)) = &last {
                        if !close(*end, a, a, 1e-9) && whole.is_some() {
                            return Err(format!("span {k} starts at parameter {a}, but the one before ends at {end}"));
                        }
                        let y = sl(&s.point_at(a));
                        if !vclose(x, &y, 1e-6) {
                            return Err(format!("span {k} starts at {y:?}, but the one before ends at {x:?}"));
                        }
                    }
                    for q in g {
                        let f = (rat(&q[0]) - lo) / (hi - lo);
                        let t = (a + (b - a) * if *rev { 1.0 - f } else { f }).clamp(a, b);
                        let want = vec(&q[1]);
                        let x = sl(&s.point_at(t));
                        rep.count("points", 1);
                        if !vclose(&x, &want, TOL) {
                            return Err(format!("span {k} at {t} is {x:?} instead of {want:?}"));
                        }
                        if let Some(w) = whole {
                            match w.point_at(t) {
                                Some(y) if vclose(&sl(&y), &want, TOL) => {}
                                y => return Err(format!("the curve at {t} is {y:?} instead of {want:?}")),
                            }
                        }
                    }
                    last = Some((b, sl(&s.point_at(b))));
                }
                Ok(())
            }
            pub fn natural(n: usize) -> Order {
                (0..n).map(|i| (i, false)).collect()
            }
            /// all arrangements the pieces allow
            fn arranged(c: &Ch, e: &[Value], closed: bool, rep: &mut Report) -> Result<Order, String> {
                let n = e.len();
                let mut first = Err(String::new());
                for r in 0..if closed { n } else { 1 } {
                    for rev in [false, true] {
                        let order: Order = (0..n).map(|k| if rev { ((2 * n - 1 - k - r) % n, true) } else { ((k + r) % n, false) }).collect();
                        match chain(c.spans(), Some(c), e, &order, rep) {
                            Ok(()) => return Ok(order),
                            Err(m) => if first.as_ref().is_err_and(|m| m.is_empty()) { first = Err(m) },
                        }
                    }
                }
                first.map_err(|m| format!("in no arrangement of the pieces, e.g. {m}"))
            }
            /// points of the curve: breaks and between
            fn fine(c: &Cu) -> Vec<OPoint<f64, Const<$d>>> {
                let (lo, hi) = c.knots_domain();
                let mut k: Vec<f64> = c.knots().iter().copied().filter(|u| *u > lo && *u < hi).collect();
                k.insert(0, lo);
                k.push(hi);
                k.dedup();
                let mut out: Vec<_> = k.windows(2).flat_map(|w| (0..100).map(|i| c.point_at(w[0] + (w[1] - w[0]) * i as f64 / 100.0))).collect();
                out.push(c.point_at(hi));
                out
            }
            fn gap(line: &[OPoint<f64, Const<$d>>], x: &OPoint<f64, Const<$d>>) -> f64 {
                line.windows(2).map(|w| {
                    let d = w[1] - w[0];
                    let l = d.norm_squared();
                    let k = if l > 0.0 { ((x - w[0]).dot(&d) / l).clamp(0.0, 1.0) } else { 0.0 };
                    (w[0] + d * k - x).norm()
                }).fold(f64::MAX, f64::min)
            }
            /// equal data up to the rounding of decimal text
            fn same(a: &Ch, b: &Ch) -> bool {
                a.spans().len() == b.spans().len() && a.spans().iter().zip(b.spans()).all(|(a, b)| {
                    a.degree() == b.degree() && vclose(&a.knots().to_vec(), &b.knots().to_vec(), 1e-14) && a.control_points().len() == b.control_points().len()
                        && a.control_points().iter().zip(b.control_points()).all(|(p, q)| vclose(p.coords.as_slice(), q.coords.as_slice(), 1e-14))
                })
            }
            fn clamped(c: &Ch) -> bool {
                c.spans().iter().all(|s| s.is_clamped())
            }
            fn whole(c: &Ch, e: &[Value], order: &Order, closed: bool, rep: &mut Report) -> Result<(), String> {
                let ends = |(i, rev): &(usize, bool)| {
                    let g = arr(&e[*i]["g"]);
                    let (a, b) = (vec(&g[0][1]), vec(&g[g.len() - 1][1]));
                    if *rev { (b, a) } else { (a, b) }
                };
                let (a, b) = (ends(&order[0]).0, ends(&order[order.len() - 1]).1);
                let (x, y) = (sl(&c.first_point()), sl(&c.end_point()));
                if !vclose(&x, &a, TOL) || !vclose(&y, &b, TOL) {
                    return Err(format!("end points {x:?}, {y:?} instead of {a:?}, {b:?}"));
                }
                if c.is_closed() != closed && (!closed || clamped(c)) {
                    return Err(format!("closed is reported {}, from {a:?} to {b:?}", c.is_closed()));
                }
                rep.count(if closed { "closed" } else { "open" }, 1);
                // the length is that of the pieces, exactly for polylines
                let mut want = 0.0;
                for v in e {
                    let s = mk(&v["c"]).map_err(|m| m.to_string())?;
                    want += if s.degree() == 1 {
                        let p: Vec<Vec<f64>> = arr(&v["g"]).iter().map(|q| vec(&q[1])).collect();
                        p.windows(2).map(|w| (pt(&w[0]) - pt(&w[1])).norm()).sum()
                    } else {
                        s.try_length().map_err(|m| m.to_string())?
                    };
                }
                let l = c.try_length().map_err(|m| m.to_string())?;
                if !close(l, want, want, 1e-6) {
                    return Err(format!("length {l}, but the pieces are {want} long"));
                }
                rep.count("lengths", 1);
                // tessellation: on the curve, from end to end, through the joints in their order
                let t = c.tessellate(Some(1e-2));
                let joints: Vec<Vec<f64>> = std::iter::once(a).chain(order.iter().map(|o| ends(o).1)).collect();
                let mut at = 0;
                for x in &t {
                    if at < joints.len() && vclose(&sl(x), &joints[at], 1e-6) {
                        at += 1;
                    }
                }
                if at < joints.len() || !vclose(&sl(&t[0]), &joints[0], 1e-6) || !vclose(&sl(&t[t.len() - 1]), &joints[joints.len() - 1], 1e-6) {
                    return Err(format!("the tessellation (from {} to {}) does not pass the joints {joints:?} in order", t[0], t[t.len() - 1]));
                }
                let plain = |s: &Cu| s.degree() > 1 || s.dehomogenized_control_points().windows(2).all(|w| (w[0] - w[1]).norm() > 1e-9);
                if c.spans().len() > 1 && c.spans().iter().all(plain) && t.windows(2).any(|w| (w[0] - w[1]).norm() < 1e-12) {
                    return Err("the tessellation repeats a point".into());
                }
                let fine = c.spans().iter().map(|s| fine(s)).collect::<Vec<_>>().concat();
                let size = fine.iter().fold(1f64, |m, x| m.max(x.coords.amax()));
                for x in &t {
                    let d = gap(&fine, x);
                    if !(d < 2e-3 * size) {
                        return Err(format!("the tessellation has a point {x} at a distance of {d} from the curve"));
                    }
                }
                rep.count("tessellations", 1);
                Ok(())
            }
            fn nearest(c: &Ch, e: &[Value], q: &[f64]) -> Result<(), String> {
                let q = pt(q);
                let y = c.find_closest_point(&q).map_err(|m| format!("closest point to {q}: {m}"))?;
                let d = (y - q).norm();
                let (mut best, mut on) = (f64::MAX, f64::MAX);
                for v in e {
                    let s = mk(&v["c"]).map_err(|m| m.to_string())?;
                    best = best.min((s.find_closest_point(&q).map_err(|m| m.to_string())? - q).norm());
                    for g in arr(&v["g"]) {
                        best = best.min((pt(&vec(&g[1])) - q).norm());
                    }
                    on = on.min(gap(&fine(&s), &y));
                }
                if !(d <= best + 1e-5 * (1.0 + best)) {
                    return Err(format!("closest point to {q} is {y} at {d}, but a piece is at {best}"));
                }
                if !(on < 2e-3 * (1.0 + y.coords.amax())) {
                    return Err(format!("closest point {y} is at a distance of {on} from the pieces"));
                }
                Ok(())
            }
            fn refused(s: &str) -> bool {
                serde_json::from_str::<Ch>(s).is_err()
            }

            pub fn replay(prop: &str, v: &Value, rep: &mut Report) -> Res<()> {
                let steps = arr(&v["steps"]);
                let e0 = arr(&steps[0]["e"]);
                let pieces = arr(&steps[0]["pieces"]);
                let closed = bo(&steps[0]["closed"]);
                rep.enter(prop == "C17", "build");
                let fwd: Vec<Cu> = gtry(|| pieces.iter().map(|p| mk(&p["c"])).collect()).map_err(|m| ("pieces", m))?;
                let own = prop == "C17";
                if own {
                    rep.count(if closed { "chain:closed" } else { "chain:open" }, 1);
                    let shuffled: Vec<Cu> = gtry(|| Ok(arr(&steps[0]["given"]).iter().map(|g| {
                        let c = fwd[us(&g["i"]) - 1].clone();
                        if bo(&g["rev"]) { c.inverse() } else { c }
                    }).collect())).map_err(|m| ("pieces", m))?;
                    let collect = rep.line % 4 == 0;
                    let c = guard(|| if collect { shuffled.iter().cloned().collect::<Ch>() } else { Ch::new(shuffled.clone()) }).map_err(|m| ("build", m))?;
                    let name = if collect { "collect" } else { "build" };
                    let order = guard(|| arranged(&c, e0, closed, rep)).and_then(|r| r).map_err(|m| (name, m))?;
                    guard(|| whole(&c, e0, &order, closed, rep)).and_then(|r| r).map_err(|m| (name, m))?;
                }
                let mut cur = guard(|| Ch::new(fwd.clone())).map_err(|m| ("build", m))?;
                let order = guard(|| arranged(&cur, e0, closed, rep)).and_then(|r| r).map_err(|m| ("build", format!("pieces in order: {m}")))?;
                if order != natural(e0.len()) {
                    rep.count("rotated", 1);
                    return Ok(());
                }
                let mut over = false;
                for s in &steps[1..] {
                    let op = st(&s["op"]);
                    let mine = own || (prop == "C08" && op == "transform") || (prop == "C27" && op == "serde");
                    let e = arr(&s["e"]);
                    rep.enter(mine, op);
                    if mine {
                        rep.count(&format!("chain:{op}"), 1);
                    }
                    let tag = match op { "reverse" => "reverse", "transform" => "transform", "trim" => "trim", "trimwrap" => "trimwrap", _ => "serde" };
                    let r: Result<(), String> = (|| match op {
                        "reverse" => {
                            let n = guard(|| cur.inverse())?;
                            guard(|| chain(n.spans(), Some(&n), e, &natural(e.len()), rep))??;
                            let mut k = cur.clone();
                            guard(|| k.invert())?;
                            if k != n {
                                return Err("reversal in place differs from the reversed copy".into());
                            }
                            cur = n;
                            Ok(())
                        }
                        "transform" => {
                            let (m, t): (Vec<Vec<f64>>, Vec<f64>) = (arr(&s["o"]["M"]).iter().map(vec).collect(), vec(&s["o"]["t"]));
                            let k = OMatrix::<f64, Const<$n>, Const<$n>>::from_fn(|i, j| if i < $d { if j < $d { m[i][j] } else { t[i] } } else if j < $d { 0.0 } else { 1.0 });
                            let mut n = cur.clone();
                            guard(|| n.transform(&k))?;
                            guard(|| chain(n.spans(), Some(&n), e, &natural(e.len()), rep))??;
                            let n2 = guard(|| cur.transformed(&k))?;
                            if n2 != n {
                                return Err("transformation in place differs from the transformed copy".into());
                            }
                            cur = n;
                            Ok(())
                        }
                        "serde" => {
                            let text = gtry(|| Ok(serde_json::to_string(&cur)?))?;
                            let n: Ch = gtry(|| Ok(serde_json::from_str(&text)?))?;
                            if !same(&n, &cur) {
                                return Err("the curve read back differs".into());
                            }
                            guard(|| chain(n.spans(), Some(&n), e, &natural(e.len()), rep))??;
                            let body = &text[1..text.len() - 1];
                            for (what, bad) in [("an empty object", "{}".to_string()), ("a duplicate field", format!("{{{body},{body}}}")), ("an unknown field", format!("{{{body},\"more\":1}}"))] {
                                if !refused(&bad) {
                                    return Err(format!("{what} is not refused"));
                                }
                            }
                            cur = n;
                            Ok(())
                        }
                        _ => {
                            let end = cur.spans().last().unwrap().knots_domain().1;
                            let (a, b) = (rat(&s["o"]["a"]).min(end), rat(&s["o"]["b"]).min(end));
                            let parts = gtry(|| cur.try_trim_range((a, b)))?;
                            if op == "trim" || bo(&s["o"]["go"]) {
                                guard(|| chain(&parts, None, e, &natural(e.len()), rep))??;
                            } else {
                                // the parts on both sides of the cut: they need not meet
                                if parts.len() != e.len() {
                                    return Err(format!("{} parts instead of {}", parts.len(), e.len()));
                                }
                                for i in 0..e.len() {
                                    guard(|| chain(&parts[i..=i], None, &e[i..=i], &natural(1), rep))??;
                                }
                            }
                            let (lo, hi) = (a.min(b), a.max(b));
                            for p in &parts {
                                let (x, y) = p.knots_domain();
                                let inside = x >= lo - 1e-9 && y <= hi + 1e-9;
                                let outside = y <= lo + 1e-9 || x >= hi - 1e-9;
                                if op == "trim" && !inside || op == "trimwrap" && !outside {
                                    return Err(format!("a part over ({x}, {y}) is returned for ({a}, {b})"));
                                }
                            }
                            if bo(&s["o"]["go"]) {
                                cur = guard(|| Ch::new(parts))?;
                                if guard(|| arranged(&cur, e, bo(&s["closed"]), rep))?? != natural(e.len()) {
                                    rep.count("rotated", 1);
                                    over = true;
                                }
                            }
                            Ok(())
                        }
                    })();
                    if let Err(m) = r {
                        if mine {
                            return Err((tag, m));
                        }
                        rep.foreign += 1;
                        return Ok(());
                    }
                    if over {
                        return Ok(());
                    }
                }
                if own {
                    let e = arr(&v["last"]);
                    rep.enter(true, "queries");
                    guard(|| whole(&cur, e, &natural(e.len()), bo(&v["closed"]), rep)).and_then(|r| r).map_err(|m| ("end", m))?;
                    for q in arr(&v["qs"]) {
                        rep.count("queries", 1);
                        guard(|| nearest(&cur, e, &vec(&q["x"]))).and_then(|r| r).map_err(|m| ("closest", m))?;
                    }
                }
                Ok(())
            }
        }
    };
}
chains!(two, 3, 2, Point3);
chains!(three, 4, 3, Point4);

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let dim = arr(&v["steps"][0]["pieces"][0]["c"]["P"][0]).len();
    if rep.line < 5 {
        rep.samples.push(json!({"pieces": arr(&v["steps"][0]["pieces"]).iter().map(|p| p["c"].clone()).collect::<Vec<_>>(), "steps": arr(&v["steps"]).iter().map(|s| s["o"].clone()).collect::<Vec<_>>()}));
    }
    rep.count("chains", 1);
    let r = if dim == 3 { two::replay(prop, v, rep) } else { three::replay(prop, v, rep) };
    if let Err((k, m)) = r {
        if k == "pieces" || (prop != "C17" && k == "build") {
            rep.foreign += 1;
            return;
        }
        rep.violation(prop, format!("chain:{k}"), m, json!({"pieces": arr(&v["steps"][0]["pieces"]).iter().map(|p| p["c"].clone()).collect::<Vec<_>>(),
            "given": v["steps"][0]["given"], "operations": arr(&v["steps"]).iter().map(|s| s["o"].clone()).collect::<Vec<_>>()}));
    }
}
