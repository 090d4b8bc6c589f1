//! Knots.tla: histories of knot vectors with their queries (C29).
use crate::curve::{gtry, guard};
use crate::num::*;
use crate::report::Report;
use curvo::prelude::*;
use nalgebra::Point3;
use serde_json::{json, Value};

type K = KnotVector<f64>;

fn tall(got: &[Vec<f64>], want: &[Vec<f64>]) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| {
            let s = w.iter().fold(0f64, |m, x| m.max(x.abs())).max(1e-3);
            g.len() == w.len() && g.iter().zip(w).all(|(a, b)| (a - b).abs() <= 1e-9 * s)
        })
}

/// the rows of the specification for knots multiplied by f
fn rows(v: &Value, n: usize, f: f64) -> Vec<Vec<f64>> {
    arr(v)[..=n].iter().enumerate().map(|(d, r)| vec(r).iter().map(|x| x / f.powi(d as i32)).collect()).collect()
}

fn check(k: &K, s: &Value, f: f64, rep: &mut Report) -> Result<(), (String, String)> {
    let bad = |t: &str, e: String| Err((t.to_string(), format!("{e} of {:?}", k.to_vec())));
    let u: Vec<f64> = vec(&s["U"]).iter().map(|x| x * f).collect();
    let n = u.len();
    if k.to_vec() != u || k.as_slice() != u || k.len() != n || k.is_empty() || k.iter().copied().collect::<Vec<_>>() != u {
        return bad("values", format!("values instead of {u:?}"));
    }
    if k.first() != u[0] || k.last() != u[n - 1] || (0..n).any(|i| k[i] != u[i]) {
        return bad("values", "first, last or indexed values".into());
    }
    let m = k.multiplicity();
    let want: Vec<(f64, usize)> = arr(&s["mults"]).iter().map(|m| (rat(&m["k"]) * f, us(&m["m"]))).collect();
    if m.iter().map(|m| (*m.knot(), m.multiplicity())).collect::<Vec<_>>() != want {
        return bad("multiplicity", format!("multiplicities {m:?}"));
    }
    for q in arr(&s["floor"]) {
        let x = rat(&q["u"]) * f;
        let i = us(&q["n"]);
        rep.count("queries", 1);
        if k.floor(x) != i.checked_sub(1) {
            return bad("floor", format!("floor({x}) = {:?}", k.floor(x)));
        }
    }
    for d in arr(&s["degs"]) {
        let p = us(&d["p"]);
        let cps = n - p - 1;
        let (lo, hi) = (rat(&d["lo"]) * f, rat(&d["hi"]) * f);
        if k.domain(p) != (lo, hi) {
            return bad("domain", format!("domain {:?} for degree {p}", k.domain(p)));
        }
        if k.is_clamped(p) != bo(&d["clamped"]) {
            return bad("clamped", format!("is_clamped {} for degree {p}", k.is_clamped(p)));
        }
        for q in arr(&d["at"]) {
            let (x, v, i) = (rat(&q["u"]) * f, rat(&q["v"]) * f, us(&q["k"]));
            rep.count("queries", 3);
            if k.clamp(p, x) != v {
                return bad("clamp", format!("clamp({p}, {x}) = {}", k.clamp(p, x)));
            }
            let (a, b) = (k.find_knot_span_index(cps - 1, p, x), k.find_knot_span_linear(cps, p, x));
            if a != i {
                return bad("search", format!("binary search finds span {a}, not {i}, for {x} and degree {p}"));
            }
            if b != i {
                return bad("linear", format!("linear search finds span {b}, not {i}, for {x} and degree {p}"));
            }
        }
        for q in arr(&d["basis"]) {
            let (x, i) = (rat(&q["u"]) * f, us(&q["k"]));
            let b = k.basis_functions(i, x, p);
            rep.count("bases", 1);
            if !tall(&[b.clone()], &rows(&q["rows"], 0, f)) {
                return bad("basis", format!("basis functions {b:?} at {x} for degree {p}"));
            }
            for e in 0..=p + 1 {
                let b = k.derivative_basis_functions(i, x, p, e);
                if !tall(&b, &rows(&q["rows"], e, f)) {
                    return bad("derivatives", format!("derivatives {b:?} of basis functions at {x} for degree {p}"));
                }
            }
        }
    }
    for g in arr(&s["even"]) {
        let (p, d) = (us(&g["p"]), us(&g["d"]));
        let (ks, bs) = k.regulary_spaced_basis_functions(p, d);
        let (ls, ds) = k.regularly_spaced_derivative_basis_functions(p, d);
        let at = arr(&g["at"]);
        rep.count("even", 1);
        if ks.len() != d + 1 || bs.len() != d + 1 || ls.len() != d + 1 || ds.len() != d + 1 {
            return bad("even", format!("{d} divisions for degree {p}: number of parameters"));
        }
        for i in 0..=d {
            let w = us(&at[i]["k"]);
            let r = rows(&at[i]["rows"], 2, f);
            let x = rat(&at[i]["u"]) * f;
            if ks[i] != w || ls[i] != w || !tall(&[bs[i].clone()], &r[..1]) || ds[i].len() < 2 || !tall(&ds[i][..ds[i].len().min(3)], &r[..ds[i].len().min(3)]) {
                return bad("even", format!("basis functions at {x} of {d} divisions for degree {p}: spans {} {}, {:?} {:?}, not span {w} with {r:?}", ks[i], ls[i], bs[i], ds[i]));
            }
        }
        let (a, b, w, m) = k.regularly_spaced_span(p, d);
        if (a, b) != k.domain(p) || (w * d as f64 - (b - a)).abs() > 1e-12 * (b - a) || m + p + 2 != n {
            return bad("even", format!("division of the domain {:?}", (a, b, w, m)));
        }
    }
    Ok(())
}

/// a curve keeps the knots, sorted, and refuses other numbers of them
fn curves(s: &Value, f: f64, line: usize) -> Result<(), (String, String)> {
    let u: Vec<f64> = vec(&s["U"]).iter().map(|x| x * f).collect();
    for d in arr(&s["degs"]) {
        let p = us(&d["p"]);
        let n = u.len() - p - 1;
        let mut mixed = u.clone();
        for i in 0..mixed.len() {
            let j = (i * 7 + line) % mixed.len();
            mixed.swap(i, j);
        }
        for (m, k, ok) in [(n, mixed.clone(), true), (n + 1, mixed.clone(), false), (n - 1, mixed.clone(), false), (n, mixed[1..].to_vec(), false), (p, mixed[..2 * p + 1].to_vec(), false)] {
            let pts: Vec<_> = (0..m).map(|i| Point3::new(i as f64, (i * i % 7) as f64, 1.0)).collect();
            let r = guard(|| NurbsCurve2D::try_new(p, pts, k.clone())).map_err(|e| ("panic".to_string(), e))?;
            match (r, ok) {
                (Ok(c), true) => {
                    if c.knots().to_vec() != u || c.knots_domain() != (u[p], u[n]) {
                        return Err(("curve".into(), format!("a curve made with {mixed:?} has knots {:?}", c.knots().to_vec())));
                    }
                }
                (Err(_), false) => {}
                (r, _) => return Err(("count".into(), format!("a curve of degree {p} with {m} points and {} knots: {:?}", k.len(), r.is_ok()))),
            }
        }
    }
    Ok(())
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    if rep.line < 5 {
        rep.samples.push(v.clone());
    }
    let f = [1.0, 2f64.powi(20), 2f64.powi(-10)][rep.line % 3];
    let mut cur: Option<K> = None;
    for s in arr(&v["steps"]) {
        let op = st(&s["op"]);
        rep.enter(true, op);
        rep.count(&format!("kop:{op}"), 1);
        let x = || rat(&s["x"]) * f;
        // uniform knots are not scaled
        let made = guard(|| -> Result<K, String> {
            Ok(match op {
                "new" if rep.line % 2 == 0 => K::new(vec(&s["U"]).iter().map(|x| x * f).collect()),
                "new" => vec(&s["U"]).iter().map(|x| x * f).collect(),
                "uniform" => {
                    let k = K::uniform(us(&s["x"][0]), us(&s["x"][1]));
                    if k.to_vec() != vec(&s["U"]) {
                        return Err(format!("uniform knots {:?}", k.to_vec()));
                    }
                    k.iter().map(|x| x * f).collect()
                }
                "add" => {
                    let mut k = cur.clone().unwrap();
                    let i = k.add(x());
                    if i >= k.len() || k[i] != x() {
                        return Err(format!("adding {} reports index {i} of {:?}", x(), k.to_vec()));
                    }
                    k
                }
                "invert" => {
                    let mut k = cur.clone().unwrap();
                    k.invert();
                    if k != cur.as_ref().unwrap().inverse() {
                        return Err("invert and inverse differ".into());
                    }
                    k
                }
                _ => {
                    let c: KnotVector<f32> = cur.clone().unwrap().cast();
                    let t: K = gtry(|| Ok(serde_json::from_value(serde_json::to_value(cur.as_ref().unwrap())?)?))?;
                    if t != *cur.as_ref().unwrap() {
                        return Err("serialised and read back".into());
                    }
                    c.cast()
                }
            })
        });
        let r = match made {
            Err(e) => Err(("panic".to_string(), e)),
            Ok(Err(e)) => Err((op.to_string(), e)),
            Ok(Ok(k)) => {
                let r = guard(|| check(&k, s, f, rep)).unwrap_or_else(|e| Err(("panic".into(), e))).and_then(|_| curves(s, f, rep.line));
                cur = Some(k);
                r
            }
        };
        if let Err((k, e)) = r {
            return rep.violation(prop, format!("knots:{k}"), e, json!({"steps": v["steps"]}));
        }
    }
}
