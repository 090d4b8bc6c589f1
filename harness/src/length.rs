//! Length.tla behaviours: arc length, parameter at length, division (C10).
use crate::curve::{apply, build, gtry, guard, Cv};
use crate::num::*;
use crate::report::Report;
use serde_json::{json, Value};

macro_rules! each {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            Cv::C2($c) => $e,
            Cv::C3($c) => $e,
        }
    };
}

/// the arc-length function: the specification's samples, between them the
/// integral of the curve's own speed
struct Arc {
    s: Vec<(f64, f64)>,
}
impl Arc {
    fn at(&self, c: &Cv, u: f64) -> f64 {
        let k = self.s.windows(2).position(|w| u < w[1].0).unwrap_or(self.s.len() - 2);
        let (a, b) = (self.s[k], self.s[k + 1]);
        // composite Simpson on the nearer side, away from the corner at the far end
        let (from, to) = if u - a.0 < b.0 - u { (a.0, u) } else { (u, b.0) };
        let n = 64;
        let h = (to - from) / n as f64;
        let v = |i: usize| {
            let x = from + h * (i as f64).clamp(1e-9, n as f64 - 1e-9);
            c.d1(x).iter().map(|x| x * x).sum::<f64>().sqrt()
        };
        let mut t = v(0) + v(n);
        for i in 1..n {
            t += v(i) * if i % 2 == 1 { 4.0 } else { 2.0 };
        }
        let l = t * h / 3.0;
        if from == a.0 { a.1 + l } else { b.1 - l }
    }
}

fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}

fn check(c: &Cv, arc: &Arc, k: usize, rep: &mut Report) -> Result<(), (&'static str, String)> {
    let total = arc.s.last().unwrap().1;
    let (lo, hi) = c.domain();
    let tol = 1e-7 * total;
    let l = gtry(|| each!(c, c => c.try_length())).map_err(|m| ("length", format!("length {m}")))?;
    if !((l - total).abs() <= tol) {
        return Err(("length", format!("length {l} instead of {total}")));
    }
    rep.count("lengths", 1);
    // the parameter at a length
    for (i, (u, s)) in arc.s.iter().enumerate() {
        if i != 0 && i + 1 != arc.s.len() && (i + k) % 3 != 0 {
            continue;
        }
        let ask = if i + 1 == arc.s.len() { l } else { *s };
        let p = gtry(|| each!(c, c => c.try_parameter_at_length(ask, Some(1e-9 * total)))).map_err(|m| ("parameter", format!("parameter at length {ask} of {l} {m}")))?;
        if !(p >= lo && p <= hi) {
            return Err(("parameter", format!("parameter {p} at length {ask} outside ({lo}, {hi})")));
        }
        let (x, y) = (c.at(p), c.at(*u));
        if !((arc.at(c, p) - s).abs() <= 1e-6 * total) || !(dist(&x, &y) <= 1e-6 * total) {
            return Err(("parameter", format!("parameter {p} at length {s}, where {} has been travelled (expected {u})", arc.at(c, p))));
        }
        rep.count("parameters", 1);
    }
    // division by lengths and counts
    let n = [1, 2, 3, 5, 8][k % 5];
    for (name, step, whole) in [("count", total / n as f64, true), ("length", total / (n as f64 + 0.37), false), ("length", total / (7.0 + n as f64), true)] {
        let ps = match name {
            "count" => gtry(|| each!(c, c => c.try_divide_by_count(n))).map(|v| v.iter().map(|p| (p.parameter(), p.length())).collect::<Vec<_>>()),
            _ => gtry(|| each!(c, c => c.try_divide_by_length(step))).map(|v| v.iter().map(|p| (p.parameter(), p.length())).collect::<Vec<_>>()),
        };
        let ps = ps.map_err(|m| ("divide", format!("dividing {total} by {name} into steps of {step} {m}")))?;
        let m = (total / step + if whole { 0.5 } else { 0.0 }).floor() as usize;
        if ps.len() != m + 1 {
            return Err(("divide", format!("dividing {total} by {name} into steps of {step} gives {} parameters instead of {}", ps.len(), m + 1)));
        }
        for (j, (u, s)) in ps.iter().enumerate() {
            let want = step * j as f64;
            if !(*u >= lo && *u <= hi) || (j == 0 && *u != lo) || (j > 0 && !(*u > ps[j - 1].0)) {
                return Err(("divide", format!("parameter {j} is {u} after {} in ({lo}, {hi})", if j > 0 { ps[j - 1].0 } else { lo })));
            }
            let got = arc.at(c, *u);
            if !((s - want).abs() <= 1e-6 * total) || !((got - want).abs() <= 1e-4 * total) {
                return Err(("divide", format!("parameter {j}: {u} reported at length {s}, travelled {got} instead of {want} (total {total}, step {step})")));
            }
            rep.count("divisions", 1);
        }
    }
    // pieces
    if arc.s.len() < 3 {
        return Ok(());
    }
    let (u, s) = arc.s[arc.s.len() / 2];
    let (a, b) = gtry(|| {
        Ok(each!(c, c => { let (a, b) = curvo::prelude::Split::try_split(c, u)?; (a.try_length()?, b.try_length()?) }))
    })
    .map_err(|m| ("pieces", format!("splitting at {u} {m}")))?;
    if !((a - s).abs() <= tol) || !((b - (total - s)).abs() <= tol) {
        return Err(("pieces", format!("pieces at {u} have lengths {a} and {b} instead of {s} and {}", total - s)));
    }
    Ok(())
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let h = vec(&v["unit"]);
    let unit = if h.is_empty() { 1.0 } else { h[1].atan2(h[0]) };
    let steps = arr(&v["steps"]);
    let ops: Vec<&str> = steps.iter().map(|s| st(&s["op"])).collect();
    if rep.line < 5 {
        rep.samples.push(json!({"history": ops, "start": steps[0]["e"]["c"]}));
    }
    let mut cur: Option<Cv> = None;
    let mut off = 0.0;
    for (i, s) in steps.iter().enumerate() {
        rep.enter(false, ops[i]);
        let next = match &cur {
            Some(c) if ops[i] != "create" => apply(c, &mut off, &s["o"], s, rep),
            _ => gtry(|| build(&s["e"]["c"])),
        };
        let c = match next {
            Ok(c) => c,
            Err(_) => {
                rep.foreign += 1;
                off = 0.0;
                match gtry(|| build(&s["e"]["c"])) {
                    Ok(c) => c,
                    Err(_) => return,
                }
            }
        };
        let mut arc = Arc { s: arr(&v["lens"][i]).iter().map(|q| (rat(&q[0]) + off, rat(&q[1]) * unit)).collect() };
        let (lo, hi) = c.domain();
        if !close(arc.s[0].0, lo, lo, 1e-9) || !close(arc.s.last().unwrap().0, hi, hi, 1e-9) {
            // a wrong domain is another property's business
            rep.foreign += 1;
            return;
        }
        for q in arc.s.iter_mut() {
            q.0 = q.0.clamp(lo, hi);
        }
        rep.enter(true, "measure");
        let r = guard(|| check(&c, &arc, i + rep.line, rep));
        let e = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(m) => Some(("measure", m)),
        };
        rep.count(if c.is_clamped() { "clamped" } else { "unclamped" }, 1);
        if let Some((k, m)) = e {
            rep.violation(prop, format!("{k}{}", if c.is_clamped() { "" } else { "-unclamped" }), m, json!({"degree": c.degree(), "knots": c.knots(), "control_points": c.cps(), "history": ops[..=i]}));
            return;
        }
        cur = Some(c);
    }
}
