//! Wire.tla: reading serialised objects (C27).
use crate::curve::{gtry, guard};
use crate::num::*;
use crate::report::Report;
use curvo::prelude::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, DimName, DimNameSub, Point2, Point3, Point4, Vector2, Vector3, U1};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

/// the numbers an object consists of, from its accessors alone
pub trait Numbers {
    fn numbers(&self) -> Vec<f64>;
}
fn f<T: FloatingPoint>(x: T) -> f64 {
    nalgebra::try_convert(x).unwrap_or(f64::NAN)
}
impl<T: FloatingPoint, D: DimName> Numbers for NurbsCurve<T, D>
where
    DefaultAllocator: Allocator<D>,
{
    fn numbers(&self) -> Vec<f64> {
        let mut r = vec![self.degree() as f64, self.control_points().len() as f64];
        r.extend(self.knots().iter().map(|k| f(*k)));
        r.extend(self.control_points().iter().flat_map(|p| p.coords.iter().map(|x| f(*x))));
        r
    }
}
impl<T: FloatingPoint, D: DimName + DimNameSub<U1>> Numbers for NurbsSurface<T, D>
where
    DefaultAllocator: Allocator<D>,
    DefaultAllocator: Allocator<nalgebra::DimNameDiff<D, U1>>,
{
    fn numbers(&self) -> Vec<f64> {
        let c = self.control_points();
        let mut r = vec![self.u_degree() as f64, self.v_degree() as f64, c.len() as f64, c[0].len() as f64];
        r.extend(self.u_knots().iter().map(|k| f(*k)));
        r.extend(self.v_knots().iter().map(|k| f(*k)));
        r.extend(c.iter().flatten().flat_map(|p| p.coords.iter().map(|x| f(*x))));
        r
    }
}
impl<T: FloatingPoint, D: DimName> Numbers for CompoundCurve<T, D>
where
    DefaultAllocator: Allocator<D>,
{
    fn numbers(&self) -> Vec<f64> {
        std::iter::once(self.spans().len() as f64).chain(self.spans().iter().flat_map(|s| s.numbers())).collect()
    }
}
fn all<'a, O: Numbers + 'a>(i: impl Iterator<Item = &'a O>) -> Vec<f64> {
    let v: Vec<Vec<f64>> = i.map(|o| o.numbers()).collect();
    std::iter::once(v.len() as f64).chain(v.into_iter().flatten()).collect()
}
impl<T: FloatingPoint> Numbers for Region<T> {
    fn numbers(&self) -> Vec<f64> {
        [self.exterior().numbers(), all(self.interiors().iter())].concat()
    }
}
impl<T: FloatingPoint> Numbers for TrimmedSurface<T> {
    fn numbers(&self) -> Vec<f64> {
        [self.surface().numbers(), all(self.exterior().into_iter()), all(self.interiors().iter())].concat()
    }
}

pub fn alike(a: &[f64], b: &[f64]) -> bool {
    // reading decimal text is exact only up to the last place
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-14 * x.abs().max(y.abs()))
}

/// the object, written and read again in every way
pub fn round<O: Serialize + DeserializeOwned + Numbers>(o: &O) -> Result<(), String> {
    let n = o.numbers();
    let text = gtry(|| Ok(serde_json::to_string(o)?))?;
    for (way, r) in [
        ("text", gtry(|| Ok(serde_json::from_str::<O>(&text)?.numbers()))),
        ("bytes", gtry(|| Ok(serde_json::from_slice::<O>(text.as_bytes())?.numbers()))),
        ("reader", gtry(|| Ok(serde_json::from_reader::<_, O>(text.as_bytes())?.numbers()))),
        ("value", gtry(|| Ok(serde_json::from_value::<O>(serde_json::to_value(o)?)?.numbers()))),
        ("pretty", gtry(|| Ok(serde_json::from_str::<O>(&serde_json::to_string_pretty(o)?)?.numbers()))),
    ] {
        match r {
            Err(e) => return Err(format!("{way}: {e}")),
            Ok(m) if !alike(&n, &m) => return Err(format!("{way}: {m:?} instead of {n:?}")),
            _ => {}
        }
    }
    Ok(())
}

/// bare: the object as it is to be when optional fields are left out or null
fn message<O: Serialize + DeserializeOwned + Numbers>(v: &Value, o: &O, bare: Vec<f64>) -> Result<(), String> {
    let own = gtry(|| Ok(serde_json::to_value(o)?))?;
    let own = own.as_object().ok_or("not written as fields")?;
    let mut text = vec![];
    let mut keys = vec![];
    for e in arr(&v["msg"]) {
        let (k, how) = (st(&e["f"]), st(&e["v"]));
        let good = own.get(k).cloned().unwrap_or(json!(1.5));
        let val = match how {
            "good" => good,
            "null" => Value::Null,
            "bad" => json!("bad"),
            _ => {
                // the object in it without one of its fields
                let mut g = good;
                let mut x = &mut g;
                if x.is_array() {
                    x = match x.get_mut(0) {
                        Some(y) => y,
                        None => return Ok(()),
                    };
                }
                match x.as_object_mut() {
                    Some(m) => {
                        let n = m.keys().nth(text.len() % m.len()).cloned().unwrap();
                        m.remove(&n);
                    }
                    None => return Ok(()),
                }
                g
            }
        };
        text.push(format!("{}:{}", json!(k), val));
        keys.push((k, val));
    }
    let text = format!("{{{}}}", text.join(","));
    let got = v["got"].as_object().unwrap();
    let want = if got.iter().any(|(k, x)| k == "exterior" && st(x) != "good") && st(&v["kind"]) == "trimmed" { bare } else { o.numbers() };
    let mut distinct: Vec<&str> = keys.iter().map(|k| k.0).collect();
    distinct.sort();
    distinct.dedup();
    let mut ways = vec![
        ("text", guard(|| serde_json::from_str::<O>(&text).map(|o| o.numbers()).map_err(|e| e.to_string()))),
        ("reader", guard(|| serde_json::from_reader::<_, O>(text.as_bytes()).map(|o| o.numbers()).map_err(|e| e.to_string()))),
    ];
    if distinct.len() == keys.len() {
        let m: serde_json::Map<String, Value> = keys.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        ways.push(("value", guard(|| serde_json::from_value::<O>(Value::Object(m)).map(|o| o.numbers()).map_err(|e| e.to_string()))));
    }
    for (way, r) in ways {
        match r {
            Err(e) => return Err(format!("{way}: panics: {e}")),
            Ok(Ok(n)) if !bo(&v["ok"]) => return Err(format!("{way}: an object is made of {text}: {n:?}")),
            Ok(Err(e)) if bo(&v["ok"]) => return Err(format!("{way}: refused ({e}): {text}")),
            Ok(Ok(n)) if !alike(&n, &want) => return Err(format!("{way}: {n:?} instead of {want:?} from {text}")),
            _ => {}
        }
    }
    Ok(())
}

fn curve2(i: usize) -> NurbsCurve2D<f64> {
    let p = |x: f64, y: f64, w: f64| Point3::new(x * w, y * w, w);
    match i % 4 {
        0 => NurbsCurve2D::try_circle(&Point2::new(0.5, -1.0), &Vector2::x(), &Vector2::y(), 1.5).unwrap(),
        1 => NurbsCurve2D::try_new(2, vec![p(0.0, 0.1, 1.0), p(1.0, 2.0, 0.5), p(3.0, -1.0, 2.0), p(4.0, 0.0, 1.0)], vec![0.0, 0.25, 1.0, 2.0, 3.0, 3.5, 5.0]).unwrap(),
        2 => NurbsCurve2D::polyline(&[Point2::new(0.0, 0.0), Point2::new(1.0, 0.3), Point2::new(1.0, 2.0)], true),
        _ => NurbsCurve2D::try_new(3, vec![p(0.0, 0.0, 1.0), p(1.0, 2.0, 1.0), p(3.0, -1.0, 3.0), p(4.0, 1e-7, 1.0)], vec![-1.0, -1.0, -1.0, -1.0, 1.0, 1.0, 1.0, 1.0]).unwrap(),
    }
}
fn curve3(i: usize) -> NurbsCurve3D<f64> {
    let c = curve2(i);
    NurbsCurve3D::try_new(c.degree(), c.control_points().iter().enumerate().map(|(i, p)| Point4::new(p.x, p.y, (i * i) as f64 * 0.125, p.z)).collect(), c.knots().to_vec()).unwrap()
}
fn surface(i: usize) -> NurbsSurface3D<f64> {
    match i % 3 {
        0 => NurbsSurface3D::extrude(&curve3(i / 3), &Vector3::new(0.0, 0.5, 2.0)),
        1 => NurbsSurface3D::try_sphere(&Point3::origin(), &Vector3::x(), &Vector3::y(), 2.0).unwrap(),
        _ => NurbsSurface3D::new(
            1, 2, vec![0.0, 0.5, 1.0, 2.0, 3.0], vec![0.0, 0.0, 0.0, 1.0, 1.0, 1.0],
            (0..3).map(|a| (0..3).map(|b| Point4::new(a as f64, b as f64, (a * b) as f64, 1.0 + 0.5 * b as f64)).collect()).collect(),
        ),
    }
}
fn chain(i: usize) -> CompoundCurve<f64, nalgebra::U3> {
    let c = curve2(i / 2);
    if i % 2 == 0 {
        return CompoundCurve::new(vec![c]);
    }
    let (lo, hi) = c.knots_domain();
    let (a, b) = c.try_split(0.375 * lo + 0.625 * hi).unwrap();
    CompoundCurve::new(vec![a, b])
}

pub fn replay(prop: &str, v: &Value, rep: &mut Report) {
    let i = rep.line;
    let kind = st(&v["kind"]);
    rep.enter(true, &format!("wire {kind}"));
    rep.count(&format!("wire:{kind}"), 1);
    rep.count(if bo(&v["ok"]) { "accepted" } else { "refused" }, 1);
    let r = match kind {
        "curve" => match i % 3 {
            0 => { let o = curve2(i / 3); round(&o).and_then(|_| message(v, &o, vec![])) }
            1 => { let o = curve3(i / 3); round(&o).and_then(|_| message(v, &o, vec![])) }
            _ => { let o = curve2(i / 3).cast::<f32>(); round(&o).and_then(|_| message(v, &o, vec![])) }
        },
        "surface" => match i % 2 {
            0 => { let o = surface(i / 2); round(&o).and_then(|_| message(v, &o, vec![])) }
            _ => { let o = surface(i / 2).cast::<f32>(); round(&o).and_then(|_| message(v, &o, vec![])) }
        },
        "compound" => {
            let o = chain(i);
            round(&o).and_then(|_| message(v, &o, vec![]))
        }
        "region" => {
            let o = Region::new(chain(i), (0..i % 3).map(|k| chain(i + k)).collect());
            round(&o).and_then(|_| message(v, &o, vec![]))
        }
        _ => {
            let s = surface(i);
            let holes: Vec<_> = (0..i % 3).map(|k| curve2(i + k)).collect();
            let o = TrimmedSurface::new(s.clone(), if i % 5 == 0 { None } else { Some(curve2(i / 2)) }, holes.clone());
            let bare = TrimmedSurface::new(s, None, holes).numbers();
            round(&o).and_then(|_| message(v, &o, bare))
        }
    };
    if let Err(e) = r {
        rep.violation(prop, format!("wire:{kind}"), e.chars().take(600).collect(), json!({"msg": v["msg"]}));
    }
}
