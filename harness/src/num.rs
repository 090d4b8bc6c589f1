//! Reading exact values emitted by TLC: a rational is [n, d], a component that
//! does not fit 31 bits is a list of base-2^30 limbs [sign, l0, l1, ...].
use serde_json::Value;

pub fn int(v: &Value) -> f64 {
    match v {
        Value::Number(n) => n.as_f64().unwrap(),
        Value::Array(a) => {
            let mut m = 0.0f64;
            for l in a[1..].iter().rev() {
                m = m * 1073741824.0 + l.as_f64().unwrap();
            }
            m * a[0].as_f64().unwrap()
        }
        _ => panic!("spec value: not an integer: {v}"),
    }
}
pub fn rat(v: &Value) -> f64 {
    let a = v.as_array().unwrap_or_else(|| panic!("spec value: not a rational: {v}"));
    int(&a[0]) / int(&a[1])
}
pub fn vec(v: &Value) -> Vec<f64> {
    arr(v).iter().map(rat).collect()
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("spec value: not a sequence: {v}"))
}
pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("spec value: not a natural: {v}")) as usize
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("spec value: not a string: {v}"))
}
pub fn bo(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("spec value: not a boolean: {v}"))
}

/// |a - b| within tol relative to the given scale (at least 1); NaN never matches
pub fn close(a: f64, b: f64, scale: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * scale.abs().max(1.0)
}
pub fn vclose(a: &[f64], b: &[f64], tol: f64) -> bool {
    let s = b.iter().fold(1.0f64, |m, x| m.max(x.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, s, tol))
}

/// a double as a rational of the specification, rounded to a multiple of 2^-bits
pub fn enc_bits(x: f64, bits: i32) -> Value {
    use serde_json::json;
    if !x.is_finite() {
        return json!("nan");
    }
    let y = (x * 2f64.powi(bits)).round();
    let mut m = y.abs();
    assert!(m < 2f64.powi(120));
    let mut n = m as u128;
    if n == 0 {
        return json!([0, 1]);
    }
    let z = n.trailing_zeros().min(bits as u32);
    n >>= z;
    let b = bits as u32 - z;
    m = b as f64;
    let _ = m;
    json!([limbs(n, y < 0.0), limbs(1u128 << b, false)])
}
fn limbs(mut n: u128, neg: bool) -> Value {
    use serde_json::json;
    if n < (1 << 30) {
        return json!(if neg { -(n as i64) } else { n as i64 });
    }
    let mut v = vec![json!(if neg { -1 } else { 1 })];
    while n > 0 {
        v.push(json!((n & ((1 << 30) - 1)) as i64));
        n >>= 30;
    }
    Value::Array(v)
}
pub fn enc(x: f64) -> Value {
    enc_bits(x, 40)
}
pub fn encv(x: &[f64]) -> Value {
    Value::Array(x.iter().map(|x| enc(*x)).collect())
}
pub fn us_i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("spec value: not an integer: {v}"))
}
