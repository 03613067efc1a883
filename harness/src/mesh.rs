//! Meshes from and to JSON. Floats travel as the bits they are: those of 32 bits as numbers, those of 64 bits as
//! strings of hexadecimal digits.
use serde_json::{json, Value};
use tmf::{CustomData, FloatType, IndexType, TMFMesh, TMFPrecisionInfo};
pub fn f(v: &Value) -> FloatType {
    match v {
        Value::String(s) => f64::from_bits(u64::from_str_radix(s, 16).expect("harness: float")) as FloatType,
        v => f32::from_bits(v.as_u64().expect("harness: float bits") as u32) as FloatType,
    }
}
/// The bits of a number of the library.
#[cfg(not(feature = "wide"))]
pub fn b(x: FloatType) -> u32 {
    x.to_bits()
}
#[cfg(feature = "wide")]
pub fn b(x: FloatType) -> String {
    format!("{:016x}", x.to_bits())
}
pub fn index(v: &Value) -> IndexType {
    IndexType::try_from(v.as_u64().expect("harness: index")).expect("harness: index too big for this build")
}
pub fn idx(v: &Value) -> Vec<IndexType> {
    v.as_array().expect("harness: indices").iter().map(index).collect()
}
pub fn vec3(v: &Value) -> Vec<tmf::Vector3> {
    v.as_array().expect("vec3s").iter().map(|e| (f(&e[0]), f(&e[1]), f(&e[2]))).collect()
}
pub fn vec2(v: &Value) -> Vec<tmf::Vector2> {
    v.as_array().expect("vec2s").iter().map(|e| (f(&e[0]), f(&e[1]))).collect()
}
pub fn tangents(v: &Value) -> Vec<tmf::Tangent> {
    v.as_array().expect("tangents").iter().map(|e| ((f(&e[0]), f(&e[1]), f(&e[2])), f(&e[3]))).collect()
}
pub fn custom(c: &Value) -> CustomData {
    let d = &c["data"];
    match c["kind"].as_str().unwrap() {
        // "max" and "prec" given: the variant itself, else the conversion from a slice.
        "index" => match c["max"].as_u64() {
            Some(max) => CustomData::CustomIndex(idx(d).into(), max as usize),
            None => idx(d)[..].into(),
        },
        "int" => {
            let data = idx(d);
            let max = c["max"].as_u64().unwrap_or_else(|| data.iter().max().copied().unwrap_or(0) as u64);
            CustomData::CustomIntiger(data.into(), max as usize)
        }
        "float" => {
            let data: Vec<FloatType> = d.as_array().unwrap().iter().map(f).collect();
            match c.get("prec") {
                Some(p) => CustomData::CustomFloat(data.into(), f(p)),
                None => data[..].into(),
            }
        }
        "rgba" => {
            let data: Vec<_> =
                d.as_array().unwrap().iter().map(|e| (f(&e[0]), f(&e[1]), f(&e[2]), f(&e[3]))).collect();
            match c.get("prec") {
                Some(p) => CustomData::CustomColorRGBA(data.into(), f(p)),
                None => data[..].into(),
            }
        }
        k => panic!("harness: kind {k}"),
    }
}
pub fn from_json(v: &Value) -> TMFMesh {
    let mut m = TMFMesh::empty();
    let has = |k: &str| v.get(k).filter(|a| !a.is_null());
    if let Some(a) = has("v") {
        m.set_vertices(vec3(a));
    }
    if let Some(a) = has("n") {
        m.set_normals(vec3(a));
    }
    if let Some(a) = has("u") {
        m.set_uvs(vec2(a));
    }
    if let Some(a) = has("t") {
        m.set_tangents(tangents(a));
    }
    if let Some(a) = has("vt") {
        m.set_vertex_triangles(idx(a));
    }
    if let Some(a) = has("nt") {
        m.set_normal_triangles(idx(a));
    }
    if let Some(a) = has("ut") {
        m.set_uv_triangles(idx(a));
    }
    if let Some(a) = has("tt") {
        m.set_tangent_triangles(idx(a));
    }
    if let Some(Value::Array(cs)) = has("c") {
        for c in cs {
            m.add_custom_data(custom(c), c["name"].as_str().unwrap()).expect("harness: custom data name");
        }
    }
    m
}
pub fn v3(a: &[tmf::Vector3]) -> Value {
    a.iter().map(|e| json!([b(e.0), b(e.1), b(e.2)])).collect()
}
pub fn v2(a: &[tmf::Vector2]) -> Value {
    a.iter().map(|e| json!([b(e.0), b(e.1)])).collect()
}
pub fn tans(a: &[tmf::Tangent]) -> Value {
    a.iter()
        .map(|e| json!([b(e.0 .0), b(e.0 .1), b(e.0 .2), b(e.1)]))
        .collect()
}
pub fn custom_to_json(c: &CustomData) -> Value {
    match c {
        CustomData::CustomIndex(d, max) => json!({"kind": "index", "data": d, "max": max}),
        CustomData::CustomIntiger(d, max) => json!({"kind": "int", "data": d, "max": max}),
        CustomData::CustomFloat(d, prec) => {
            json!({"kind": "float", "data": d.iter().map(|f| b(*f)).collect::<Vec<_>>(), "prec": b(*prec)})
        }
        CustomData::CustomColorRGBA(d, prec) => {
            let d: Value =
                d.iter().map(|e| json!([b(e.0), b(e.1), b(e.2), b(e.3)])).collect();
            json!({"kind": "rgba", "data": d, "prec": b(*prec)})
        }
    }
}
/// What the accessors of custom data give.
pub fn views(c: &CustomData) -> Vec<Value> {
    let index = c.as_index().map(|(d, max)| custom_to_json(&CustomData::CustomIndex(d.into(), max)));
    let int = c.as_intiger().map(|(d, max)| custom_to_json(&CustomData::CustomIntiger(d.into(), max)));
    let float = c.as_float().map(|(d, prec)| custom_to_json(&CustomData::CustomFloat(d.into(), prec)));
    let rgba = c.as_color_rgba().map(|(d, prec)| custom_to_json(&CustomData::CustomColorRGBA(d.into(), prec)));
    [index, int, float, rgba].into_iter().flatten().collect()
}
/// Everything a user can see of a mesh, custom data as far as `names` find it.
pub fn to_json(m: &TMFMesh, names: &[String]) -> Value {
    let mut r = serde_json::Map::new();
    let mut put = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            r.insert(k.to_owned(), v);
        }
    };
    put("v", m.get_vertices().map(v3));
    put("n", m.get_normals().map(v3));
    put("u", m.get_uvs().map(v2));
    put("t", m.get_tangents().map(tans));
    put("vt", m.get_vertex_triangles().map(|t| json!(t)));
    put("nt", m.get_normal_triangles().map(|t| json!(t)));
    put("ut", m.get_uv_triangles().map(|t| json!(t)));
    put("tt", m.get_tangent_triangles().map(|t| json!(t)));
    let found: Vec<Value> = names
        .iter()
        .map(|n| match m.lookup_custom_data(n) {
            Some(c) => {
                let mut c = custom_to_json(c);
                c["name"] = json!(n);
                c
            }
            None => json!({"name": n, "kind": "none"}),
        })
        .collect();
    put("c", Some(Value::Array(found)));
    Value::Object(r)
}
pub fn prec(v: &Value) -> TMFPrecisionInfo {
    let mut p = TMFPrecisionInfo::default();
    if let Some(x) = v.get("v") {
        p.vertex_precision = tmf::VertexPrecisionMode(f(x));
    }
    if let Some(x) = v.get("n_deg") {
        p.normal_precision = tmf::NormalPrecisionMode::from_deg_dev(f(x));
    }
    if let Some(x) = v.get("n_rad") {
        p.normal_precision = tmf::NormalPrecisionMode::from_rad_dev(f(x));
    }
    if let Some(x) = v.get("u") {
        p.uv_prec = tmf::UvPrecisionMode::form_texture_resolution(f(&x[0]) as f32, f(&x[1]) as f32);
    }
    if let Some(x) = v.get("t_deg") {
        p.tangent_prec = tmf::TangentPrecisionMode::from_deg_dev(f(x));
    }
    if let Some(x) = v.get("t_rad") {
        p.tangent_prec = tmf::TangentPrecisionMode::from_rad_dev(f(x));
    }
    p
}
