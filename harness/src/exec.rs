//! Executes one operation at a time on named meshes and byte strings.
use crate::mesh::{self, from_json, to_json};
use crate::stream::{Script, ScriptReader, ScriptWriter};
use serde_json::{json, Value};
use std::collections::HashMap;
use tmf::{DataSegmentError, TMFExportError, TMFImportError, TMFIntegrityStatus, TMFMesh};

#[derive(Default)]
pub struct State {
    meshes: HashMap<String, TMFMesh>,
    lists: HashMap<String, Vec<(String, String)>>,
    blobs: HashMap<String, Vec<u8>>,
}
/// Runs `op`, a panic being a result like any other.
pub fn guarded(op: impl FnOnce() -> Value) -> Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(op)) {
        Ok(v) => v,
        Err(_) => {
            let msg = crate::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            if msg.contains("harness:") {
                eprintln!("harness error: {msg}");
                std::process::exit(3);
            }
            json!({ "panic": msg })
        }
    }
}
fn hex(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}
fn names(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|n| n.as_str().unwrap().to_owned()).collect()).unwrap_or_default()
}
fn io_err(e: &std::io::Error) -> String {
    format!("IO:{:?}", e.kind())
}
fn import_err(e: &TMFImportError) -> String {
    match e {
        TMFImportError::IO(e) => io_err(e),
        TMFImportError::CompressionTypeUnknown(c) => format!("CompressionTypeUnknown:{c}"),
        TMFImportError::NoMeshes => "NoMeshes".into(),
        TMFImportError::TooManyMeshes => "TooManyMeshes".into(),
        TMFImportError::NotTMFFile => "NotTMFFile".into(),
        TMFImportError::NewerVersionRequired => "NewerVersionRequired".into(),
        TMFImportError::SegmentTooLong => "SegmentTooLong".into(),
        TMFImportError::InvalidPrecision(p) => format!("InvalidPrecision:{p}"),
        TMFImportError::UnsuportedCompressionType(c) => format!("UnsuportedCompressionType:{c}"),
        #[allow(unreachable_patterns)]
        _ => "Other".into(),
    }
}
fn export_err(e: &TMFExportError) -> String {
    match e {
        TMFExportError::IO(e) => io_err(e),
        #[allow(unreachable_patterns)]
        _ => "Other".into(),
    }
}
fn status(s: &TMFIntegrityStatus, out: &mut Vec<Value>) {
    use TMFIntegrityStatus as S;
    out.push(match s {
        S::VertexArrayMissing => json!(["VertexArrayMissing"]),
        S::IndexOutsideVertexArray(i, l) => json!(["IndexOutsideVertexArray", i, l]),
        S::NormalArrayMissing => json!(["NormalArrayMissing"]),
        S::NormalsNotNormalized => json!(["NormalsNotNormalized"]),
        S::IndexOutsideNormalArray(i, l) => json!(["IndexOutsideNormalArray", i, l]),
        S::UVOutsideRange(x, y) => json!(["UVOutsideRange", mesh::b(*x), mesh::b(*y)]),
        S::UVArrayMissing => json!(["UVArrayMissing"]),
        S::IndexOutsideUVArray(i, l) => json!(["IndexOutsideUVArray", i, l]),
        S::CompositeError(errors) => {
            for e in errors.iter() {
                status(e, out);
            }
            return;
        }
    });
}
fn block_on<T>(f: impl std::future::Future<Output = T>, multi: bool) -> T {
    #[cfg(feature = "full")]
    {
        let rt = if multi {
            tokio::runtime::Builder::new_multi_thread().worker_threads(3).build()
        } else {
            tokio::runtime::Builder::new_current_thread().build()
        };
        rt.unwrap().block_on(f)
    }
    #[cfg(not(feature = "full"))]
    {
        let _ = multi;
        futures::executor::block_on(f)
    }
}
/// Loads a file as `op` says.
fn load(op: &Value, data: &[u8]) -> (Value, Vec<(TMFMesh, String)>) {
    let mut reader = ScriptReader { data, pos: 0, script: Script::from(&op["reader"]) };
    let schedule = op["ranks"].as_array().map(|r| {
        tmf::verif_hooks::Schedule::new(r.iter().map(|r| r.as_u64().unwrap() as usize).collect())
    });
    tmf::verif_hooks::set_schedule(schedule.clone());
    let base = crate::mem::reset();
    let one = |r: Result<(TMFMesh, String), TMFImportError>| r.map(|m| vec![m]);
    let multi = op["rt"].as_str() == Some("mt");
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op["mode"].as_str().unwrap_or("sync") {
        "sync" => TMFMesh::read_tmf(&mut reader),
        "one" => one(TMFMesh::read_tmf_one(&mut reader)),
        "async" => block_on(TMFMesh::read_tmf_async(&mut reader), multi),
        "one_async" => one(block_on(TMFMesh::read_tmf_one_async(&mut reader), multi)),
        m => panic!("harness: mode {m}"),
    }));
    let peak = crate::mem::peak(base);
    tmf::verif_hooks::set_schedule(None);
    let res = match res {
        Ok(res) => res,
        Err(p) => std::panic::resume_unwind(p),
    };
    let consumed = reader.pos;
    let mut out = json!({"consumed": consumed, "peak": peak, "len": data.len(), "failed": reader.script.failed});
    if let Some(s) = schedule {
        out["order"] = json!(s.completed());
    }
    match res {
        Ok(meshes) => {
            let quiet = op["quiet"].as_bool().unwrap_or(false);
            let n = names(&op["names"]);
            out["ok"] = if quiet {
                json!(meshes.len())
            } else {
                meshes.iter().map(|(m, name)| json!({"name": name, "mesh": to_json(m, &n)})).collect()
            };
            (out, meshes)
        }
        Err(e) => {
            out["err"] = json!(import_err(&e));
            (out, vec![])
        }
    }
}
impl State {
    fn mesh(&mut self, op: &Value) -> &mut TMFMesh {
        self.meshes.entry(op["m"].as_str().expect("harness: m").to_owned()).or_default()
    }
    fn blob(&self, op: &Value) -> Vec<u8> {
        let mut b = match op["src"].as_str() {
            Some(src) => self.blobs.get(src).cloned().unwrap_or_default(),
            None => match op["text"].as_str() {
                Some(t) => t.as_bytes().to_vec(),
                None => unhex(op["bytes"].as_str().expect("harness: no source")),
            },
        };
        if let Some(cut) = op["cut"].as_i64() {
            let n = if cut < 0 { b.len().saturating_sub(-cut as usize) } else { b.len().min(cut as usize) };
            b.truncate(n);
        }
        if let Some(tail) = op["tail"].as_str() {
            b.extend(unhex(tail));
        }
        b
    }
    fn list(&self, op: &Value) -> Vec<(TMFMesh, String)> {
        let get = |m: &str| self.meshes.get(m).expect("harness: unknown mesh").clone();
        match &op["list"] {
            Value::String(l) => match self.lists.get(l) {
                Some(l) => l.iter().map(|(m, n)| (get(m), n.clone())).collect(),
                None => vec![],
            },
            Value::Array(a) => a
                .iter()
                .map(|e| {
                    let name = match &e[1] {
                        Value::String(s) => s.clone(),
                        // A long name: [text, repetitions]
                        r => r[0].as_str().unwrap().repeat(r[1].as_u64().unwrap() as usize),
                    };
                    (get(e[0].as_str().unwrap()), name)
                })
                .collect(),
            _ => panic!("harness: list"),
        }
    }
    fn keep(&mut self, op: &Value, meshes: Vec<(TMFMesh, String)>) {
        if let Some(out) = op["out"].as_str() {
            let mut list = vec![];
            for (i, (m, n)) in meshes.into_iter().enumerate() {
                let reg = format!("{out}{i}");
                self.meshes.insert(reg.clone(), m);
                list.push((reg, n));
            }
            self.lists.insert(out.to_owned(), list);
        }
    }
    fn sink(op: &Value) -> ScriptWriter {
        ScriptWriter {
            data: vec![],
            script: Script::from(&op["sink"]),
            fail_flush: op["sink"]["fail_flush"].as_bool().unwrap_or(false),
            zero: op["sink"]["zero"].as_bool().unwrap_or(false),
        }
    }
    fn written(&mut self, op: &Value, res: Result<(), String>, w: ScriptWriter, peak: usize) -> Value {
        let mut r = json!({"len": w.data.len(), "peak": peak, "failed": w.script.failed});
        let data = w.data;
        match res {
            Ok(()) => r["ok"] = json!(true),
            Err(e) => r["err"] = json!(e),
        }
        if op["bytes"].as_bool().unwrap_or(true) {
            r["bytes"] = json!(hex(&data));
        }
        if let Some(out) = op["out"].as_str() {
            self.blobs.insert(out.to_owned(), data);
        }
        r
    }
    pub fn exec(&mut self, op: &Value) -> Value {
        match op["op"].as_str().expect("harness: op") {
            "mesh" => {
                *self.mesh(op) = from_json(&op["mesh"]);
                json!({})
            }
            "copy" => {
                let m = self.mesh(op).clone();
                self.meshes.insert(op["to"].as_str().unwrap().to_owned(), m);
                json!({})
            }
            "set" => self.set(op),
            "append" => self.append(op),
            "get" => {
                let r = to_json(self.mesh(op), &[]);
                json!({"val": r[op["attr"].as_str().unwrap()]})
            }
            "buffer" => {
                let m = self.mesh(op);
                let val = match op["attr"].as_str().unwrap() {
                    "v" => m.get_vertex_buffer().map(|b| mesh::v3(&b)),
                    "n" => m.get_normal_buffer().map(|b| mesh::v3(&b)),
                    "u" => m.get_uv_buffer().map(|b| mesh::v2(&b)),
                    _ => panic!("harness: buffer"),
                };
                json!({ "val": val })
            }
            "custom" => {
                let c = &op["c"];
                let name = match &c["name"] {
                    Value::String(s) => s.clone(),
                    r => r[0].as_str().unwrap().repeat(r[1].as_u64().unwrap() as usize),
                };
                match self.mesh(op).add_custom_data(mesh::custom(c), &name) {
                    Ok(()) => json!({"ok": true}),
                    Err(DataSegmentError::NoName) => json!({"err": "NoName"}),
                    Err(DataSegmentError::NameTooLong) => json!({"err": "NameTooLong"}),
                }
            }
            "many_custom" => {
                // Adds `n` arrays named prefix0.. of one index each, the index being the number.
                let (n, prefix) = (op["n"].as_u64().unwrap(), op["prefix"].as_str().unwrap().to_owned());
                let m = self.mesh(op);
                for i in 0..n {
                    m.add_custom_data([i as tmf::IndexType][..].into(), &format!("{prefix}{i}")).unwrap();
                }
                json!({})
            }
            "lookup" => {
                let name = match &op["name"] {
                    Value::String(s) => s.clone(),
                    r => r[0].as_str().unwrap().repeat(r[1].as_u64().unwrap() as usize),
                };
                match self.mesh(op).lookup_custom_data(&name) {
                    Some(c) => json!({"val": mesh::custom_to_json(c), "views": mesh::views(c)}),
                    None => json!({"val": null, "views": []}),
                }
            }
            "snap" => {
                let n = names(&op["names"]);
                json!({"mesh": to_json(self.mesh(op), &n)})
            }
            "verify" => match self.mesh(op).verify() {
                Ok(()) => json!({"ok": true}),
                Err(e) => {
                    let mut out = vec![];
                    status(&e, &mut out);
                    // Reporting a fault must work too.
                    let text = format!("{e} {e:?}").len();
                    json!({"err": out, "text": text > 0})
                }
            },
            "normalize" => {
                self.mesh(op).normalize();
                json!({})
            }
            "unify" => {
                self.mesh(op).unify_index_data();
                json!({})
            }
            "reorder" => {
                self.mesh(op).reorder_data();
                json!({})
            }
            "blob" => {
                let b = self.blob(op);
                self.blobs.insert(op["out"].as_str().unwrap().to_owned(), b);
                json!({})
            }
            "patch" => {
                let mut b = self.blob(op);
                for e in op["set"].as_array().unwrap() {
                    let (at, to) = (e[0].as_i64().unwrap(), e[1].as_u64().unwrap() as u8);
                    let at = if at < 0 { b.len() as i64 + at } else { at } as usize;
                    if at < b.len() {
                        b[at] = to;
                    }
                }
                let r = json!({"bytes": hex(&b)});
                self.blobs.insert(op["out"].as_str().unwrap().to_owned(), b);
                r
            }
            "save" => {
                let list = self.list(op);
                let prec = mesh::prec(&op["prec"]);
                let mut w = Self::sink(op);
                let base = crate::mem::reset();
                let res = if op["one"].as_bool().unwrap_or(false) {
                    let (m, n) = &list[0];
                    m.write_tmf_one(&mut w, &prec, n.as_str())
                } else {
                    TMFMesh::write_tmf(&list, &mut w, &prec)
                };
                let peak = crate::mem::peak(base);
                self.written(op, res.map_err(|e| export_err(&e)), w, peak)
            }
            "load" => {
                let data = self.blob(op);
                let (r, meshes) = load(op, &data);
                self.keep(op, meshes);
                r
            }
            "cuts" => {
                let data = self.blob(op);
                let all: Vec<usize> = match op["at"].as_array() {
                    Some(a) => a.iter().map(|c| c.as_u64().unwrap() as usize).filter(|c| *c < data.len()).collect(),
                    None => (0..data.len()).collect(),
                };
                let outs: Vec<Value> = all
                    .iter()
                    .map(|c| {
                        let r = guarded(|| load(op, &data[..*c]).0);
                        let o = match r.get("err").or(r.get("panic")) {
                            Some(e) => e.clone(),
                            None => json!("ok"),
                        };
                        json!([c, o])
                    })
                    .collect();
                json!({"len": data.len(), "outs": outs})
            }
            "obj_save" => {
                let list = self.list(op);
                let mut w = Self::sink(op);
                let base = crate::mem::reset();
                let res = if op["one"].as_bool().unwrap_or(false) {
                    let (m, n) = &list[0];
                    m.write_obj_one(&mut w, n)
                } else {
                    TMFMesh::write_obj(&list, &mut w)
                };
                let peak = crate::mem::peak(base);
                self.written(op, res.map_err(|e| io_err(&e)), w, peak)
            }
            "obj_load" => {
                let data = self.blob(op);
                let mut reader = ScriptReader { data: &data, pos: 0, script: Script::from(&op["reader"]) };
                let res = if op["one"].as_bool().unwrap_or(false) {
                    TMFMesh::read_from_obj_one(&mut reader).map(|m| vec![m])
                } else {
                    TMFMesh::read_from_obj(&mut reader)
                };
                match res {
                    Ok(meshes) => {
                        let ok: Value = meshes
                            .iter()
                            .map(|(m, n)| {
                                json!({"name": n, "mesh": to_json(m, &[]),
                                    "vb": m.get_vertex_buffer().map(|b| mesh::v3(&b)),
                                    "nb": m.get_normal_buffer().map(|b| mesh::v3(&b)),
                                    "ub": m.get_uv_buffer().map(|b| mesh::v2(&b))})
                            })
                            .collect();
                        self.keep(op, meshes);
                        json!({ "ok": ok, "failed": reader.script.failed })
                    }
                    Err(e) => json!({"err": io_err(&e), "failed": reader.script.failed}),
                }
            }
            "uba" => uba(op),
            "concurrent" => {
                let loads: Vec<(Value, Vec<u8>)> =
                    op["loads"].as_array().unwrap().iter().map(|l| (l.clone(), self.blob(l))).collect();
                let threads: Vec<_> = loads
                    .into_iter()
                    .map(|(l, data)| std::thread::spawn(move || guarded(|| load(&l, &data).0)))
                    .collect();
                let res: Vec<Value> = threads.into_iter().map(|t| t.join().unwrap()).collect();
                json!({ "loads": res })
            }
            op => panic!("harness: unknown op {op}"),
        }
    }
    fn set(&mut self, op: &Value) -> Value {
        let d = &op["data"];
        let m = self.mesh(op);
        let old = match op["attr"].as_str().unwrap() {
            "v" => m.set_vertices(mesh::vec3(d)).map(|o| mesh::v3(&o)),
            "n" => m.set_normals(mesh::vec3(d)).map(|o| mesh::v3(&o)),
            "u" => m.set_uvs(mesh::vec2(d)).map(|o| mesh::v2(&o)),
            "t" => m.set_tangents(mesh::tangents(d)).map(|o| mesh::tans(&o)),
            "vt" => m.set_vertex_triangles(mesh::idx(d)).map(|o| json!(o)),
            "nt" => m.set_normal_triangles(mesh::idx(d)).map(|o| json!(o)),
            "ut" => m.set_uv_triangles(mesh::idx(d)).map(|o| json!(o)),
            "tt" => m.set_tangent_triangles(mesh::idx(d)).map(|o| json!(o)),
            _ => panic!("harness: attr"),
        };
        json!({ "old": old })
    }
    fn append(&mut self, op: &Value) -> Value {
        let d = &op["data"];
        let m = self.mesh(op);
        match op["attr"].as_str().unwrap() {
            "v" => m.append_vertices(&mesh::vec3(d)),
            "n" => m.append_normals(&mesh::vec3(d)),
            "u" => m.append_uvs(&mesh::vec2(d)),
            "t" => m.append_tangents(&mesh::tangents(d)),
            "vt" => m.append_vertex_triangles(&mesh::idx(d)),
            "nt" => m.append_normal_triangles(&mesh::idx(d)),
            "ut" => m.append_uv_triangles(&mesh::idx(d)),
            "tt" => m.append_tangent_triangles(&mesh::idx(d)),
            _ => panic!("harness: attr"),
        }
        json!({})
    }
}
/// Writes values with the unaligned writer and/or reads with the unaligned reader.
fn uba(op: &Value) -> Value {
    use tmf::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
    let mode = |v: &Value| UnalignedRWMode::precision_bits(v.as_u64().unwrap() as u8);
    let mut data = vec![];
    if let Some(ws) = op["writes"].as_array() {
        let mut sink = ScriptWriter { data: vec![], script: Script::from(&op["sink"]), fail_flush: false, zero: false };
        {
            let mut w = UnalignedWriter::new(&mut sink);
            for e in ws {
                if e[0].as_str() == Some("bit") {
                    w.write_bit(e[1].as_u64().unwrap() == 1).unwrap();
                } else if e[0].as_str() == Some("flush") {
                    w.flush().unwrap();
                } else {
                    w.write_unaligned(mode(&e[0]), e[1].as_u64().unwrap()).unwrap();
                }
            }
            if op["flush"].as_bool().unwrap_or(false) {
                w.flush().unwrap();
            }
        }
        data = sink.data;
    } else if let Some(b) = op["bytes"].as_str() {
        data = unhex(b);
    }
    let mut outs = vec![];
    {
        let mut src = ScriptReader { data: &data, pos: 0, script: Script::from(&op["reader"]) };
        let mut r = UnalignedReader::new(&mut src);
        for e in op["reads"].as_array().map(|a| &a[..]).unwrap_or(&[]) {
            let one = guarded(|| {
                let res = match e[0].as_str().unwrap() {
                    "r1" => r.read_unaligned(mode(&e[1])).map(|a| vec![a]),
                    "r2" => r.read2_unaligned(mode(&e[1])).map(|(a, b)| vec![a, b]),
                    "r3" => r.read3_unaligned(mode(&e[1])).map(|(a, b, c)| vec![a, b, c]),
                    "pair" => r.read_pair_unaligned(mode(&e[1]), mode(&e[2])).map(|(a, b)| vec![a, b]),
                    "bit" => r.read_bit().map(|b| vec![b as u64]),
                    _ => panic!("harness: read"),
                };
                match res {
                    Ok(v) => json!({ "ok": v }),
                    Err(e) => json!({"err": io_err(&e)}),
                }
            });
            let stop = one.get("ok").is_none();
            outs.push(one);
            if stop {
                break;
            }
        }
    }
    json!({"bytes": hex(&data), "reads": outs})
}
