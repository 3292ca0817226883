use crate::util::{self, q, s, strings};
use quarchitect::game_data::{
    self, forge, CollisionType, ComponentType, EntityType, Properties, Property,
    PropertyApplicationType, VisualType, WorldspawnLayer,
};
use quarchitect::scene_tree::{CollisionGeometry, SceneTreeNode, SceneTreeType, VisualGeometry};
use quarchitect::{Color, Config, Texture, TextureBlacklist, TextureInfo, Vector3};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fmt::Write;

// ---------------------------------------------------------------- input

fn entity_type(v: &Value) -> EntityType {
    match v[0].as_str() {
        Some("class") => EntityType::class(v[1].as_str().unwrap()),
        Some("prefab") => EntityType::prefab(v[1].as_str().unwrap()),
        _ => EntityType::Placeholder,
    }
}

fn component(v: &Value) -> ComponentType {
    match v.as_array().and_then(|a| a.first()) {
        Some(c) => ComponentType::Script(s(c)),
        None => ComponentType::None,
    }
}

fn application(v: &Value) -> PropertyApplicationType {
    match v.as_str() {
        Some("D") => PropertyApplicationType::Dictionary,
        Some("M") => PropertyApplicationType::Metadata,
        _ => PropertyApplicationType::Properties,
    }
}

fn visual(v: &Value) -> VisualType {
    match v.as_str() {
        Some("mesh") => VisualType::Mesh,
        _ => VisualType::None,
    }
}

fn collision(v: &Value) -> CollisionType {
    match v.as_str() {
        Some("convex") => CollisionType::Convex,
        Some("concave") => CollisionType::Concave,
        _ => CollisionType::None,
    }
}

fn milli(v: &Value) -> f32 {
    (v.as_i64().unwrap_or(0) as f64 / 1000.0) as f32
}

pub fn property_data(kind: &str, d: &Value) -> forge::PropertyData {
    use forge::PropertyData as P;
    let vec3 = |d: &Value| Vector3::new(milli(&d[0]), milli(&d[1]), milli(&d[2]));
    let int = |d: &Value| d.as_i64().unwrap_or(0) as i32;
    match kind {
        "I" => P::Integer(int(d)),
        "F" => P::Float(milli(d)),
        "V" => P::Vector3(vec3(d)),
        "S" => P::String(s(d)),
        "C" => P::Color(Color::new(milli(&d[0]), milli(&d[1]), milli(&d[2]))),
        "H" => P::Choices(Vec::new(), int(d)),
        "L" => P::Flags(Vec::new(), int(d)),
        "TS" => P::TargetSource,
        _ => P::TargetDestination,
    }
}

fn array(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

fn config(file: &str, c: &Value) -> Config {
    let mut info: HashMap<String, Texture> = HashMap::new();
    for t in array(&c["tex"]) {
        info.insert(
            s(&t[0]),
            Texture::new(t[1].as_u64().unwrap() as u32, t[2].as_u64().unwrap() as u32),
        );
    }
    let blacklist = TextureBlacklist::new(strings(&c["blb"]), strings(&c["blp"]));
    let definitions = array(&c["forge"])
        .iter()
        .map(|e| {
            let props = array(&e["props"])
                .iter()
                .map(|p| {
                    forge::Property::new(
                        p[0].as_str().unwrap(),
                        "",
                        "",
                        property_data(p[1].as_str().unwrap(), &p[2]),
                    )
                })
                .collect();
            forge::Entity::new(
                forge::ClassType::PointClass,
                Vec::new(),
                e["cls"].as_str().unwrap(),
                "",
                props,
            )
        })
        .collect();
    let forge_data = forge::GameData::new(String::new(), Vec::new(), definitions);
    let entities = array(&c["defs"])
        .iter()
        .map(|e| {
            if e["kind"] == "brush" {
                game_data::Entity::brush(
                    s(&e["cls"]),
                    entity_type(&e["et"]),
                    component(&e["comp"]),
                    application(&e["app"]),
                    Properties::default(),
                    visual(&e["vis"]),
                    collision(&e["col"]),
                )
            } else {
                game_data::Entity::point(
                    s(&e["cls"]),
                    entity_type(&e["et"]),
                    component(&e["comp"]),
                    application(&e["app"]),
                    Properties::default(),
                )
            }
        })
        .collect();
    let worldspawn_layers = array(&c["layers"])
        .iter()
        .map(|l| {
            WorldspawnLayer::new(
                s(&l["name"]),
                s(&l["tex"]),
                entity_type(&l["et"]),
                component(&l["comp"]),
                visual(&l["vis"]),
                collision(&l["col"]),
            )
        })
        .collect();
    Config::new(
        file,
        TextureInfo(info),
        blacklist,
        forge_data,
        game_data::GameData {
            entities,
            worldspawn_layers,
        },
    )
}

// ---------------------------------------------------------------- output

struct View {
    shift: [f64; 3],
    pos: f64,
    unit: f64,
    uv: f64,
}

impl View {
    fn position(&self, v: Vector3) -> Value {
        json!([
            q(v.x() as f64 - self.shift[0], self.pos),
            q(v.y() as f64 - self.shift[1], self.pos),
            q(v.z() as f64 - self.shift[2], self.pos)
        ])
    }
    fn offset(&self, v: Vector3) -> Value {
        json!([
            q(v.x() as f64, self.pos),
            q(v.y() as f64, self.pos),
            q(v.z() as f64, self.pos)
        ])
    }
    fn direction(&self, v: Vector3) -> Value {
        json!([
            q(v.x() as f64, self.unit),
            q(v.y() as f64, self.unit),
            q(v.z() as f64, self.unit)
        ])
    }
}

fn index(i: usize) -> i64 {
    i.min(1_000_000_000) as i64
}

fn exact_duplicates<T: PartialEq>(items: &[T]) -> Vec<Value> {
    let mut out = Vec::new();
    for i in 0..items.len() {
        for j in i + 1..items.len() {
            if items[i] == items[j] && out.len() < 50 {
                out.push(json!([i, j]));
            }
        }
    }
    out
}

fn entity_type_obs(t: &EntityType) -> Value {
    match t {
        EntityType::Placeholder => json!(["placeholder", ""]),
        EntityType::Class(c) => json!(["class", c]),
        EntityType::Prefab(c) => json!(["prefab", c]),
    }
}

fn property_obs(p: &Property) -> Value {
    let m = |x: f32| crate::util::q_upto(x as f64, 1000.0, 1.9e9);
    match p {
        Property::Integer(i) => json!(["I", i]),
        Property::Float(f) => json!(["F", m(*f)]),
        Property::Vector3(v) => json!(["V", [m(v.x()), m(v.y()), m(v.z())]]),
        Property::String(t) => json!(["S", t]),
        Property::Color(c) => json!(["C", [m(c.r), m(c.g), m(c.b)]]),
        Property::Choices(i) => json!(["H", i]),
        Property::Flags(i) => json!(["L", i]),
        Property::TargetSource => json!(["TS", ""]),
        Property::TargetDestination => json!(["TD", ""]),
    }
}

fn flatten(nodes: &[SceneTreeNode], parent: usize, view: &View, out: &mut Vec<Value>) {
    for node in nodes {
        match &node.data {
            SceneTreeType::Actor(actor, children) => {
                let origin = if parent == 0 {
                    view.position(node.origin)
                } else {
                    view.offset(node.origin)
                };
                let mut keys: Vec<&String> = actor.properties.0.keys().collect();
                keys.sort();
                let props: Vec<Value> = keys
                    .iter()
                    .map(|k| json!([k, property_obs(&actor.properties.0[*k])]))
                    .collect();
                let app = match actor.property_application_type {
                    PropertyApplicationType::Properties => "P",
                    PropertyApplicationType::Dictionary => "D",
                    PropertyApplicationType::Metadata => "M",
                };
                out.push(json!({"par": parent, "k": "actor", "o": origin, "name": actor.name,
                    "zero": node.origin == Vector3::new(0.0, 0.0, 0.0),
                    "et": entity_type_obs(&actor.entity_type),
                    "comp": actor.component_class.iter().collect::<Vec<_>>(),
                    "app": app, "props": props}));
                let me = out.len();
                flatten(children, me, view, out);
            }
            SceneTreeType::VisualGeometry(visual) => {
                let mut surfs = Vec::new();
                let mut kind = "none";
                if let VisualGeometry::Mesh(mesh) = visual {
                    kind = "mesh";
                    for m in &mesh.surfaces {
                        let tangents: Vec<Value> = m
                            .tangents
                            .iter()
                            .map(|(t, h)| {
                                let mut v = view.direction(*t);
                                v.as_array_mut().unwrap().push(json!(q(*h as f64, 1.0)));
                                v
                            })
                            .collect();
                        let uvs: Vec<Value> = match &m.uvs {
                            Some(uvs) => vec![json!(uvs
                                .iter()
                                .map(|t| json!([q(t.x() as f64, view.uv), q(t.y() as f64, view.uv)]))
                                .collect::<Vec<_>>())],
                            None => vec![],
                        };
                        let cols: Vec<Value> = match &m.colors {
                            Some(c) => vec![json!(c
                                .iter()
                                .map(|c| json!([
                                    q(c.r as f64, 1000.0),
                                    q(c.g as f64, 1000.0),
                                    q(c.b as f64, 1000.0)
                                ]))
                                .collect::<Vec<_>>())],
                            None => vec![],
                        };
                        let dup = if m.normals.len() == m.vertices.len()
                            && m.tangents.len() == m.vertices.len()
                        {
                            let all: Vec<_> = (0..m.vertices.len())
                                .map(|i| {
                                    (
                                        m.vertices[i],
                                        m.normals[i],
                                        m.tangents[i],
                                        m.uvs.as_ref().and_then(|u| u.get(i).copied()),
                                        m.colors.as_ref().and_then(|c| c.get(i).copied()),
                                    )
                                })
                                .collect();
                            exact_duplicates(&all)
                        } else {
                            vec![]
                        };
                        surfs.push(json!({
                            "tex": m.texture.iter().collect::<Vec<_>>(),
                            "v": m.vertices.iter().map(|v| view.position(*v)).collect::<Vec<_>>(),
                            "n": m.normals.iter().map(|v| view.direction(*v)).collect::<Vec<_>>(),
                            "t": tangents, "uv": uvs, "col": cols,
                            "idx": m.indices.iter().map(|i| index(*i)).collect::<Vec<_>>(),
                            "dup": dup}));
                    }
                }
                out.push(json!({"par": parent, "k": "vis", "o": view.position(node.origin),
                    "zero": node.origin == Vector3::new(0.0, 0.0, 0.0), "vk": kind, "surfs": surfs}));
            }
            SceneTreeType::CollisionGeometry(collision) => {
                let (kind, shapes): (&str, Vec<Value>) = match collision {
                    CollisionGeometry::None => ("none", vec![]),
                    CollisionGeometry::Convex(shapes) => (
                        "convex",
                        shapes
                            .iter()
                            .map(|c| {
                                json!({"c": view.position(c.center),
                                "zero": c.center == Vector3::new(0.0, 0.0, 0.0),
                                "v": c.points.iter().map(|p| view.position(*p)).collect::<Vec<_>>(),
                                "idx": [], "dup": exact_duplicates(&c.points)})
                            })
                            .collect(),
                    ),
                    CollisionGeometry::Concave(shapes) => (
                        "concave",
                        shapes
                            .iter()
                            .map(|c| {
                                json!({"c": view.position(c.center),
                                "zero": c.center == Vector3::new(0.0, 0.0, 0.0),
                                "v": c.vertices.iter().map(|p| view.position(*p)).collect::<Vec<_>>(),
                                "idx": c.indices.iter().map(|i| index(*i)).collect::<Vec<_>>(),
                                "dup": exact_duplicates(&c.vertices)})
                            })
                            .collect(),
                    ),
                };
                out.push(json!({"par": parent, "k": "col", "o": view.position(node.origin),
                    "zero": node.origin == Vector3::new(0.0, 0.0, 0.0), "ck": kind, "shapes": shapes}));
            }
        }
    }
}

/// Bit-exact text of a node (own data only; properties sorted by name).
fn exact(node: &SceneTreeNode) -> String {
    let mut t = String::new();
    let v3 = |v: Vector3| {
        format!(
            "{:08x}{:08x}{:08x}",
            v.x().to_bits(),
            v.y().to_bits(),
            v.z().to_bits()
        )
    };
    let _ = write!(t, "@{}", v3(node.origin));
    match &node.data {
        SceneTreeType::Actor(a, _) => {
            let _ = write!(
                t,
                "A{:?}{:?}{:?}{:?}",
                a.name, a.entity_type, a.component_class, a.property_application_type
            );
            let mut keys: Vec<&String> = a.properties.0.keys().collect();
            keys.sort();
            for k in keys {
                let _ = write!(t, "|{:?}={:?}", k, a.properties.0[k]);
            }
        }
        SceneTreeType::VisualGeometry(v) => {
            let _ = write!(t, "V");
            if let VisualGeometry::Mesh(m) = v {
                for m in &m.surfaces {
                    let _ = write!(t, "S{:?}", m.texture);
                    for v in &m.vertices {
                        t += &v3(*v);
                    }
                    t += "n";
                    for v in &m.normals {
                        t += &v3(*v);
                    }
                    t += "t";
                    for (v, h) in &m.tangents {
                        let _ = write!(t, "{}{:08x}", v3(*v), h.to_bits());
                    }
                    t += "u";
                    if let Some(u) = &m.uvs {
                        for u in u {
                            let _ = write!(t, "{:08x}{:08x}", u.x().to_bits(), u.y().to_bits());
                        }
                    }
                    t += "c";
                    if let Some(c) = &m.colors {
                        for c in c {
                            let _ = write!(
                                t,
                                "{:08x}{:08x}{:08x}",
                                c.r.to_bits(),
                                c.g.to_bits(),
                                c.b.to_bits()
                            );
                        }
                    }
                    let _ = write!(t, "i{:?}", m.indices);
                }
            }
        }
        SceneTreeType::CollisionGeometry(c) => match c {
            CollisionGeometry::None => t += "N",
            CollisionGeometry::Convex(shapes) => {
                for s in shapes {
                    let _ = write!(t, "X{}", v3(s.center));
                    for p in &s.points {
                        t += &v3(*p);
                    }
                }
            }
            CollisionGeometry::Concave(shapes) => {
                for s in shapes {
                    let _ = write!(t, "Y{}", v3(s.center));
                    for p in &s.vertices {
                        t += &v3(*p);
                    }
                    let _ = write!(t, "i{:?}", s.indices);
                }
            }
        },
    }
    t
}

/// Per actor: name, digest of its own data, digests of its own geometry nodes;
/// and one digest over the whole tree including the structure.
fn digests(nodes: &[SceneTreeNode], path: &str, actors: &mut Vec<Value>, whole: &mut String) {
    for node in nodes {
        let text = exact(node);
        let _ = write!(whole, "({}", text);
        if let SceneTreeType::Actor(a, children) = &node.data {
            let mut own = text.clone();
            for c in children {
                if !matches!(c.data, SceneTreeType::Actor(..)) {
                    own += &exact(c);
                }
            }
            let path = format!("{}/{}", path, a.name);
            actors.push(json!([path, a.name, util::digest(&own)]));
            digests(children, &path, actors, whole);
        }
        whole.push(')');
    }
}

pub fn case_bytes(case: &Value, lines: &str, hex: &str) -> Vec<u8> {
    if let Some(a) = case[lines].as_array() {
        let eol = if case["eol"] == "crlf" { "\r\n" } else { "\n" };
        let mut t = String::new();
        for l in a {
            t += l.as_str().unwrap();
            t += eol;
        }
        if case["noeol"] == true {
            t.truncate(t.len().saturating_sub(eol.len()));
        }
        t.into_bytes()
    } else {
        util::bytes(&case[hex])
    }
}

pub fn scratch(name: &str) -> String {
    let dir = std::env::var("QH_SCRATCH").expect("QH_SCRATCH");
    format!("{}/{}", dir, name)
}

pub fn run(case: &Value) -> Value {
    let path = match case["path"].as_str() {
        Some(p) => p.to_string(),
        None => {
            let p = scratch("case.map");
            std::fs::write(&p, case_bytes(case, "lines", "hex")).unwrap();
            p
        }
    };
    let view = View {
        shift: [
            case["shift"][0].as_f64().unwrap_or(0.0),
            case["shift"][1].as_f64().unwrap_or(0.0),
            case["shift"][2].as_f64().unwrap_or(0.0),
        ],
        pos: case["qp"].as_f64().unwrap_or(256.0),
        unit: case["qn"].as_f64().unwrap_or(10000.0),
        uv: case["quv"].as_f64().unwrap_or(1024.0),
    };
    let detail = case["detail"].as_str().unwrap_or("full");
    let process = |path: &str, cfg: &Value| -> Value {
        match quarchitect::run(config(path, cfg)) {
            Err(e) => json!({"st": "err", "msg": e.to_string()}),
            Ok(nodes) => {
                if detail == "digest" {
                    let mut actors = Vec::new();
                    let mut whole = String::new();
                    digests(&nodes, "", &mut actors, &mut whole);
                    json!({"st": "ok", "whole": util::digest(&whole), "actors": actors})
                } else if detail == "status" {
                    json!({"st": "ok"})
                } else {
                    let mut out = Vec::new();
                    flatten(&nodes, 0, &view, &mut out);
                    json!({"st": "ok", "nodes": out})
                }
            }
        }
    };
    if detail != "digest" {
        return process(&path, &case["cfg"]);
    }
    // A history of runs, of the map and of a changed map
    let mut runs: Vec<Value> = Vec::new();
    let changed = if case["changed"].is_object() {
        let p = scratch("changed.map");
        std::fs::write(&p, case_bytes(&case["changed"], "lines", "hex")).unwrap();
        Some(p)
    } else {
        None
    };
    for _ in 0..case["repeat"].as_u64().unwrap_or(1) {
        let mut one = |inp: &str, path: &str, cfg: &Value| {
            let mut r = process(path, cfg);
            if r["st"] != "ok" {
                r = json!({"st": r["st"], "whole": "", "actors": []});
            }
            r["inp"] = json!(inp);
            runs.push(r);
        };
        one("base", &path, &case["cfg"]);
        if let Some(p) = &changed {
            one("changed", p, &case["changed"]["cfg"]);
        }
    }
    json!({"st": "ok", "runs": runs})
}

// ---------------------------------------------------------------- diff

pub fn run_diff(case: &Value) -> Value {
    let a = scratch("a.map");
    let b = scratch("b.map");
    for (path, side, hex) in [(&a, "a", "ahex"), (&b, "b", "bhex")] {
        let bytes = case_bytes(case, side, hex);
        let _ = std::fs::remove_file(path);
        let _ = std::fs::remove_dir(path);
        match case[format!("{side}kind")].as_str() {
            Some("missing") => (),
            Some("directory") => std::fs::create_dir(path).unwrap(),
            Some("not text") => std::fs::write(path, [&bytes[..], b"\xff\xfe\n"].concat()).unwrap(),
            _ => std::fs::write(path, bytes).unwrap(),
        }
    }
    let out = scratch("diff.out");
    util::redirect_stdout(&out);
    let r = std::panic::catch_unwind(|| quarchitect::run_diff(&a, &b).map_err(|e| e.to_string()));
    util::redirect_stdout("/dev/null");
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(Err(e)) => json!({"st": "err", "msg": e}),
        Ok(Ok(())) => json!({"st": "ok", "out": text}),
    }
}
