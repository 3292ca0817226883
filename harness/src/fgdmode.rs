use crate::mapmode::scratch;
use crate::util::{s, strings};
use quarchitect::game_data::forge::{
    Choice, ClassType, Entity, GameData, Metadata, Property, PropertyData,
};
use quarchitect::game_data::{CollisionType, ComponentType, EntityType, VisualType};
use quarchitect::{Color, Vector3};
use serde_json::{json, Value};

fn f(v: &Value) -> f32 {
    // [mantissa, negated exponent]; parsed as text, so correctly rounded
    format!("{}e{}", v[0].as_i64().unwrap(), -v[1].as_i64().unwrap()).parse().unwrap()
}
fn v3(v: &Value) -> Vector3 {
    Vector3::new(f(&v[0]), f(&v[1]), f(&v[2]))
}
fn byte_color(v: &Value) -> Color {
    let c = |v: &Value| v.as_i64().unwrap() as f32 / 1020.0;
    Color::new(c(&v[0]), c(&v[1]), c(&v[2]))
}
fn int(v: &Value) -> i32 {
    v.as_i64().unwrap() as i32
}

fn property(p: &Value) -> Property {
    let d = &p["d"];
    let data = match p["k"].as_str().unwrap() {
        "I" => PropertyData::Integer(int(d)),
        "F" => PropertyData::Float(f(d)),
        "V" => PropertyData::Vector3(v3(d)),
        "S" => PropertyData::String(s(d)),
        "C" => PropertyData::Color(byte_color(d)),
        "H" => PropertyData::Choices(
            p["l"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| {
                    let n = c[0].as_str().unwrap();
                    match c[1].as_str().unwrap() {
                        "I" => Choice::integer(n, int(&c[2])),
                        "F" => Choice::float(n, f(&c[2])),
                        _ => Choice::string(n, c[2].as_str().unwrap()),
                    }
                })
                .collect(),
            int(d),
        ),
        "L" => PropertyData::Flags(strings(&p["l"]), int(d)),
        "TS" => PropertyData::TargetSource,
        _ => PropertyData::TargetDestination,
    };
    Property::new(
        p["n"].as_str().unwrap(),
        p["sd"].as_str().unwrap(),
        p["ld"].as_str().unwrap(),
        data,
    )
}

fn metadata(m: &Value) -> Metadata {
    match m["k"].as_str().unwrap() {
        "base" => Metadata::base(strings(&m["d"])),
        "color" => Metadata::color(byte_color(&m["d"])),
        _ => Metadata::size(v3(&m["d"][0]), v3(&m["d"][1])),
    }
}

fn game_data(c: &Value) -> GameData {
    let definitions = c["defs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            Entity::new(
                match e["ct"].as_str().unwrap() {
                    "base" => ClassType::BaseClass,
                    "point" => ClassType::PointClass,
                    _ => ClassType::SolidClass,
                },
                e["meta"].as_array().unwrap().iter().map(metadata).collect(),
                e["cls"].as_str().unwrap(),
                e["desc"].as_str().unwrap(),
                e["props"].as_array().unwrap().iter().map(property).collect(),
            )
        })
        .collect();
    GameData::new(s(&c["name"]), strings(&c["inc"]), definitions)
}

fn codes() -> Value {
    // every value's code, and the code obtained after converting the code back
    let class = |c: ClassType| -> i64 { c.into() };
    let coll = |c: CollisionType| -> i64 { c.into() };
    let vis = |c: VisualType| -> i64 { c.into() };
    let comp = |c: ComponentType| -> i64 { c.into() };
    let et = |c: EntityType| -> i64 { c.into() };
    let z = Vector3::new(1.0, 2.0, 3.0);
    let named = |v: Vec<(&str, i64)>| -> Value {
        json!(v.into_iter().map(|(n, c)| json!([n, c])).collect::<Vec<_>>())
    };
    // every code that converts to a value
    let back = |f: &dyn Fn(i64) -> String| -> Value {
        let some = [i64::MIN, -(1 << 32), -(1 << 31), -256, i64::MAX, 1 << 32, (1 << 32) + 1, (1 << 33) + 2, 1 << 31, (1 << 40) + 1];
        let mut out = Vec::new();
        for c in (-70000..70000).chain(some) {
            if let Ok(name) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c))) {
                out.push(json!([c, name]));
            }
        }
        json!(out)
    };
    json!({
        "class": named(vec![("BaseClass", class(ClassType::BaseClass)),
                  ("PointClass", class(ClassType::PointClass)),
                  ("SolidClass", class(ClassType::SolidClass))]),
        "collision": named(vec![("None", coll(CollisionType::None)),
                  ("Convex", coll(CollisionType::Convex)),
                  ("Concave", coll(CollisionType::Concave))]),
        "visual": named(vec![("None", vis(VisualType::None)), ("Mesh", vis(VisualType::Mesh))]),
        "component": named(vec![("None", comp(ComponentType::None)),
                  ("Script", comp(ComponentType::Script("x".into()))),
                  ("Script", comp(ComponentType::Script(String::new())))]),
        "entity": named(vec![("Placeholder", et(EntityType::Placeholder)),
                  ("Class", et(EntityType::class("x"))), ("Class", et(EntityType::class(""))),
                  ("Prefab", et(EntityType::prefab("x"))), ("Prefab", et(EntityType::prefab("")))]),
        "metadata": named(vec![("Base", i32::from(Metadata::base(vec![])) as i64),
                  ("Base", i32::from(Metadata::base(vec!["a".into(), "b".into()])) as i64),
                  ("Color", i32::from(Metadata::color(Color::new(0.0, 0.5, 1.0))) as i64),
                  ("Size", i32::from(Metadata::size(z, z)) as i64)]),
        "class_back": back(&|c| format!("{:?}", ClassType::from(c))),
        "collision_back": back(&|c| format!("{:?}", CollisionType::from(c))),
        "visual_back": back(&|c| format!("{:?}", VisualType::from(c))),
    })
}

pub fn run(case: &Value) -> Value {
    if case["kind"] == "codes" {
        return json!({"st": "ok", "codes": codes()});
    }
    let data = game_data(&case["g"]);
    let text = data.to_string();
    let path = scratch("out.fgd");
    if case["stale"] == true {
        std::fs::write(&path, "old content ".repeat(2000)).unwrap();
    } else {
        let _ = std::fs::remove_file(&path);
    }
    let saved = match data.save(path.clone()) {
        Ok(()) => std::fs::read(&path).unwrap_or_default() == text.as_bytes(),
        Err(_) => false,
    };
    let bad = data.save(scratch("no/such/dir/x.fgd")).is_err();
    json!({"st": "ok", "text": text, "saved": saved, "badpath": bad})
}
