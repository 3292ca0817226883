use crate::mapmode::scratch;
use crate::util;
use quarchitect::wad;
use serde_json::{json, Value};

fn rgb(c: &[wad::Color]) -> Vec<u8> {
    c.iter().flat_map(|c| vec![c.0, c.1, c.2]).collect()
}

fn name_codes(name: &str) -> Vec<u32> {
    name.chars().map(|c| c as u32).collect()
}

fn dims(t: &wad::MipTexture) -> Value {
    json!([t.width.min(268_435_456), t.height.min(268_435_456)])
}

fn read_once(case: &Value, path: &str) -> Value {
    let whitelist = case["white"].as_array().and_then(|a| {
        // [] : no whitelist; [[..]] : the names
        a.first().map(|l| util::strings(l))
    });
    let mips = case["mips"].as_u64().unwrap() as usize;
    let textures = match wad::read_textures(path, whitelist, mips) {
        Ok(t) => t,
        Err(e) => return json!({"st": "err"}),
    };
    let tex: Vec<Value> = textures
        .iter()
        .map(|t| {
            let mut levels = vec![t.mip_data.mip0.0.clone()];
            let mut present = vec![true];
            for m in [&t.mip_data.mip1, &t.mip_data.mip2, &t.mip_data.mip3] {
                present.push(m.is_some());
                if let Some(m) = m {
                    levels.push(m.0.clone());
                }
            }
            json!({"name": name_codes(&t.mip_texture.name), "dim": dims(&t.mip_texture),
                   "mips": levels, "present": present,
                   "pal": match &t.palette { Some(p) => vec![rgb(&p.0)], None => vec![] }})
        })
        .collect();

    // RGB conversion with and without a supplied palette
    let supplied = match case["palette"].as_str() {
        Some(p) => match wad::palette::read_palette(p) {
            Ok(p) => Some(p),
            Err(e) => return json!({"st": "palerr", "msg": e}),
        },
        None => None,
    };
    let conv: Vec<Value> = if case["convert"] == true {
        textures
            .into_iter()
            .map(|t| match t.into_rgb(supplied) {
                Err(e) => json!({"st": "err", "msg": e}),
                Ok(t) => {
                    let mut levels = vec![rgb(&t.mip_data.mip0)];
                    let mut present = vec![true];
                    for m in [&t.mip_data.mip1, &t.mip_data.mip2, &t.mip_data.mip3] {
                        present.push(m.is_some());
                        if let Some(m) = m {
                            levels.push(rgb(m));
                        }
                    }
                    json!({"st": "ok", "name": name_codes(&t.mip_texture.name),
                           "dim": dims(&t.mip_texture), "mips": levels, "present": present})
                }
            })
            .collect()
    } else {
        vec![]
    };
    json!({"st": "ok", "tex": tex, "rgb": conv})
}

type Reset = unsafe extern "C" fn(u32, i32, i32, i32, i32, i32);
type Failed = unsafe extern "C" fn() -> i32;

fn symbol(name: &str) -> Option<*mut libc::c_void> {
    let n = std::ffi::CString::new(name).unwrap();
    let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, n.as_ptr()) };
    if p.is_null() {
        None
    } else {
        Some(p)
    }
}

/// Sets up the preloaded read shim for one run: seed, largest piece, interrupts, delay, failing call
fn shim(case: &Value, run: u32) {
    if let Some(a) = case["shim"].as_array() {
        let p = symbol("qshim_reset").expect("the read shim is not loaded");
        let f: Reset = unsafe { std::mem::transmute(p) };
        let n = |i: usize| a[i].as_i64().unwrap() as i32;
        unsafe { f(n(0) as u32 + run, n(1), n(2), n(3), n(4), 0) };
    }
}

fn shim_failed(case: &Value) -> bool {
    if case["shim"].is_array() {
        let f: Failed = unsafe { std::mem::transmute(symbol("qshim_failed").unwrap()) };
        unsafe { f() != 0 }
    } else {
        false
    }
}

fn call(case: &Value, path: &str, run: u32) -> Value {
    shim(case, run);
    let mut o = if case["kind"] == "palette" {
        match wad::palette::read_palette(path) {
            Ok(p) => json!({"st": "ok", "pal": rgb(&p.0)}),
            Err(e) => json!({"st": "err", "msg": e}),
        }
    } else {
        read_once(case, path)
    };
    o["failed"] = json!(shim_failed(case));
    o["unstable"] = json!(false);
    o
}

pub fn run(case: &Value) -> Value {
    let name = if case["kind"] == "palette" { "case.lmp" } else { "case.wad" };
    let path = match case["path"].as_str() {
        Some(p) => p.to_string(),
        None => {
            let p = scratch(name);
            std::fs::write(&p, util::bytes(&case["hex"])).unwrap();
            p
        }
    };
    let mut case = case.clone();
    if case["palhex"].is_string() {
        let p = scratch("supplied.palette");
        std::fs::write(&p, util::bytes(&case["palhex"])).unwrap();
        case["palette"] = json!(p);
    }
    let repeat = case["repeat"].as_u64().unwrap_or(1) as u32;
    let first = call(&case, &path, 0);
    let text = first.to_string();
    for i in 1..repeat {
        let mut again = call(&case, &path, i);
        if again.to_string() != text {
            // the first deviating run is the observation
            again["unstable"] = json!(true);
            return again;
        }
    }
    first
}
