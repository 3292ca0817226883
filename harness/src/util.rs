use serde_json::Value;

pub const NAN: i64 = 2_000_000_001;
pub const INF: i64 = 2_000_000_002;
pub const BIG: i64 = 2_000_000_003;

/// Fixed-point view of a number; sentinels above 2*10^9 for the rest.
pub fn q(x: f64, scale: f64) -> i64 {
    q_upto(x, scale, 4.0e8)
}

pub fn q_upto(x: f64, scale: f64, limit: f64) -> i64 {
    if x.is_nan() {
        NAN
    } else if x.is_infinite() {
        INF
    } else {
        let y = (x * scale).round();
        if y.abs() > limit {
            BIG
        } else {
            y as i64
        }
    }
}

pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}

pub fn strings(v: &Value) -> Vec<String> {
    match v.as_array() {
        Some(a) => a.iter().map(s).collect(),
        None => Vec::new(),
    }
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: bytes as libc::rlim_t,
            rlim_max: bytes as libc::rlim_t,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

pub fn silence_stdout() {
    redirect_stdout("/dev/null");
    unsafe {
        let path = std::ffi::CString::new("/dev/null").unwrap();
        let fd = libc::open(path.as_ptr(), libc::O_WRONLY);
        libc::dup2(fd, 2);
        libc::close(fd);
    }
}

pub fn redirect_stdout(path: &str) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let path = std::ffi::CString::new(path).unwrap();
        let fd = libc::open(
            path.as_ptr(),
            libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC,
            0o644,
        );
        libc::dup2(fd, 1);
        libc::close(fd);
    }
}

pub fn bytes(v: &Value) -> Vec<u8> {
    // hex text
    let t = v.as_str().unwrap_or("").as_bytes();
    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    t.chunks(2).map(|p| h(p[0]) * 16 + h(p[1])).collect()
}

/// FNV-1a, 64 bit, as hex
pub fn digest(text: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in text.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}
