//! Just enough JSON output.
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub fn strs(v: &[String]) -> String {
    arr(&v.iter().map(|s| esc(s)).collect::<Vec<_>>())
}
#[derive(Default)]
pub struct Obj(Vec<String>);
impl Obj {
    pub fn new() -> Self {
        Obj(vec![])
    }
    pub fn raw(mut self, k: &str, v: impl AsRef<str>) -> Self {
        self.0.push(format!("{}:{}", esc(k), v.as_ref()));
        self
    }
    pub fn s(self, k: &str, v: &str) -> Self {
        let e = esc(v);
        self.raw(k, e)
    }
    pub fn n(self, k: &str, v: u64) -> Self {
        self.raw(k, v.to_string())
    }
    pub fn b(self, k: &str, v: bool) -> Self {
        self.raw(k, if v { "true" } else { "false" })
    }
    pub fn end(self) -> String {
        format!("{{{}}}", self.0.join(","))
    }
}
