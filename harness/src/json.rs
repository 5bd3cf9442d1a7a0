//! A minimal JSON writer.
pub struct W {
    s: String,
    comma: bool,
}

impl W {
    pub fn new() -> Self {
        W { s: String::new(), comma: false }
    }
    pub fn done(self) -> String {
        self.s
    }
    fn sep(&mut self) {
        if self.comma {
            self.s.push(',');
        }
        self.comma = true;
    }
    pub fn key(&mut self, k: &str) -> &mut Self {
        self.str(k);
        self.s.push(':');
        self.comma = false;
        self
    }
    pub fn obj(&mut self, f: impl FnOnce(&mut Self)) {
        self.sep();
        self.s.push('{');
        self.comma = false;
        f(self);
        self.s.push('}');
        self.comma = true;
    }
    pub fn arr(&mut self, f: impl FnOnce(&mut Self)) {
        self.sep();
        self.s.push('[');
        self.comma = false;
        f(self);
        self.s.push(']');
        self.comma = true;
    }
    pub fn num(&mut self, n: u64) {
        self.sep();
        // wrapped-around numbers must stay readable for the model checker
        self.s.push_str(&n.min(2_000_000_000).to_string());
    }
    pub fn bool(&mut self, b: bool) {
        self.num(b as u64);
    }
    pub fn str(&mut self, v: &str) {
        self.sep();
        self.s.push('"');
        for c in v.chars() {
            match c {
                '"' => self.s.push_str("\\\""),
                '\\' => self.s.push_str("\\\\"),
                c if (c as u32) < 0x20 => self.s.push_str(&format!("\\u{:04x}", c as u32)),
                c => self.s.push(c),
            }
        }
        self.s.push('"');
    }
    /// A text as its code points
    pub fn cps(&mut self, v: &str) {
        self.arr(|w| v.chars().for_each(|c| w.num(c as u64)));
    }
}
