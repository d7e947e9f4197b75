//! Random files, one statement (with its layout) per step.
use crate::proj::Kind;
use crate::val::decode;
use std::sync::OnceLock;

/// Words and numbers that occur in the library's source (tools/harvest.py).
fn found() -> &'static (Vec<String>, Vec<String>) {
    static FOUND: OnceLock<(Vec<String>, Vec<String>)> = OnceLock::new();
    FOUND.get_or_init(|| {
        let v: Option<serde_json::Value> =
            std::env::var("FOUND").ok().and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok());
        let list = |k: &str| -> Vec<String> {
            v.as_ref().and_then(|v| v[k].as_array()).map_or(vec![], |a| a.iter().filter_map(|w| w.as_str()).map(decode).collect())
        };
        (list("words"), list("values"))
    })
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T: ?Sized>(&mut self, l: &[&'a T]) -> &'a T {
        l[self.below(l.len())]
    }
}

/// How to make files. `kinds` are statement kinds, the more often the likelier.
pub struct Profile {
    pub kinds: &'static [&'static str],
    pub bad: usize,      // percent of malformed lines
    pub noise: usize,    // percent of lines with unusual layout
    pub wild: usize,     // percent of names and numbers that are unusual
    pub more_bad_at_end: bool,
}

const OBJ: &[&str] = &[
    "v", "v", "v", "vn", "vn", "vt", "vt", "f", "f", "f", "l", "p", "g", "g", "usemtl", "usemap", "s", "bevel", "c_interp", "d_interp", "lod",
    "mtllib", "maplib", "shadow_obj", "trace_obj", "o", "again",
];
const MTL: &[&str] = &[
    "newmtl", "newmtl", "Ka", "Kd", "Ks", "Ke", "Tf", "Ns", "Tr", "Ni", "sharpness", "d", "illum", "map_aat", "map_Ka", "map_Kd", "map_Ks",
    "map_Ns", "map_d", "disp", "map_disp", "decal", "bump", "refl", "again",
];

pub fn profile(kind: Kind, name: &str) -> Profile {
    let (kinds, bad, noise, wild): (&'static [&'static str], usize, usize, usize) = match (kind, name) {
        (Kind::Obj, "data") => (&["v", "v", "vn", "vt", "again", "f", "g"], 0, 20, 40),
        (Kind::Obj, "refs") => (&["v", "vn", "vt", "f", "f", "f", "l", "l", "p", "p", "g", "again"], 0, 10, 10),
        (Kind::Obj, "groups") => (&["g", "g", "f", "l", "p", "v", "usemtl", "s", "o", "again", "mtllib"], 0, 10, 30),
        (Kind::Obj, "settings") => {
            (&["g", "g", "g", "usemtl", "usemap", "bevel", "c_interp", "d_interp", "lod", "f", "s", "o", "again"], 0, 10, 30)
        }
        (Kind::Obj, "smooth") => (&["s", "s", "f", "f", "f", "g", "usemtl", "o", "again", "v"], 0, 10, 30),
        (Kind::Obj, "libs") => (&["mtllib", "maplib", "shadow_obj", "trace_obj", "o", "g", "f", "usemtl", "usemap", "again"], 0, 10, 30),
        (Kind::Obj, "names") => (&["g", "o", "usemtl", "usemap", "mtllib", "maplib", "shadow_obj", "trace_obj"], 0, 20, 85),
        (Kind::Obj, "numbers") => (&["v", "vn", "vt"], 0, 5, 100),
        (Kind::Obj, "layout") => (OBJ, 3, 100, 20),
        (Kind::Obj, "bad") => (OBJ, 6, 10, 20),
        (Kind::Obj, "wild") => (OBJ, 10, 60, 80),
        (Kind::Obj, "mangled") => (OBJ, 5, 30, 40),
        (Kind::Obj, _) => (OBJ, 0, 15, 15),
        (Kind::Mtl, "colours") => (&["newmtl", "Ka", "Kd", "Ks", "Ke", "Tf", "again"], 0, 10, 30),
        (Kind::Mtl, "scalars") => (&["newmtl", "Ns", "Tr", "Ni", "sharpness", "d", "illum", "map_aat", "again"], 0, 10, 30),
        (Kind::Mtl, "maps") => (&["newmtl", "map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "map_disp", "decal", "again"], 0, 10, 20),
        (Kind::Mtl, "bumprefl") => (&["newmtl", "bump", "bump", "refl", "refl", "map_Ka", "decal", "again"], 0, 10, 20),
        (Kind::Mtl, "names") => (&["newmtl", "newmtl", "map_Ka", "map_d", "bump", "refl", "Ka"], 0, 20, 85),
        (Kind::Mtl, "numbers") => (&["newmtl", "Ka", "Kd", "Ns", "d", "map_Kd", "bump"], 0, 5, 100),
        (Kind::Mtl, "layout") => (MTL, 3, 100, 20),
        (Kind::Mtl, "bad") => (MTL, 6, 10, 20),
        (Kind::Mtl, "wild") => (MTL, 10, 60, 80),
        (Kind::Mtl, "mangled") => (MTL, 5, 30, 40),
        (Kind::Mtl, _) => (MTL, 0, 15, 15),
    };
    Profile { kinds, bad, noise, wild, more_bad_at_end: true }
}

const PLAIN_NAMES: &[&str] = &["a", "b", "A", "default", "m", "cube", "a b", "Mat.001"];
const ODD_NAMES: &[&str] = &[
    "1", "-1", "007", "1.5", ".5", "1e5", "v", "f 1 2 3", "g", "usemtl x", "off", "on", "/", "//", "1/2", "-o", "+", ".", "x#y", "2147483648", "naïve", "日本",
    "\u{212A}", "😀", "\u{130}", "\u{A0}x", "x\u{3000}y", "\u{FEFF}a", "{b}", "\"q\"", "\\", "newmtl", "xyz", "-clamp", "spectral", "3d", "1.2.3", "a/b.c",
    "vertex", "group_12", "s1", "Ka", "__", "%20", "\u{85}", "e\u{301}", "DEFAULT", "null", "None", "default 1",
];
const ON: &[&str] = &["on", "on", "on", "ON", "On", "oN"];
const OFF: &[&str] = &["off", "off", "off", "OFF", "Off", "oFf", "ofF"];
const EDGE: &[&str] = &[
    "0", "-0", "1", "-1", "0.0", "1.0", "0.5", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "1e38", "3.4028235e38", "3.4028236e38",
    "1e39", "1e-45", "7e-46", "16777217", "33554433", "0.1", "0.30000001192092896", "1.00000005960464477539", "1.17549435e-38", "9007199254740993", "+.5",
    "5.", "-.5e1", "-5.E-1", "+3", "007", "1e2", "1E+2", "1.5e-3", "99999999999999999999", "0.3333333333333333333333", "1e400", "-1e400", "1e-400",
];

pub struct Gen<'a> {
    pub r: Rng,
    p: &'a Profile,
    kind: Kind,
    last: String,
    before: String,
    counts: [i64; 3],
}

impl<'a> Gen<'a> {
    pub fn new(kind: Kind, p: &'a Profile, seed: u64) -> Gen<'a> {
        Gen { r: Rng::new(seed), p, kind, last: String::new(), before: String::new(), counts: [0; 3] }
    }

    fn number(&mut self) -> String {
        let (_, values) = found();
        if !values.is_empty() && self.r.chance(6) {
            return values[self.r.below(values.len())].clone();
        }
        if self.r.chance(self.p.wild / 2) {
            return self.r.pick(EDGE).to_string();
        }
        match self.r.below(8) {
            0 => self.r.below(10).to_string(),
            1 => format!("-{}", self.r.below(1000)),
            2 => format!("{}.{}", self.r.below(100), self.r.below(1000)),
            3 => format!("-0.{:03}", self.r.below(1000)),
            4 if self.r.chance(self.p.wild) => {
                // up to 40 digits, a point and an exponent anywhere
                let mut s = ["", "-", "+"][self.r.below(3)].to_string();
                let n = 1 + self.r.below(40);
                let point = if self.r.chance(70) { self.r.below(n + 1) } else { n + 1 };
                for i in 0..n {
                    if i == point {
                        s.push('.');
                    }
                    s.push((b'0' + self.r.below(10) as u8) as char);
                }
                if self.r.chance(50) {
                    s += ["e", "E", "e-", "e+", "E-"][self.r.below(5)];
                    s += &self.r.below(50).to_string();
                }
                s
            }
            5 => "0".into(),
            6 => "1".into(),
            _ => format!("{}", (self.r.below(200_000) as f64 - 100_000.0) / 1024.0),
        }
    }

    fn numbers(&mut self, n: usize) -> String {
        let mut first: Option<String> = None;
        (0..n)
            .map(|_| {
                let x = match &first {
                    Some(f) if self.r.chance(15) => f.clone(),
                    _ => self.number(),
                };
                first = Some(x.clone());
                x
            })
            .collect::<Vec<_>>()
            .join(" ")
    }

    fn name(&mut self, one_word: bool) -> String {
        let (words, _) = found();
        let mut n = if !words.is_empty() && self.r.chance(12) {
            words[self.r.below(words.len())].trim().to_string()
        } else if self.r.chance(self.p.wild) {
            if self.r.chance(50) {
                self.r.pick(ODD_NAMES).to_string()
            } else {
                let len = 1 + self.r.below(12);
                (0..len)
                    .map(|_| match self.r.below(12) {
                        0 => char::from_u32(0xA0 + self.r.below(0x2000) as u32).unwrap_or('x'),
                        1 => ' ',
                        2 => '.',
                        3 | 4 => (b'0' + self.r.below(10) as u8) as char,
                        5 => (b'!' + self.r.below(94) as u8) as char,
                        _ => (b'a' + self.r.below(26) as u8) as char,
                    })
                    .collect()
            }
        } else {
            self.r.pick(PLAIN_NAMES).to_string()
        };
        if one_word {
            n = n.replace([' ', '\t'], "_");
        }
        let n = n.trim_matches(|c| c == ' ').to_string();
        // A name cannot begin with a note, and a file name is no number or keyword.
        if n.is_empty() || n.starts_with('#') {
            return format!("n{n}");
        }
        n
    }

    fn file(&mut self) -> String {
        let n = self.name(true);
        if n.parse::<f32>().is_ok() || n.starts_with('-') || n.starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '.') || self.r.chance(60) {
            n + ".png"
        } else {
            n + "_"
        }
    }

    fn on_off(&mut self) -> String {
        if self.r.chance(50) { self.r.pick(ON) } else { self.r.pick(OFF) }.to_string()
    }

    fn index(&mut self, of: usize) -> i64 {
        let c = self.counts[of];
        match self.r.below(10) {
            0..=4 => 1 + self.r.below(c.max(3) as usize) as i64,
            5..=7 if c > 0 => -(1 + self.r.below(c as usize) as i64),
            8 => -(c + self.r.below(3) as i64),
            _ if self.r.chance(30) => [0, 255, 256, 65535, 65536, 100_000, 2147483647, -2147483648, -2147483647, -1000][self.r.below(10)],
            _ => 1 + self.r.below(12) as i64,
        }
    }

    fn elements(&mut self, normals: bool) -> String {
        let n = match self.r.below(10) {
            0 => 1,
            1 => 2,
            2..=5 => 3,
            6 | 7 => 4,
            8 => 5 + self.r.below(6),
            _ => 10 + self.r.below(25),
        };
        let same = self.r.chance(50);
        let mut form = self.r.below(if normals { 7 } else { 3 });
        (0..n)
            .map(|_| {
                if !same {
                    form = self.r.below(if normals { 7 } else { 3 });
                }
                let (v, t, n) = (self.index(0), self.index(2), self.index(1));
                match form {
                    0 => format!("{v}"),
                    1 => format!("{v}/{t}"),
                    2 => format!("{v}/"),
                    3 => format!("{v}//{n}"),
                    4 => format!("{v}/{t}/{n}"),
                    5 => format!("{v}//"),
                    _ => format!("{v}/{t}/"),
                }
            })
            .collect::<Vec<_>>()
            .join(" ")
    }

    /// File name and options, at most one file name, in any order.
    fn map(&mut self, extra: &[&'static str]) -> String {
        let mut parts: Vec<String> = vec![];
        let all = ["-blendu", "-blendv", "-clamp", "-cc", "-imfchan", "-mm", "-o", "-s", "-t", "-texres", "-bm", "-type"];
        let n = self.r.below(5);
        for _ in 0..n {
            let o = if !extra.is_empty() && self.r.chance(25) { self.r.pick(extra) } else { all[self.r.below(all.len())] };
            let arg = match o {
                "-blendu" | "-blendv" | "-clamp" | "-cc" => self.on_off(),
                "-imfchan" => self.r.pick(&["r", "g", "b", "m", "l", "z", "R"]).to_string(),
                "-type" => self.r.pick(&["sphere", "cube_top", "cube_left", "Cube_Front"]).to_string(),
                "-mm" => self.numbers(2),
                "-texres" => self.r.pick(&["0", "1", "512", "-3", "2147483647", "+7"]).to_string(),
                "-bm" => self.number(),
                _ => {
                    let n = 1 + self.r.below(3);
                    self.numbers(n)
                }
            };
            let o = match self.r.below(8) {
                0 => o.to_uppercase(),
                _ => o.to_string(),
            };
            parts.push(format!("{o} {arg}"));
        }
        if self.r.chance(90) || parts.is_empty() {
            let at = self.r.below(parts.len() + 1);
            let f = self.file();
            parts.insert(at, f);
        }
        parts.join(" ")
    }

    fn colour(&mut self) -> String {
        match self.r.below(4) {
            0 | 1 => self.numbers(3),
            2 => {
                let f = self.file();
                if self.r.chance(50) {
                    format!("spectral {f}")
                } else {
                    format!("spectral {f} {}", self.number())
                }
            }
            _ => {
                let n = 1 + self.r.below(3);
                format!("xyz {}", self.numbers(n))
            }
        }
    }

    /// Keyword and arguments of a well-formed statement of this kind.
    fn statement(&mut self, k: &str) -> (String, String) {
        let a = match k {
            "v" => {
                self.counts[0] += 1;
                let n = 3 + self.r.below(2);
                self.numbers(n)
            }
            "vn" => {
                self.counts[1] += 1;
                self.numbers(3)
            }
            "vt" => {
                self.counts[2] += 1;
                let n = 1 + self.r.below(3);
                self.numbers(n)
            }
            "f" => self.elements(true),
            "l" => self.elements(false),
            "p" => {
                let n = 1 + self.r.below(6);
                (0..n).map(|_| self.index(0).to_string()).collect::<Vec<_>>().join(" ")
            }
            "g" | "mtllib" | "maplib" => {
                let mut s = self.name(false);
                while self.r.chance(20) {
                    // a name on a line of its own has to look like one
                    s += "\n";
                    s += "n";
                    s += &self.name(false);
                }
                s
            }
            "s" => match self.r.below(6) {
                0 => self.on_off(),
                1 => "0".into(),
                2 => self.r.pick(&["2147483647", "-1", "32", "33", "64", "256", "65536", "none"]).to_string(),
                _ => self.r.below(8).to_string(),
            },
            "bevel" | "c_interp" | "d_interp" | "map_aat" => self.on_off(),
            "lod" => self.r.below(101).to_string(),
            "usemtl" | "usemap" | "shadow_obj" | "trace_obj" | "o" => self.name(false),
            "newmtl" => self.name(true),
            "Ka" | "Kd" | "Ks" | "Ke" | "Tf" => self.colour(),
            "Ns" | "Tr" | "Ni" | "sharpness" => self.number(),
            "d" => {
                if self.r.chance(40) {
                    format!("-halo {}", self.number())
                } else {
                    self.number()
                }
            }
            "illum" => self.r.below(12).to_string(),
            "bump" => self.map(&["-bm", "-imfchan"]),
            "refl" => self.map(&["-type", "-cc"]),
            _ => self.map(&[]),
        };
        (k.to_string(), a)
    }

    fn bad(&mut self) -> String {
        let obj: &[&str] = &[
            "v 1 2", "v 1 2 3 4 5", "v a b c", "vn 1 2", "vt 1 2 3 4", "vp 1", "f 1.5", "f a", "f 1/2/3/4", "f /1", "l 1//2", "p 1/2", "s 1 2", "s 1.5", "g", "usemtl",
            "bevel 1", "bevel maybe", "c_interp yes", "lod 101", "lod -1", "lod x", "foo 1 2", "cstype bezier", "1 2 3", "/", "v 1 2 3x", "end", "v 1 2 -", "f 1 2 3 4.0", "p", "l", "o",
        ];
        let mtl: &[&str] = &[
            "newmtl a b", "Ka 1 2", "Ka 1 2 3 4", "Kd x", "Ks spectral", "Ke xyz", "Tf xyz 1 2 3 4", "Ns x", "Ns 1 2", "d 1 2", "d -halo", "illum -1", "illum 1.5", "illum x",
            "map_aat 1", "map_aat maybe", "map_Kd -clamp yes t", "map_Ka a b", "map_Kd -clamp", "map_Ks -mm 1 t", "map_d -o t", "bump -bm t", "refl -type 1 t", "decal -boost 1 t", "foo 1", "1", "-clamp on",
            "v 1 2 3", "Pr 0.5", "norm t.png", "Ns 1x",
        ];
        let l = if self.kind == Kind::Obj { obj } else { mtl };
        self.r.pick(l).to_string()
    }

    /// A line with a few characters put in, taken out or changed; it keeps
    /// its line end.
    pub fn mangle(&mut self, line: &str) -> String {
        const CHARS: &[&str] = &[
            " ", "\t", "\n", "\r", "#", "/", "-", "+", ".", "e", "E", "0", "1", "9", "v", "f", "l", "p", "g", "s", "d", "K", "k", "a", "n", "o", "_", "\u{212A}",
            "\u{0}", "é", "日", "😀", "\u{130}", "\u{A0}", "\u{FEFF}", "\\", "\"", "{", "99999999999", "mtl", "on", "map_", "-o ", "xyz",
        ];
        let mut l: Vec<char> = line.trim_end_matches(['\n', '\r']).chars().collect();
        for _ in 0..1 + self.r.below(3) {
            let at = self.r.below(l.len() + 1);
            let put: Vec<char> = self.r.pick(CHARS).chars().collect();
            match self.r.below(4) {
                0 => drop(l.splice(at..at, put)),
                1 if at < l.len() => drop(l.splice(at..at + 1, put)),
                2 if at < l.len() => drop(l.remove(at)),
                3 => l.truncate(at),
                _ => {}
            }
        }
        l.into_iter().collect::<String>() + "\n"
    }

    /// The next step: a statement with what surrounds it.
    pub fn step(&mut self, first: bool, near_end: bool) -> String {
        let r = self.r.below(100);
        if r < self.p.bad && (near_end || !self.p.more_bad_at_end || self.r.chance(20)) {
            // a line without a keyword would continue a list of names
            let guard = if self.kind == Kind::Obj { "s 1\n" } else { "" };
            return format!("{guard}{}\n", self.bad());
        }
        let k = if first && self.kind == Kind::Mtl { "newmtl" } else { self.r.pick(self.p.kinds) };
        if k == "again" {
            if !self.last.is_empty() {
                let l = if self.r.chance(70) || self.before.is_empty() { self.last.clone() } else { self.before.clone() };
                for (i, w) in ["v ", "vn ", "vt "].iter().enumerate() {
                    if l.trim_start().starts_with(w) {
                        self.counts[i] += 1;
                    }
                }
                return l;
            }
        }
        let k = if k == "again" { self.p.kinds[0] } else { k };
        let (key, args) = self.statement(k);
        let noisy = self.r.chance(self.p.noise);
        let mut s = String::new();
        if noisy && self.r.chance(30) {
            s += self.r.pick(&["\n", "# c\n", "#\n", " \t\n", "\r\n", "# v 1 2 3\r\n", "#\r", "# EOF\n", "#end\n", "# \\\n", "#!\n"]);
        }
        if noisy {
            s += self.r.pick(&["", "", " ", "\t", "  \t"]);
        }
        s += &match (noisy, self.r.below(3)) {
            (true, 0) => key.to_uppercase(),
            (true, 1) => key.to_lowercase(),
            _ => key.clone(),
        };
        s += if noisy { self.r.pick(&[" ", "\t", "   "]) } else { " " };
        let is_name = self.kind == Kind::Obj
            && matches!(k, "g" | "o" | "usemtl" | "usemap" | "mtllib" | "maplib" | "shadow_obj" | "trace_obj");
        s += &if noisy && !is_name { args.replace(' ', self.r.pick(&[" ", "  ", "\t", " \t "])) } else { args.clone() };
        if noisy {
            let numeric = self.kind == Kind::Obj && matches!(k, "v" | "vn" | "vt" | "f" | "l" | "p" | "lod");
            s += match self.r.below(4) {
                0 => self.r.pick(&[" ", "\t", "  "]),
                1 if numeric => self.r.pick(&["#c", " # c", "# f 1 2 3", " #", "\t#x", "# EOF", " # end"]),
                1 if self.kind == Kind::Mtl => self.r.pick(&[" # c", " #", "\t#x", " # Ka 1 2 3"]),
                _ => "",
            };
        }
        s += if noisy { self.r.pick(&["\n", "\r\n", "\r", "\n\n"]) } else { "\n" };
        self.before = std::mem::replace(&mut self.last, s.clone());
        s
    }
}
