//! Writes down what the library returned, as a program that saves models would:
//! numbers as Rust shows them, group by group, material by material.
use crate::gen::Rng;
use crate::proj::Kind;
use nobject_rs::{load_mtl, load_obj, ColorCorrectedMap, ColorType, DisolveType, Group, Material, Model, NonColorCorrectedMap};

/// The result of a text, written down; None if there is no result, or one with
/// a number that has no literal.
pub fn rewritten(kind: Kind, text: &str, r: &mut Rng) -> Option<Vec<String>> {
    let lines = match kind {
        Kind::Obj => model(&load_obj(text).ok()?, r),
        Kind::Mtl => {
            let ms = load_mtl(text).ok()?;
            let turned = r.chance(50);
            ms.iter().flat_map(|m| material(m, turned)).collect()
        }
    };
    (!lines.is_empty() && lines.iter().all(|l| !l.contains("\u{0}!"))).then(|| lines.into_iter().map(|l| l + "\n").collect())
}

fn number(x: f32) -> String {
    if !x.is_finite() {
        return "\u{0}!".into();
    }
    if x.abs() > 1e-3 && x.to_bits() % 3 == 0 {
        format!("{x:?}")
    } else if x.to_bits() % 3 == 1 {
        format!("{x:e}")
    } else {
        format!("{x}")
    }
}

fn numbers(xs: &[f32]) -> String {
    xs.iter().map(|x| number(*x)).collect::<Vec<_>>().join(" ")
}

fn on(b: bool) -> &'static str {
    if b {
        "on"
    } else {
        "off"
    }
}

fn settings(g: &Group) -> Vec<String> {
    let mut out = vec![];
    if !g.material_name.is_empty() {
        out.push(format!("usemtl {}", g.material_name));
    }
    if let Some(t) = &g.texture_map {
        out.push(format!("usemap {t}"));
    }
    out.push(format!("bevel {}", on(g.bevel)));
    out.push(format!("c_interp {}", on(g.c_interp)));
    out.push(format!("d_interp {}", on(g.d_interp)));
    out.push(format!("lod {}", g.lod));
    out
}

fn elements(m: &Model, name: &str) -> Vec<String> {
    let mut out = vec![];
    for f in m.faces.get(name).into_iter().flatten() {
        out.push(format!("s {}", f.smoothing_group));
        let mut l = "f".to_string();
        for e in &f.elements {
            l += &match (e.texture_index, e.normal_index) {
                (None, None) => format!(" {}", e.vertex_index),
                (Some(t), None) => format!(" {}/{t}", e.vertex_index),
                (None, Some(n)) => format!(" {}//{n}", e.vertex_index),
                (Some(t), Some(n)) => format!(" {}/{t}/{n}", e.vertex_index),
            };
        }
        out.push(l);
    }
    for x in m.lines.get(name).into_iter().flatten() {
        let mut l = "l".to_string();
        for e in &x.elements {
            l += &match e.texture_index {
                None => format!(" {}", e.vertex_index),
                Some(t) => format!(" {}/{t}", e.vertex_index),
            };
        }
        out.push(l);
    }
    for x in m.points.get(name).into_iter().flatten() {
        let mut l = "p".to_string();
        for i in &x.elements {
            l += &format!(" {i}");
        }
        out.push(l);
    }
    out
}

fn model(m: &Model, r: &mut Rng) -> Vec<String> {
    let mut data = vec![];
    for v in &m.vertices {
        let mut xs = vec![v.x, v.y, v.z];
        xs.extend(v.w);
        data.push(format!("v {}", numbers(&xs)));
    }
    for n in &m.normals {
        data.push(format!("vn {}", numbers(&[n.x, n.y, n.z])));
    }
    for t in &m.textures {
        let mut xs = vec![t.u];
        xs.extend(t.v);
        xs.extend(t.w);
        data.push(format!("vt {}", numbers(&xs)));
    }
    let mut files = vec![];
    for l in &m.material_libs {
        files.push(format!("mtllib {l}"));
    }
    for l in &m.texture_libs {
        files.push(format!("maplib {l}"));
    }
    files.extend(m.shadow_obj.iter().map(|x| format!("shadow_obj {x}")));
    files.extend(m.trace_obj.iter().map(|x| format!("trace_obj {x}")));
    let mut names: Vec<&String> = m.groups.keys().collect();
    names.sort();
    if r.chance(50) {
        names.reverse();
    }
    let mut groups = vec![];
    for n in names {
        groups.push(format!("g {n}"));
        if r.chance(50) {
            groups.extend(settings(&m.groups[n]));
            groups.extend(elements(m, n));
        } else {
            groups.extend(elements(m, n));
            groups.extend(settings(&m.groups[n]));
        }
    }
    // a reference that was left negative would mean something after the data
    let open = groups.iter().any(|l| ["f ", "l ", "p "].iter().any(|k| l.starts_with(k)) && l.contains('-'));
    if open || r.chance(50) {
        [groups, files, data].concat()
    } else {
        [files, data, groups].concat()
    }
}

type Three = Option<(f32, Option<f32>, Option<f32>)>;

struct Options<'a> {
    file: &'a str,
    flags: [(&'static str, Option<bool>); 4],
    chan: Option<&'a String>,
    range: Option<(f32, f32)>,
    threes: [(&'static str, Three); 3],
    res: Option<i32>,
}

fn cc(m: &ColorCorrectedMap) -> Options<'_> {
    Options {
        file: &m.file_name,
        flags: [("-blendu", m.blend_u), ("-blendv", m.blend_v), ("-clamp", m.clamp), ("-cc", m.color_correct)],
        chan: None,
        range: m.texture_range,
        threes: [("-o", m.offset), ("-s", m.scale), ("-t", m.turbulance)],
        res: m.texture_res,
    }
}

fn plain(m: &NonColorCorrectedMap) -> Options<'_> {
    Options {
        file: &m.file_name,
        flags: [("-blendu", m.blend_u), ("-blendv", m.blend_v), ("-clamp", m.clamp), ("-cc", None)],
        chan: m.imf_chan.as_ref(),
        range: m.texture_range,
        threes: [("-o", m.offset), ("-s", m.scale), ("-t", m.turbulance)],
        res: m.texture_res,
    }
}

fn options(o: Options, first: Option<String>, turned: bool) -> String {
    let without_cc = o.chan.is_some();
    let mut all: Vec<String> = first.into_iter().collect();
    for (k, b) in o.flags {
        all.extend(b.map(|b| format!("{k} {}", on(b))));
    }
    all.extend(o.chan.map(|c| format!("-imfchan {c}")));
    all.extend(o.range.map(|(a, b)| format!("-mm {}", numbers(&[a, b]))));
    for (k, t) in o.threes {
        if let Some((x, y, z)) = t {
            let mut xs = vec![x];
            xs.extend(y);
            xs.extend(z);
            all.push(format!("{k} {}", numbers(&xs)));
        }
    }
    all.extend(o.res.map(|i| format!("-texres {i}")));
    if !o.file.is_empty() {
        all.push(o.file.to_string());
    }
    if all.is_empty() {
        all.push(if without_cc { "-cc on" } else { "-type x" }.into()); // says nothing here
    }
    if turned {
        all.reverse();
    }
    all.join(" ")
}

fn colour(c: &ColorType) -> String {
    match c {
        ColorType::Rgb(r, g, b) => numbers(&[*r, *g, *b]),
        ColorType::CieXyz(x, y, z) => format!("xyz {}", numbers(&[*x, *y, *z])),
        ColorType::Spectral(f, x) => format!("spectral {f} {}", number(*x)),
    }
}

fn material(m: &Material, turned: bool) -> Vec<String> {
    let mut out = vec![];
    for (k, c) in [("Ka", &m.ambient), ("Kd", &m.diffuse), ("Ks", &m.specular), ("Ke", &m.emissive_coefficient), ("Tf", &m.transmission_factor)] {
        out.extend(c.as_ref().map(|c| format!("{k} {}", colour(c))));
    }
    for (k, x) in [("Ns", m.specular_exponent), ("Tr", m.transparancy), ("Ni", m.index_of_refraction), ("sharpness", m.sharpness)] {
        out.extend(x.map(|x| format!("{k} {}", number(x))));
    }
    out.extend(m.disolve.map(|d| match d {
        DisolveType::Alpha(x) => format!("d {}", number(x)),
        DisolveType::Halo(x) => format!("d -halo {}", number(x)),
    }));
    out.extend(m.illumination_mode.map(|i| format!("illum {i}")));
    out.extend(m.anti_alias_map.map(|b| format!("map_aat {}", on(b))));
    for (k, x) in [("map_Ka", &m.texture_map_ambient), ("map_Kd", &m.texture_map_diffuse), ("map_Ks", &m.texture_map_specular)] {
        out.extend(x.as_ref().map(|x| format!("{k} {}", options(cc(x), None, turned))));
    }
    for (k, x) in [("map_Ns", &m.shininess_map), ("map_d", &m.disolve_map), ("disp", &m.displacement_map), ("decal", &m.decal)] {
        out.extend(x.as_ref().map(|x| format!("{k} {}", options(plain(x), None, turned))));
    }
    if let Some(b) = &m.bump_map {
        let bm = b.bump_multiplier.map(|x| format!("-bm {}", number(x)));
        out.push(format!("bump {}", options(plain(&b.map_settings.clone().unwrap_or_default()), bm, turned)));
    }
    if let Some(x) = &m.reflection_map {
        let ty = (!x.reflection_type.is_empty()).then(|| format!("-type {}", x.reflection_type));
        let o = x.map_settings.clone().unwrap_or_default();
        let empty = ty.is_none();
        let l = options(cc(&o), ty, turned);
        out.push(format!("refl {}", if empty && l == "-type x" { "-imfchan m" } else { &l }));
    }
    if turned {
        out.reverse();
    }
    out.insert(0, format!("newmtl {}", m.name));
    out
}
