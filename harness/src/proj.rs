//! What a caller of the library sees, as plain values.
use crate::val::{opt, rec, V};
use nobject_rs::*;
use std::collections::{BTreeMap, HashMap};

fn s(x: &str) -> V {
    V::S(x.to_string())
}
fn i(x: i32) -> V {
    V::I(x as i64)
}
fn oi(x: Option<i32>) -> V {
    opt(x.map(i))
}
fn nums(x: &[f32]) -> V {
    V::L(x.iter().map(|f| V::N(*f)).collect())
}
fn strs(x: &[String]) -> V {
    V::L(x.iter().map(|x| s(x)).collect())
}
fn groups<T>(m: &HashMap<String, Vec<T>>, f: impl Fn(&T) -> V) -> V {
    V::M(m.iter().map(|(k, v)| (k.clone(), V::L(v.iter().map(&f).collect()))).collect())
}

/// Some of `b`'s without the `a` before it is a malformed optional tail.
fn tail(mut l: Vec<V>, a: Option<f32>, b: Option<f32>) -> V {
    match (a, b) {
        (None, Some(b)) => l.extend([s("missing"), V::N(b)]),
        (a, b) => l.extend(a.into_iter().chain(b).map(V::N)),
    }
    V::L(l)
}

fn face_ref(e: &FaceElement) -> V {
    rec([("v", i(e.vertex_index)), ("t", oi(e.texture_index)), ("n", oi(e.normal_index))])
}
fn line_ref(e: &LineElement) -> V {
    rec([("v", i(e.vertex_index)), ("t", oi(e.texture_index))])
}
fn list<T>(l: &[T], f: impl Fn(&T) -> V) -> V {
    V::L(l.iter().map(f).collect())
}

pub fn obj_part(m: &Model, part: &str) -> V {
    match part {
        "ok" => V::B(true),
        "v" => list(&m.vertices, |v| tail(vec![V::N(v.x), V::N(v.y), V::N(v.z)], v.w, None)),
        "n" => list(&m.normals, |n| nums(&[n.x, n.y, n.z])),
        "t" => list(&m.textures, |t| tail(vec![V::N(t.u)], t.v, t.w)),
        "f" => groups(&m.faces, |f| rec([("s", i(f.smoothing_group)), ("r", list(&f.elements, face_ref))])),
        "fr" => groups(&m.faces, |f| list(&f.elements, face_ref)),
        "fs" => groups(&m.faces, |f| i(f.smoothing_group)),
        "fv" => groups(&m.faces, |f| list(&f.elements, |e| i(e.vertex_index))),
        "l" => groups(&m.lines, |l| list(&l.elements, line_ref)),
        "lv" => groups(&m.lines, |l| list(&l.elements, |e| i(e.vertex_index))),
        "p" => groups(&m.points, |p| list(&p.elements, |e| i(*e))),
        "g" => V::M(
            m.groups
                .iter()
                .map(|(k, g)| {
                    let r = rec([
                        ("mat", s(&g.material_name)),
                        ("bevel", V::B(g.bevel)),
                        ("ci", V::B(g.c_interp)),
                        ("di", V::B(g.d_interp)),
                        ("lod", V::I(g.lod as i64)),
                        ("tm", opt(g.texture_map.as_deref().map(s))),
                    ]);
                    (k.clone(), r)
                })
                .collect(),
        ),
        "gn" => V::M(m.groups.keys().map(|k| (k.clone(), V::B(true))).collect()),
        "gb" => V::M(
            m.groups
                .iter()
                .map(|(k, g)| (k.clone(), V::L(vec![V::B(g.bevel), V::B(g.c_interp), V::B(g.d_interp)])))
                .collect(),
        ),
        "ml" => strs(&m.material_libs),
        "tl" => strs(&m.texture_libs),
        "so" => opt(m.shadow_obj.as_deref().map(s)),
        "ro" => opt(m.trace_obj.as_deref().map(s)),
        _ => panic!("unknown part {part}"),
    }
}

pub const OBJ_ALL: &[&str] = &["ok", "v", "n", "t", "f", "l", "p", "g", "ml", "tl", "so", "ro"];

fn colour(c: &ColorType) -> V {
    match c {
        ColorType::Rgb(a, b, c) => V::L(vec![s("rgb"), V::N(*a), V::N(*b), V::N(*c)]),
        ColorType::Spectral(f, x) => V::L(vec![s("spectral"), s(f), V::N(*x)]),
        ColorType::CieXyz(a, b, c) => V::L(vec![s("xyz"), V::N(*a), V::N(*b), V::N(*c)]),
    }
}
fn ob(x: Option<bool>) -> V {
    opt(x.map(V::B))
}
fn pair(x: Option<(f32, f32)>) -> V {
    opt(x.map(|(a, b)| nums(&[a, b])))
}
fn three(x: Option<(f32, Option<f32>, Option<f32>)>) -> V {
    opt(x.map(|(a, b, c)| tail(vec![V::N(a)], b, c)))
}
fn cc(m: &ColorCorrectedMap) -> V {
    rec([
        ("file", s(&m.file_name)),
        ("bu", ob(m.blend_u)),
        ("bv", ob(m.blend_v)),
        ("cc", ob(m.color_correct)),
        ("clamp", ob(m.clamp)),
        ("mm", pair(m.texture_range)),
        ("o", three(m.offset)),
        ("s", three(m.scale)),
        ("t", three(m.turbulance)),
        ("res", oi(m.texture_res)),
    ])
}
fn plain(m: &NonColorCorrectedMap) -> V {
    rec([
        ("file", s(&m.file_name)),
        ("bu", ob(m.blend_u)),
        ("bv", ob(m.blend_v)),
        ("chan", opt(m.imf_chan.as_deref().map(s))),
        ("clamp", ob(m.clamp)),
        ("mm", pair(m.texture_range)),
        ("o", three(m.offset)),
        ("s", three(m.scale)),
        ("t", three(m.turbulance)),
        ("res", oi(m.texture_res)),
    ])
}

pub fn material(m: &Material) -> V {
    let n = |x: Option<f32>| opt(x.map(V::N));
    let c = |x: &Option<ColorType>| opt(x.as_ref().map(colour));
    let mc = |x: &Option<ColorCorrectedMap>| opt(x.as_ref().map(cc));
    let mp = |x: &Option<NonColorCorrectedMap>| opt(x.as_ref().map(plain));
    rec([
        ("name", s(&m.name)),
        ("ka", c(&m.ambient)),
        ("kd", c(&m.diffuse)),
        ("ks", c(&m.specular)),
        ("ke", c(&m.emissive_coefficient)),
        ("tf", c(&m.transmission_factor)),
        ("ns", n(m.specular_exponent)),
        ("tr", n(m.transparancy)),
        ("ni", n(m.index_of_refraction)),
        ("sharpness", n(m.sharpness)),
        (
            "d",
            opt(m.disolve.as_ref().map(|d| match d {
                DisolveType::Alpha(x) => V::L(vec![s("alpha"), V::N(*x)]),
                DisolveType::Halo(x) => V::L(vec![s("halo"), V::N(*x)]),
            })),
        ),
        ("illum", opt(m.illumination_mode.map(|x| V::I(x as i64)))),
        ("map_aat", ob(m.anti_alias_map)),
        ("map_ka", mc(&m.texture_map_ambient)),
        ("map_kd", mc(&m.texture_map_diffuse)),
        ("map_ks", mc(&m.texture_map_specular)),
        ("map_ns", mp(&m.shininess_map)),
        ("map_d", mp(&m.disolve_map)),
        ("disp", mp(&m.displacement_map)),
        ("decal", mp(&m.decal)),
        (
            "bump",
            opt(m.bump_map.as_ref().map(|b| {
                rec([("bm", n(b.bump_multiplier)), ("map", opt(b.map_settings.as_ref().map(plain)))])
            })),
        ),
        (
            "refl",
            opt(m.reflection_map.as_ref().map(|r| {
                rec([("ty", s(&r.reflection_type)), ("map", opt(r.map_settings.as_ref().map(cc)))])
            })),
        ),
    ])
}

/// An error: "parse" or "newmtl"; with ERRORS set also "foreign" (an error of
/// neither the tokenizer nor this loader) and "mute" (one that cannot be shown, or shows as nothing).
fn refused(kind: Kind, e: &ObjError) -> V {
    let why = match (kind, e) {
        _ if std::env::var_os("ERRORS").is_some() && mute(e) => "mute",
        (Kind::Obj, ObjError::Tokenize(_) | ObjError::ModelParse(_)) => "parse",
        (Kind::Mtl, ObjError::Tokenize(_) | ObjError::MaterialParse(MaterialError::Parse(_))) => "parse",
        (Kind::Mtl, ObjError::MaterialParse(MaterialError::NewMaterial)) => "newmtl",
        _ if std::env::var_os("ERRORS").is_some() => "foreign",
        _ => "parse",
    };
    rec([("ok", V::B(false)), ("why", s(why))])
}

fn mute(e: &ObjError) -> bool {
    let shown = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut all = vec![e.to_string(), format!("{e:?}")];
        let mut inner = std::error::Error::source(e);
        while let Some(x) = inner {
            all.push(x.to_string());
            inner = x.source();
        }
        all
    }));
    !matches!(shown, Ok(all) if all.iter().all(|x| !x.trim().is_empty()))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Obj,
    Mtl,
}

/// Loads a text and shows the given parts of the result (for materials the
/// parts are fields of each material; none means all).
pub fn load(kind: Kind, text: &str, parts: &[String]) -> V {
    match kind {
        Kind::Obj => match load_obj(text) {
            Ok(m) => V::M(parts.iter().map(|p| (p.clone(), obj_part(&m, p))).collect()),
            Err(e) => refused(kind, &e),
        },
        Kind::Mtl => match load_mtl(text) {
            Ok(ms) => {
                let show = |m: &Material| match material(m) {
                    V::M(r) if !parts.is_empty() => {
                        V::M(r.into_iter().filter(|(k, _)| parts.contains(k)).collect::<BTreeMap<_, _>>())
                    }
                    all => all,
                };
                rec([("ok", V::B(true)), ("m", V::L(ms.iter().map(show).collect()))])
            }
            Err(e) => refused(kind, &e),
        },
    }
}

pub fn all_parts(kind: Kind) -> Vec<String> {
    match kind {
        Kind::Obj => OBJ_ALL.iter().map(|s| s.to_string()).collect(),
        Kind::Mtl => vec![],
    }
}
