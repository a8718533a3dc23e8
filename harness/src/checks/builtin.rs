//! C19: the shapes that come with Visual Pinball and the shapes computed from an
//! item's sizes, against their known extents.
use super::agree::P3;
use crate::model_gen::*;
use crate::rng::*;
use vpin::vpx::gameitem::bumper::Bumper;

use vpin::vpx::gameitem::flipper::Flipper;
use vpin::vpx::gameitem::gate::{Gate, GateType};
use vpin::vpx::gameitem::hittarget::HitTarget;
use vpin::vpx::gameitem::kicker::Kicker;
use vpin::vpx::gameitem::light::Light;
use vpin::vpx::gameitem::plunger::{Plunger, PlungerType};
use vpin::vpx::gameitem::primitive::VertexWrapper;
use vpin::vpx::gameitem::spinner::Spinner;
use vpin::vpx::gameitem::trigger::{Trigger, TriggerShape};
use vpin::vpx::mesh::*;

pub type Mesh = Vec<P3>;
fn pos<F>(m: Option<(Vec<VertexWrapper>, Vec<F>)>, up: f64) -> Option<Mesh> {
    m.map(|m| m.0.iter().map(|v| [v.vertex.x as f64, v.vertex.y as f64, v.vertex.z as f64 - up]).collect())
}

/// what is known of a mesh: smallest and largest coordinates and the mean of its vertices
#[derive(Debug, Clone, Copy)]
pub struct Ext(pub P3, pub P3, pub P3);
pub fn ext(m: &Mesh) -> Ext {
    let p = m;
    let f = |g: fn(f64, f64) -> f64, a: f64| -> P3 { std::array::from_fn(|i| p.iter().map(|p| p[i]).fold(a, g)) };
    Ext(f(f64::min, f64::MAX), f(f64::max, f64::MIN), std::array::from_fn(|i| p.iter().map(|p| p[i]).sum::<f64>() / p.len() as f64))
}
/// one shape: its name, its mesh, and by how much its unit form is scaled in each direction
pub type Part = (String, Option<Mesh>, P3);

pub fn unit(r: &mut R, one: bool) -> Vec<Part> {
    let len = |r: &mut R| if one { 1.0 } else { r.f32_in(0.5, 120.0) };
    let mut out: Vec<Part> = vec![];
    let u = |k: f32| [k as f64; 3];
    let (k, h) = (len(r), len(r));
    let b = Bumper { radius: k, height_scale: h, orientation: 0.0, ring_drop_offset: Some(0.0), is_cap_visible: true, is_base_visible: true, is_ring_visible: Some(true), is_socket_visible: Some(true), ..Default::default() };
    let m = bumpers::build_bumper_meshes(&b);
    let s = [k as f64, k as f64, h as f64];
    for (n, m) in [("base", m.base), ("ring", m.ring), ("cap", m.cap)] {
        out.push((format!("Bumper {n}"), pos(m, 0.0), s));
    }
    // the socket stands 5 above the table
    out.push(("Bumper socket".into(), pos(m.socket, 5.0), s));
    for _ in 0..if one { 300 } else { 2 } {
        let (k, x, y) = (len(r), len(r), len(r));
        let shape = g_triggershape(r);
        let t = Trigger { radius: k, scale_x: x, scale_y: y, rotation: 0.0, wire_thickness: Some(0.0), is_visible: true, shape, ..Default::default() };
        let round = matches!(t.shape, TriggerShape::Button | TriggerShape::Star);
        let up = match t.shape {
            TriggerShape::Button => 5.0,
            TriggerShape::WireC => -19.0,
            _ => 0.0,
        };
        let m = pos(triggers::build_trigger_mesh(&t), up);
        out.push((format!("Trigger {:?}", t.shape), m, if round { u(k) } else { [x as f64, y as f64, 1.0] }));
        let k = len(r);
        let x = Kicker { radius: k, orientation: 0.0, kicker_type: g_kickertype(r), ..Default::default() };
        let m = kickers::build_kicker_meshes(&x);
        out.push((format!("Kicker plate {:?}", x.kicker_type), pos(m.plate, 0.0), u(k)));
        out.push((format!("Kicker {:?}", x.kicker_type), pos(m.kicker, 0.0), u(k)));
        let k = len(r);
        let x = Gate { length: k, rotation: 0.0, is_visible: true, show_bracket: true, angle_min: 0.0, angle_max: 0.0, gate_type: Some(g_gatetype(r)), ..Default::default() };
        let n = match x.gate_type {
            Some(GateType::Unknown(_)) => "other".into(),
            _ => format!("{:?}", x.gate_type.as_ref().unwrap()),
        };
        if let Some(m) = gates::build_gate_meshes(&x) {
            out.push(("Gate bracket".into(), pos(m.bracket, 0.0), u(k)));
            // (the length is applied where it is placed)
            out.push((format!("Gate {n}"), pos(Some(m.wire), 0.0), u(1.0)));
        }
        let (a, b, c) = (len(r), len(r), len(r));
        let mut x = HitTarget { rot_z: 0.0, target_type: g_targettype(r), is_visible: true, ..Default::default() };
        (x.size.x, x.size.y, x.size.z) = (a, b, c);
        out.push((format!("HitTarget {:?}", x.target_type), pos(hittargets::build_hit_target_mesh(&x), 0.0), [a as f64, b as f64, c as f64]));
    }
    let k = len(r);
    let x = Spinner { length: k, rotation: 0.0, show_bracket: true, is_visible: true, ..Default::default() };
    let m = spinners::build_spinner_meshes(&x);
    out.push(("Spinner bracket".into(), pos(m.bracket, 0.0), u(k)));
    out.push(("Spinner plate".into(), pos(Some(m.plate), 0.0), u(k)));
    let k = len(r);
    let x = Light { mesh_radius: k, show_bulb_mesh: true, ..Default::default() };
    if let Some(m) = lights::build_light_meshes(&x) {
        out.push(("Light bulb".into(), pos(m.bulb, 0.0), u(k)));
        out.push(("Light socket".into(), pos(m.socket, 0.0), u(k)));
    }
    out
}

/// parts whose extent follows from the sizes alone: the name, the vertices, the extent
pub fn sized(r: &mut R) -> Vec<(String, Mesh, P3, P3)> {
    let mut out = vec![];
    // a flipper pointing away from the player (0 degrees): the tip lies at -y
    let th = if r.chance(1, 4) { 0.0 } else { r.f32_in(0.5, 6.0) };
    let mut x = Flipper { base_radius: th + r.f32_in(2.0, 25.0), end_radius: th + r.f32_in(2.0, 20.0), flipper_radius_max: r.f32_in(40.0, 160.0), height: r.f32_in(10.0, 60.0), start_angle: 0.0, rubber_thickness: Some(th), rubber_height: Some(r.f32_in(0.0, 20.0)), rubber_width: Some(r.f32_in(5.0, 30.0)), is_visible: true, ..Default::default() };
    (x.center.x, x.center.y) = (0.0, 0.0);
    let z = r.f32_in(-20.0, 100.0);
    if let Some(m) = flippers::build_flipper_meshes(&x, z) {
        let w = |t: f32| x.base_radius.max(x.end_radius) as f64 - t as f64;
        let z = z as f64;
        let lo = |t: f32, z: f64| [-w(t), -((x.flipper_radius_max + x.end_radius) as f64 - t as f64), z];
        let hi = |t: f32, z: f64| [w(t), x.base_radius as f64 - t as f64, z];
        out.push(("Flipper base".to_string(), pos(Some(m.base), 0.0).unwrap(), lo(th, z), hi(th, z + x.height as f64)));
        if let Some(m) = pos(m.rubber, 0.0) {
            let h = z + x.rubber_height.unwrap() as f64;
            out.push(("Flipper rubber".to_string(), m, lo(0.0, h), hi(0.0, h + x.rubber_width.unwrap() as f64)));
        }
    }
    let mut tip: Vec<(f32, f32)> = (0..2 + r.below(6)).map(|_| (r.f32_in(0.0, 30.0).round(), (r.f32_in(0.1, 1.2) * 100.0).round() / 100.0)).collect();
    let text = tip.iter().map(|(a, b)| format!("{a} {b}")).collect::<Vec<_>>().join(["; ", ";", " ; "][r.below(3)]);
    tip.sort_by(|a, b| a.0.total_cmp(&b.0));
    let x = Plunger {
        width: r.f32_in(5.0, 40.0),
        height: r.f32_in(5.0, 40.0),
        stroke: r.f32_in(40.0, 150.0),
        rod_diam: r.f32_in(0.1, 1.0),
        ring_gap: r.f32_in(0.5, 4.0),
        ring_diam: r.f32_in(0.3, 2.0),
        ring_width: r.f32_in(1.0, 8.0),
        spring_diam: r.f32_in(0.2, 1.2),
        spring_gauge: r.f32_in(0.3, 3.0),
        spring_loops: r.f32_in(2.0, 12.0),
        spring_end_loops: r.f32_in(0.0, 3.0),
        tip_shape: text,
        plunger_type: if r.chance(1, 3) { PlungerType::Flat } else { [PlungerType::Modern, PlungerType::Custom][r.below(2)].clone() },
        is_visible: true,
        ..Default::default()
    };
    let f = |v: f32| v as f64;
    let m = plungers::build_plunger_meshes(&x);
    let w = f(x.width);
    let (rod, ring, z) = (w * f(x.rod_diam) / 2.0, w * f(x.ring_diam) / 2.0, w);
    let front = -f(x.stroke);
    let tiplen = tip.last().map_or(0.0, |p| f(p.0));
    let r0 = front + tiplen + f(x.ring_gap);
    let r1 = r0 + f(x.ring_width);
    let round = |rad: f64, z: f64, y0: f64, y1: f64| ([-rad, y0.min(y1), z - rad], [rad, y0.max(y1), z + rad]);
    for (n, m, (lo, hi)) in [
        ("Plunger flat", pos(m.flat_rod, 0.0), round(rod, w * 1.25, front, f(x.height))),
        ("Plunger rod", pos(m.rod, 0.0), round(rod, z, r1, f(x.height))),
        ("Plunger ring", pos(m.ring, 0.0), round(ring.max(rod), z, r0, r1)),
        ("Plunger tip", pos(m.tip, 0.0), round(tip.iter().map(|p| f(p.1)).fold(0.0, f64::max) * w / 2.0, z, front + f(tip[0].0), front + tiplen)),
        ("Plunger spring", pos(m.spring, 0.0), round(w * f(x.spring_diam) / 2.0 + f(x.spring_gauge), z, r1 - f(x.spring_gauge), f(x.height) + f(x.spring_gauge))),
    ] {
        // (the ends of a short spring are longer than the whole)
        let ends = f(x.spring_end_loops * x.spring_gauge) * 2.2;
        if n == "Plunger spring" && f(x.height) - r1 < 1.5 * ends {
            continue;
        }
        if let Some(m) = m {
            out.push((n.to_string(), m, lo, hi));
        }
    }
    out
}

/// the extents of the unit shapes
pub const UNIT: &[(&str, Ext)] = &[
    ("Bumper base", Ext([-0.83559, -0.81638, -0.00398], [0.83538, 0.80288, 0.87419], [-0.00001, -0.00001, 0.49847])),
    ("Bumper cap", Ext([-1.61023, -1.60812, 0.67814], [1.61134, 1.61345, 1.00470], [0.00225, 0.01137, 0.84483])),
    ("Bumper ring", Ext([-1.24265, -1.24260, -0.12202], [1.24246, 1.24254, 0.74560], [-0.02620, 0.00246, 0.60167])),
    ("Bumper socket", Ext([-1.24072, -1.24288, -0.00098], [1.24411, 1.24173, 0.06126], [0.00000, 0.00001, 0.02544])),
    ("Gate LongPlate", Ext([-0.37950, -0.00488, -0.48979], [0.37950, 0.00513, 0.01021], [0.00445, 0.00013, -0.14011])),
    ("Gate Plate", Ext([-0.36154, -0.00528, -0.35028], [0.36086, 0.00472, 0.00672], [0.00590, -0.00028, -0.09324])),
    ("Gate WireRectangle", Ext([-0.36800, -0.00504, -0.34141], [0.36800, 0.00504, 0.00870], [0.00000, 0.00000, -0.12479])),
    ("Gate WireW", Ext([-0.38400, -0.00600, -0.35219], [0.38400, 0.00600, 0.00781], [-0.00000, 0.00000, -0.17032])),
    ("Gate bracket", Ext([-0.51507, -0.06861, -0.06791], [0.51693, 0.11139, 0.08809], [0.00093, -0.00000, -0.01391])),
    ("Gate other", Ext([-0.38400, -0.00600, -0.35219], [0.38400, 0.00600, 0.00781], [-0.00000, 0.00000, -0.17032])),
    ("HitTarget DropTargetBeveled", Ext([-0.52500, -0.25000, -0.16275], [0.52500, 0.25000, 1.73725], [0.00000, 0.02492, 0.91964])),
    ("HitTarget DropTargetFlatSimple", Ext([-0.55000, -0.10000, -0.16007], [0.55000, 0.10000, 1.78993], [0.00000, 0.01324, 0.84581])),
    ("HitTarget DropTargetSimple", Ext([-0.52500, -0.17500, -0.16480], [0.52500, 0.17500, 1.73520], [0.00000, -0.01667, 0.56020])),
    ("HitTarget HitFatTargetRectangle", Ext([-0.81231, -0.23764, -0.10525], [0.78769, 0.21236, 1.79475], [-0.01231, 0.02869, 1.09957])),
    ("HitTarget HitFatTargetSlim", Ext([-0.38738, -0.23698, -0.12618], [0.38762, 0.21302, 1.77382], [0.00012, 0.02935, 1.07864])),
    ("HitTarget HitFatTargetSquare", Ext([-0.61710, -0.23655, -0.10275], [0.58290, 0.21345, 1.79725], [-0.01710, 0.02978, 1.10207])),
    ("HitTarget HitTargetRectangle", Ext([-0.69355, -0.20794, -0.28749], [0.65656, 0.22212, 1.78768], [-0.02517, 0.07318, 1.02930])),
    ("HitTarget HitTargetRound", Ext([-0.62426, -0.20926, -0.28299], [0.60037, 0.22074, 1.79218], [-0.01195, 0.08764, 1.03597])),
    ("HitTarget HitTargetSlim", Ext([-0.34022, -0.31954, -0.10341], [0.31015, 0.11051, 1.97176], [-0.01504, -0.04602, 1.19073])),
    ("Kicker Cup", Ext([-1.21500, -1.21500, -1.20359], [1.21500, 1.21500, -0.00359], [-0.00523, -0.04017, -0.67787])),
    ("Kicker Cup2", Ext([-1.00157, -0.99760, -0.63612], [1.00455, 1.00861, 0.00655], [-0.00097, 0.03171, -0.38951])),
    ("Kicker Gottlieb", Ext([-1.01479, -1.00816, -0.99123], [1.00407, 1.01207, 0.01703], [0.01160, -0.03593, -0.40747])),
    ("Kicker Hole", Ext([-0.97500, -0.97500, -0.47834], [0.97500, 0.97500, 0.02166], [-0.00000, 0.00000, -0.12508])),
    ("Kicker HoleSimple", Ext([-0.92690, -0.93039, -0.62393], [0.90367, 0.91767, -0.00604], [0.06198, 0.08352, -0.31498])),
    ("Kicker Williams", Ext([-1.02078, -1.01782, -1.13033], [1.00373, 1.03957, 0.01326], [0.09666, 0.10271, -0.55703])),
    ("Kicker plate Cup", Ext([-1.16055, -1.13844, 0.00251], [1.11945, 1.14148, 0.00252], [0.00272, 0.00152, 0.00252])),
    ("Kicker plate Cup2", Ext([-1.00968, -0.99044, 0.00219], [0.97392, 0.99309, 0.00219], [0.00236, 0.00132, 0.00219])),
    ("Kicker plate Gottlieb", Ext([-1.02128, -1.00183, 0.00221], [0.98512, 1.00451, 0.00222], [0.00239, 0.00134, 0.00221])),
    ("Kicker plate Hole", Ext([-0.95165, -0.93352, 0.00206], [0.91795, 0.93602, 0.00206], [0.00223, 0.00125, 0.00206])),
    ("Kicker plate HoleSimple", Ext([-0.95165, -0.93352, 0.00206], [0.91795, 0.93602, 0.00206], [0.00223, 0.00125, 0.00206])),
    ("Kicker plate Williams", Ext([-1.02128, -1.00183, 0.00221], [0.98512, 1.00451, 0.00222], [0.00239, 0.00134, 0.00221])),
    ("Light bulb", Ext([-0.47500, -0.47502, -0.01264], [0.47500, 0.47502, 1.41263], [0.00000, 0.00000, 0.77835])),
    ("Light socket", Ext([-0.47768, -0.47768, -0.75877], [0.47768, 0.47768, 0.75877], [-0.00693, -0.00204, 0.19706])),
    ("Spinner bracket", Ext([-0.96707, -0.09600, -0.07016], [0.96707, 0.09600, 0.47619], [0.00000, 0.00000, 0.16175])),
    ("Spinner plate", Ext([-0.70043, -0.02751, -0.28126], [0.69848, 0.02751, 0.28126], [-0.00273, -0.00000, -0.02072])),
    ("Trigger Button", Ext([-0.99575, -0.97785, -0.10631], [0.95519, 0.99924, 0.10915], [-0.01017, 0.00308, 0.01807])),
    ("Trigger Inder", Ext([-1.70732, -35.00705, -21.89417], [1.70732, 45.55276, 22.87301], [0.00000, 4.82604, 5.50900])),
    ("Trigger Star", Ext([-0.96800, -0.92603, -0.03655], [0.96800, 0.93072, 0.29180], [0.00000, 0.00234, 0.13171])),
    ("Trigger WireA", Ext([-1.28361, -46.49850, -29.14936], [1.28361, 46.49850, 38.58249], [0.09169, 3.52412, 10.11750])),
    ("Trigger WireB", Ext([-1.28361, -54.19166, -43.53711], [1.28361, 46.79317, 42.79797], [0.09169, 7.19719, 7.93623])),
    ("Trigger WireC", Ext([-1.28361, -42.54236, -42.39716], [1.28361, 54.35677, 49.81089], [0.09169, -9.20303, -5.48520])),
    ("Trigger WireD", Ext([-1.25176, -34.87539, -7.59162], [1.33262, 45.61003, 23.02790], [0.01848, 4.57804, 10.36196])),
];
