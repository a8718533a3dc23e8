//! Tables with plausible geometry: what a table author could place with the
//! editor.  Used by the monitors of meshes and exports.
use crate::model::*;
use crate::rng::R;
use vpin::vpx::VPX;
use vpin::vpx::color::Color;
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::gameitem::dragpoint::DragPoint;
use vpin::vpx::gameitem::vertex2d::Vertex2D;
use vpin::vpx::gameitem::vertex3d::Vertex3D;
use vpin::vpx::image::{ImageData, ImageDataBits, ImageDataJpeg};
use vpin::vpx::material::Material;
use vpin::vpx::version::Version;

/// item kinds that have geometry
pub const GEO: &[usize] = &[0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19];

pub struct Scene {
    pub images: Vec<String>,
    pub materials: Vec<String>,
    pub surfaces: Vec<String>,
    /// names of any characters
    pub wild: bool,
    /// allow degenerate shapes: coincident points, zero sizes, two points
    pub edgy: bool,
}

fn pt(r: &mut R, x: f32, y: f32, z: f32, smooth: bool) -> DragPoint {
    DragPoint { x, y, z, smooth, is_slingshot: r.opt(|r| r.bool()), has_auto_texture: r.bool(), tex_coord: r.f32_in(0.0, 1.0), ..DragPoint::default() }
}

/// closed outline around (cx,cy): simple (star-shaped), any orientation
pub fn outline(r: &mut R, cx: f32, cy: f32, rad: f32, n: usize) -> Vec<DragPoint> {
    let smooth_p = *r.pick(&[0usize, 2, 4]);
    let ph = r.f32_in(0.0, 6.28);
    let form = r.below(12);
    let m = n.max(4) / 2;
    let mut v: Vec<DragPoint> = match form {
        // a comb: teeth along a straight back
        0 => {
            let w = rad / m as f32;
            let mut q = vec![(-rad, rad), (rad, rad)];
            for i in (0..m).rev() {
                let x = -rad + (2 * i) as f32 * w;
                q.extend([(x + 2.0 * w, -rad * r.f32_in(0.2, 1.0)), (x + w, rad * r.f32_in(0.3, 0.8))]);
            }
            q.push((-rad, -rad));
            q.into_iter().map(|(x, y)| pt(r, cx + x, cy + y, 0.0, false)).collect()
        }
        // a spiral band
        1 => {
            let turn = r.f32_in(2.0, 9.0).min(m as f32 * 0.5);
            let arm = |k: f32, i: usize| {
                let t = i as f32 / m as f32;
                let a = ph + turn * t;
                let d = rad * (0.25 + 0.6 * t) * k;
                (d * a.cos(), d * a.sin())
            };
            let mut q: Vec<(f32, f32)> = (0..=m).map(|i| arm(1.0, i)).collect();
            q.extend((0..=m).rev().map(|i| arm(1.15, i)));
            q.into_iter().map(|(x, y)| pt(r, cx + x, cy + y, 0.0, false)).collect()
        }
        // a rectangle with points along its sides
        2 => {
            let (c, s) = if r.bool() { (ph.cos(), ph.sin()) } else { (1.0, 0.0) };
            let h = rad * r.f32_in(0.05, 1.0);
            let mut q = vec![];
            for (a, b) in [((-rad, -h), (rad, -h)), ((rad, -h), (rad, h)), ((rad, h), (-rad, h)), ((-rad, h), (-rad, -h))] {
                let k = 1 + r.below(4);
                for i in 0..k {
                    let t = i as f32 / k as f32;
                    q.push((a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t));
                }
            }
            q.into_iter().map(|(x, y)| pt(r, cx + x * c - y * s, cy + x * s + y * c, 0.0, false)).collect()
        }
        _ => (0..n)
            .map(|i| {
                let a = ph + i as f32 * std::f32::consts::TAU / n as f32;
                let d = if form < 7 { rad * r.f32_in(0.3, 1.0) } else { rad };
                let s = r.below(4) < smooth_p;
                pt(r, cx + d * a.cos(), cy + d * a.sin(), 0.0, s)
            })
            .collect(),
    };
    if r.bool() {
        v.reverse();
    }
    v
}

/// open line, for ramps
pub fn polyline(r: &mut R, n: usize) -> Vec<DragPoint> {
    let smooth_p = *r.pick(&[0usize, 2, 4]);
    let (mut x, mut y) = (r.f32_in(100.0, 800.0), r.f32_in(200.0, 1900.0));
    let mut a = r.f32_in(0.0, 6.28);
    let mut z = 0.0;
    let mut v = vec![];
    for _ in 0..n {
        let s = r.below(4) < smooth_p;
        v.push(pt(r, x, y, z, s));
        a += r.f32_in(-0.9, 0.9);
        let d = r.f32_in(20.0, 250.0);
        x += d * a.cos();
        y += d * a.sin();
        if r.chance(1, 3) {
            z += r.f32_in(-10.0, 30.0);
        }
    }
    v
}

fn degenerate(r: &mut R, v: &mut Vec<DragPoint>) {
    match r.below(5) {
        0 => v.truncate(r.below(3)),
        1 => {
            let (x, y) = (v[0].x, v[0].y);
            for p in v.iter_mut() {
                p.x = x;
                p.y = y;
            }
        }
        2 => {
            for p in v.iter_mut() {
                p.y = 500.0;
            }
        }
        3 => {
            let i = r.below(v.len());
            let c = v[i].clone();
            v.insert(i, c);
        }
        _ => {
            let c = v[0].clone();
            v.push(c);
        }
    }
}

fn v2(r: &mut R) -> Vertex2D {
    Vertex2D::new(r.f32_in(0.0, 952.0), r.f32_in(0.0, 2162.0))
}
fn angle(r: &mut R) -> f32 {
    match r.below(5) {
        0 => 0.0,
        1 => 90.0 * r.below(5) as f32,
        2 => -45.0,
        _ => r.f32_in(-360.0, 720.0),
    }
}

impl Scene {
    pub fn new(r: &mut R) -> Scene {
        let wild = r.chance(1, 3);
        let name = |r: &mut R| if wild { r.latin() } else { r.word() };
        let mut images: Vec<String> = (0..r.below(5)).map(|_| name(r)).collect();
        let mut materials: Vec<String> = (0..1 + r.below(5)).map(|_| name(r)).collect();
        if wild && r.chance(1, 4) {
            // names that differ in what file names or formats leave out
            for l in [&mut images, &mut materials] {
                if let Some(n) = l.first() {
                    let n = match r.below(3) {
                        0 => format!(" {n}"),
                        1 => n.replace(|c: char| !c.is_alphanumeric(), "_"),
                        _ => n.replace(' ', ""),
                    };
                    if !l.contains(&n) {
                        l.push(n);
                    }
                }
            }
        }
        Scene { images, materials, surfaces: vec![], wild, edgy: r.chance(1, 3) }
    }
    fn rf(&self, r: &mut R, from: &[String]) -> String {
        match r.below(8) {
            0 | 1 => String::new(),
            2 => r.word(),
            3 if !from.is_empty() => r.pick(from).to_uppercase(),
            _ if !from.is_empty() => r.pick(from).clone(),
            _ => String::new(),
        }
    }
    fn img(&self, r: &mut R) -> String {
        self.rf(r, &self.images)
    }
    fn mat(&self, r: &mut R) -> String {
        self.rf(r, &self.materials)
    }
    fn surf(&self, r: &mut R) -> String {
        if r.bool() { String::new() } else { self.rf(r, &self.surfaces) }
    }
    fn len(&self, r: &mut R, a: f32, b: f32) -> f32 {
        if self.edgy && r.chance(1, 6) { 0.0 } else { r.f32_in(a, b) }
    }
    fn shape(&self, r: &mut R, rad: f32) -> Vec<DragPoint> {
        let c = v2(r);
        let n = match r.below(8) {
            0 => 3,
            7 => 20 + r.below(40),
            _ => 3 + r.below(9),
        };
        let mut v = outline(r, c.x, c.y, rad, n);
        if self.edgy && r.chance(1, 3) {
            degenerate(r, &mut v);
        }
        v
    }

    pub fn item(&mut self, r: &mut R, k: usize) -> GameItemEnum {
        let mut it = default_item(k);
        let name = if self.wild { r.wide() } else { r.word() };
        let vis = r.chance(4, 5);
        match &mut it {
            GameItemEnum::Wall(w) => {
                w.height_bottom = r.f32_in(0.0, 60.0);
                w.height_top = w.height_bottom + self.len(r, 1.0, 120.0);
                w.image = self.img(r);
                w.side_image = self.img(r);
                w.side_material = self.mat(r);
                w.top_material = self.mat(r);
                w.is_top_bottom_visible = vis;
                w.is_side_visible = r.chance(4, 5);
                w.disable_lighting_below = r.opt(|r| r.f32_in(0.0, 1.0));
                let rad = r.f32_in(10.0, 400.0);
                w.drag_points = self.shape(r, rad);
                self.surfaces.push(name.clone());
            }
            GameItemEnum::Flipper(f) => {
                f.center = v2(r);
                f.base_radius = self.len(r, 8.0, 40.0);
                f.end_radius = self.len(r, 5.0, 25.0);
                f.flipper_radius_max = r.f32_in(50.0, 250.0);
                f.start_angle = angle(r);
                f.end_angle = angle(r);
                f.height = self.len(r, 20.0, 80.0);
                f.rubber_thickness = r.opt(|r| if r.chance(1, 3) { 0.0 } else { r.f32_in(1.0, 8.0) });
                f.rubber_thickness_int = r.below(8) as u32;
                f.rubber_height = r.opt(|r| r.f32_in(0.0, 30.0));
                f.rubber_width = r.opt(|r| r.f32_in(0.0, 40.0));
                f.rubber_width_int = r.below(30) as u32;
                f.rubber_height_int = r.below(30) as u32;
                f.surface = self.surf(r);
                f.material = self.mat(r);
                f.rubber_material = self.mat(r);
                f.image = r.opt(|r| self.img(r));
                f.is_visible = vis;
            }
            GameItemEnum::Plunger(p) => {
                p.center = v2(r);
                p.width = self.len(r, 5.0, 40.0);
                p.height = self.len(r, 5.0, 40.0);
                p.z_adjust = r.f32_in(-20.0, 40.0);
                p.stroke = self.len(r, 20.0, 150.0);
                p.plunger_type = g_plungertype(r);
                p.anim_frames = r.below(30) as u32;
                p.park_position = r.f32_in(0.0, 1.0);
                p.material = self.mat(r);
                p.image = self.img(r);
                p.is_visible = vis;
                p.surface = self.surf(r);
                p.rod_diam = self.len(r, 0.1, 1.0);
                p.ring_gap = self.len(r, 0.5, 4.0);
                p.ring_diam = self.len(r, 0.3, 2.0);
                p.ring_width = self.len(r, 1.0, 8.0);
                p.spring_diam = self.len(r, 0.2, 1.2);
                p.spring_gauge = self.len(r, 0.5, 3.0);
                p.spring_loops = self.len(r, 1.0, 12.0);
                p.spring_end_loops = self.len(r, 0.0, 4.0);
                p.tip_shape = r.pick(&["0 .34; 2 .6; 3 .64; 5 .7; 7 .84; 8 .88; 9 .9; 11 .92; 14 .92; 39 .84", "0 .5", "", "0 .2; 10 .5; 20 1", "1;2;3", "x y; 5 .5", "0 0; 0 0"]).to_string();
            }
            GameItemEnum::Bumper(b) => {
                b.center = v2(r);
                b.radius = self.len(r, 10.0, 90.0);
                b.height_scale = self.len(r, 20.0, 120.0);
                b.orientation = angle(r);
                b.ring_drop_offset = r.opt(|r| r.f32_in(-10.0, 10.0));
                b.cap_material = self.mat(r);
                b.base_material = self.mat(r);
                b.socket_material = self.mat(r);
                b.ring_material = r.opt(|r| self.mat(r));
                b.surface = self.surf(r);
                b.is_cap_visible = vis;
                b.is_base_visible = r.bool();
                b.is_ring_visible = r.opt(|r| r.bool());
                b.is_socket_visible = r.opt(|r| r.bool());
            }
            GameItemEnum::Trigger(t) => {
                t.center = v2(r);
                t.radius = self.len(r, 5.0, 50.0);
                t.rotation = angle(r);
                t.wire_thickness = r.opt(|r| r.f32_in(0.0, 3.0));
                t.scale_x = self.len(r, 0.3, 2.0);
                t.scale_y = self.len(r, 0.3, 2.0);
                t.material = self.mat(r);
                t.surface = self.surf(r);
                t.is_visible = vis;
                t.hit_height = r.f32_in(10.0, 60.0);
                t.shape = g_triggershape(r);
                t.drag_points = self.shape(r, 40.0);
            }
            GameItemEnum::Light(l) => {
                l.center = v2(r);
                l.height = r.opt(|r| r.f32_in(-10.0, 60.0));
                l.falloff_radius = self.len(r, 10.0, 300.0);
                l.color = Color::from_win_color(r.u32());
                l.color2 = Color::from_win_color(r.u32());
                l.image = self.img(r);
                l.intensity = r.f32_in(0.0, 50.0);
                l.surface = self.surf(r);
                l.is_backglass = r.chance(1, 8);
                l.is_bulb_light = r.bool();
                l.is_image_mode = r.bool();
                l.show_bulb_mesh = r.bool();
                l.has_static_bulb_mesh = r.opt(|r| r.bool());
                l.mesh_radius = self.len(r, 5.0, 60.0);
                l.bulb_halo_height = r.f32_in(0.0, 60.0);
                l.visible = r.opt(|_| vis);
                l.drag_points = if r.chance(1, 6) { vec![] } else { self.shape(r, 60.0) };
            }
            GameItemEnum::Kicker(q) => {
                q.center = v2(r);
                q.radius = self.len(r, 10.0, 50.0);
                q.material = self.mat(r);
                q.surface = self.surf(r);
                q.kicker_type = g_kickertype(r);
                q.orientation = angle(r);
                q.hit_height = r.opt(|r| r.f32_in(0.0, 60.0));
            }
            GameItemEnum::Decal(d) => {
                d.center = v2(r);
                d.width = self.len(r, 10.0, 300.0);
                d.height = self.len(r, 10.0, 300.0);
                d.rotation = angle(r);
                d.image = self.img(r);
                d.surface = self.surf(r);
                d.material = self.mat(r);
                d.decal_type = g_decaltype(r);
                d.sizing_type = g_sizingtype(r);
                d.backglass = r.chance(1, 6);
            }
            GameItemEnum::Gate(g) => {
                g.center = v2(r);
                g.length = self.len(r, 20.0, 200.0);
                g.height = r.f32_in(0.0, 80.0);
                g.rotation = angle(r);
                g.material = self.mat(r);
                g.show_bracket = r.bool();
                g.surface = self.surf(r);
                g.is_visible = vis;
                g.gate_type = r.opt(|r| g_gatetype(r));
                g.angle_max = r.f32_in(-3.0, 3.0);
                g.angle_min = r.f32_in(-3.0, 3.0);
            }
            GameItemEnum::Spinner(s) => {
                s.center = v2(r);
                s.rotation = angle(r);
                s.height = r.f32_in(0.0, 100.0);
                s.length = self.len(r, 20.0, 160.0);
                s.is_visible = vis;
                s.show_bracket = r.bool();
                s.material = self.mat(r);
                s.image = self.img(r);
                s.surface = self.surf(r);
            }
            GameItemEnum::Ramp(p) => {
                p.height_bottom = r.f32_in(0.0, 40.0);
                p.height_top = r.f32_in(0.0, 150.0);
                p.width_bottom = self.len(r, 20.0, 120.0);
                p.width_top = self.len(r, 20.0, 120.0);
                p.material = self.mat(r);
                p.ramp_type = g_ramptype(r);
                p.image = self.img(r);
                p.image_alignment = g_rampimagealignment(r);
                p.image_walls = r.bool();
                p.left_wall_height = r.f32_in(0.0, 80.0);
                p.right_wall_height = r.f32_in(0.0, 80.0);
                p.left_wall_height_visible = if r.chance(1, 4) { 0.0 } else { self.len(r, 0.0, 80.0) };
                p.right_wall_height_visible = if r.chance(1, 4) { 0.0 } else { self.len(r, 0.0, 80.0) };
                p.is_visible = vis;
                p.wire_diameter = self.len(r, 2.0, 12.0);
                p.wire_distance_x = r.f32_in(5.0, 60.0);
                p.wire_distance_y = r.f32_in(5.0, 100.0);
                let n = 2 + r.below(9);
                p.drag_points = polyline(r, n);
                if self.edgy && r.chance(1, 3) {
                    degenerate(r, &mut p.drag_points);
                }
                self.surfaces.push(name.clone());
            }
            GameItemEnum::Primitive(p) => {
                p.position = Vertex3D::new(r.f32_in(0.0, 952.0), r.f32_in(0.0, 2162.0), r.f32_in(-50.0, 200.0));
                let u = r.bool();
                let s = self.len(r, 0.2, 100.0);
                p.size = if u { Vertex3D::new(s, s, s) } else { Vertex3D::new(s, self.len(r, 0.2, 100.0), self.len(r, 0.2, 100.0)) };
                for (i, a) in p.rot_and_tra.iter_mut().enumerate() {
                    *a = if r.bool() {
                        0.0
                    } else if (3..6).contains(&i) {
                        r.f32_in(-50.0, 50.0)
                    } else {
                        angle(r)
                    };
                }
                p.image = self.img(r);
                p.material = self.mat(r);
                p.is_visible = vis;
                p.sides = 3 + r.below(20) as u32;
                p.draw_textures_inside = r.bool();
                p.use_3d_mesh = false;
                p.disable_lighting_below = r.opt(|r| r.f32_in(0.0, 1.0));
                p.display_texture = r.opt(|r| r.bool());
                if r.chance(2, 3) {
                    p.use_3d_mesh = true;
                    let m = good_mesh(r);
                    set_mesh(p, &m, r, false);
                }
            }
            GameItemEnum::Flasher(f) => {
                f.height = r.f32_in(0.0, 200.0);
                f.rot_x = angle(r);
                f.rot_y = angle(r);
                f.rot_z = angle(r);
                f.color = Color::from_win_color(r.u32());
                f.image_a = self.img(r);
                f.image_b = self.img(r);
                f.alpha = r.below(101) as i32;
                f.is_visible = vis;
                f.image_alignment = g_rampimagealignment(r);
                let rad = r.f32_in(10.0, 300.0);
                f.drag_points = self.shape(r, rad);
                let (mut x0, mut x1, mut y0, mut y1) = (f32::MAX, f32::MIN, f32::MAX, f32::MIN);
                for p in &f.drag_points {
                    x0 = x0.min(p.x);
                    x1 = x1.max(p.x);
                    y0 = y0.min(p.y);
                    y1 = y1.max(p.y);
                }
                if f.drag_points.is_empty() {
                    (f.pos_x, f.pos_y) = (100.0, 100.0);
                } else {
                    (f.pos_x, f.pos_y) = ((x0 + x1) / 2.0, (y0 + y1) / 2.0);
                }
            }
            GameItemEnum::Rubber(u) => {
                u.height = r.f32_in(0.0, 80.0);
                u.hit_height = r.opt(|r| r.f32_in(0.0, 80.0));
                u.thickness = if self.edgy && r.chance(1, 6) { 0 } else { 1 + r.below(20) as i32 };
                u.material = self.mat(r);
                u.image = self.img(r);
                u.is_visible = vis;
                u.rot_x = angle(r);
                u.rot_y = angle(r);
                u.rot_z = angle(r);
                let rad = r.f32_in(20.0, 200.0);
                u.drag_points = self.shape(r, rad);
            }
            GameItemEnum::HitTarget(h) => {
                h.position = Vertex3D::new(r.f32_in(0.0, 952.0), r.f32_in(0.0, 2162.0), r.f32_in(-20.0, 80.0));
                h.size = Vertex3D::new(self.len(r, 5.0, 60.0), self.len(r, 5.0, 60.0), self.len(r, 5.0, 60.0));
                h.rot_z = angle(r);
                h.image = self.img(r);
                h.material = self.mat(r);
                h.target_type = g_targettype(r);
                h.is_visible = vis;
                h.is_dropped = r.bool();
            }
            GameItemEnum::Ball(b) => {
                b.pos = Vertex3D::new(r.f32_in(0.0, 952.0), r.f32_in(0.0, 2162.0), r.f32_in(0.0, 80.0));
                b.radius = self.len(r, 5.0, 50.0);
                b.color = if r.bool() { Color::from_win_color(0xffffff) } else { Color::from_win_color(r.u32()) };
                b.decal_mode = r.bool();
                b.image = self.img(r);
                b.image_decal = self.img(r);
            }
            _ => {}
        }
        set_layer(&mut it, r);
        set_item_name(&mut it, name);
        it
    }

    pub fn table(r: &mut R, max_items: usize) -> VPX {
        let mut s = Scene::new(r);
        let mut v = VPX::default();
        let version = *r.pick(&[1080u32, 1080, 1081, 1072, 1060, 1010]);
        v.version = Version::new(version);
        let n = r.below(max_items + 1);
        for _ in 0..n {
            let k = if r.chance(1, 10) { r.below(N_ITEM_TYPES) } else { *r.pick(GEO) };
            let mut it = s.item(r, k);
            if r.chance(1, 8) && !v.gameitems.is_empty() {
                let o: String = v.gameitems[r.below(v.gameitems.len())].name().to_string();
                set_item_name(&mut it, if r.bool() { o.to_uppercase() } else { o });
            }
            if matches!(&it, GameItemEnum::Light(_)) && r.bool() {
                let n = format!("{}{}", r.pick(&["gi", "GI", "Gi_"]), r.word());
                set_item_name(&mut it, n);
            }
            if matches!(&it, GameItemEnum::Primitive(_)) && r.chance(1, 8) {
                set_item_name(&mut it, r.pick(&["playfield_mesh", "Playfield_Mesh"]).to_string());
            }
            v.gameitems.push(it);
        }
        for name in s.images.clone() {
            v.images.push(scene_image(r, &name));
        }
        let g = &mut v.gamedata;
        g.name = if s.wild { r.wide() } else { "Table1".into() };
        (g.left, g.top) = if r.chance(3, 4) { (0.0, 0.0) } else { (r.f32_in(-50.0, 50.0), r.f32_in(-50.0, 50.0)) };
        (g.right, g.bottom) = (g.left + r.f32_in(400.0, 1500.0), g.top + r.f32_in(800.0, 3000.0));
        g.glass_top_height = r.f32_in(50.0, 600.0);
        g.light_height = r.f32_in(100.0, 3000.0);
        g.light_range = r.f32_in(100.0, 4_000_000.0);
        g.light_emission_scale = r.f32_in(0.0, 4_000_000.0);
        g.global_emission_scale = r.f32_in(0.0, 1.0);
        g.light0_emission = Color::from_win_color(r.u32());
        g.image = s.img(r);
        g.playfield_material = s.mat(r);
        g.ball_image_front = s.img(r);
        g.ball_decal_mode = r.bool();
        g.playfield_reflection_strength = r.f32_in(0.0, 1.0);
        g.overwrite_global_detail_level = r.opt(|r| r.bool());
        g.user_detail_level = r.opt(|r| r.below(11) as u32);
        g.bg_view_mode_desktop = r.opt(|r| g_viewlayoutmode(r));
        g.bg_view_mode_fullscreen = r.opt(|r| g_viewlayoutmode(r));
        g.bg_view_mode_full_single_screen = r.opt(|r| g_viewlayoutmode(r));
        g.bg_fov_desktop = r.f32_in(5.0, 80.0);
        g.bg_fov_fullscreen = r.f32_in(5.0, 80.0);
        g.bg_fov_full_single_screen = r.opt(|r| r.f32_in(5.0, 80.0));
        g.bg_inclination_desktop = r.f32_in(0.0, 90.0);
        g.bg_inclination_fullscreen = r.f32_in(0.0, 90.0);
        g.bg_inclination_full_single_screen = r.opt(|r| r.f32_in(0.0, 90.0));
        g.bg_offset_x_desktop = r.f32_in(-300.0, 300.0);
        g.bg_offset_y_desktop = r.f32_in(-300.0, 300.0);
        g.bg_offset_z_desktop = r.f32_in(-300.0, 600.0);
        g.bg_offset_x_fullscreen = r.f32_in(-300.0, 300.0);
        let ms: Vec<Material> = s
            .materials
            .iter()
            .map(|n| {
                let mut m = Material::default();
                m.name = n.clone();
                m.opacity = if r.bool() { 1.0 } else { r.f32_in(0.0, 1.0) };
                m.opacity_active = r.bool();
                m.roughness = r.f32_in(0.0, 1.0);
                m.base_color = if r.chance(1, 3) { Color::from_win_color(0xffffff) } else { Color::from_win_color(r.u32()) };
                m.glossy_color = Color::from_win_color(r.u32());
                m.type_ = g_materialtype(r);
                m
            })
            .collect();
        g.materials_old = ms.iter().map(|m| m.into()).collect();
        g.materials_physics_old = Some(ms.iter().map(|m| m.into()).collect());
        g.materials_size = ms.len() as u32;
        g.materials = if version >= 1080 || r.chance(1, 4) { Some(ms) } else { None };
        g.gameitems_size = v.gameitems.len() as u32;
        g.images_size = v.images.len() as u32;
        v
    }
}

/// a mesh whose vertices are all finite and whose faces are triangles
pub fn good_mesh(r: &mut R) -> Mesh {
    let nv = match r.below(6) {
        0 => 3,
        1 => 4,
        _ => 3 + r.below(60),
    };
    let nf = 1 + r.below(nv * 2);
    let verts = (0..nv)
        .map(|_| {
            let n = [r.f32_in(-1.0, 1.0), r.f32_in(-1.0, 1.0), r.f32_in(0.1, 1.0)];
            let l = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt();
            [r.f32_in(-50.0, 50.0), r.f32_in(-50.0, 50.0), r.f32_in(-50.0, 50.0), n[0] / l, n[1] / l, n[2] / l, r.f32_in(0.0, 1.0), r.f32_in(0.0, 1.0)]
        })
        .collect();
    let faces = (0..nf).map(|_| [r.below(nv) as u32, r.below(nv) as u32, r.below(nv) as u32]).collect();
    Mesh { verts, faces }
}

pub fn scene_image(r: &mut R, name: &str) -> ImageData {
    let (w, h) = (1 + r.below(8) as u32, 1 + r.below(8) as u32);
    let mut im = ImageData { name: name.to_string(), width: w, height: h, ..ImageData::default() };
    match r.below(8) {
        0 => {
            im.path = format!("{}.bmp", r.word());
            im.bits = Some(ImageDataBits { lzw_compressed_data: lzw(&g_bgra(r, w, h)) });
        }
        1 => {
            // the screenshot image is only a link
            im.link = Some(1);
            im.path = format!("{}.jpg", r.word());
        }
        k => {
            let (ext, data) = match k {
                2 => ("jpg", g_real_image(r, image::ImageFormat::Jpeg, w, h, false)),
                3 => ("webp", g_real_image(r, image::ImageFormat::WebP, w, h, true)),
                4 => ("hdr", r.blob()),
                _ => ("png", {
                    let a = r.bool();
                    g_real_image(r, image::ImageFormat::Png, w, h, a)
                }),
            };
            im.path = format!("{}.{ext}", r.word());
            im.jpeg = Some(ImageDataJpeg { path: im.path.clone(), name: name.to_string(), internal_name: None, data });
        }
    }
    im
}

fn set_layer(it: &mut GameItemEnum, r: &mut R) {
    let l = r.opt(|r| r.below(12) as u32);
    let n = r.opt(|r| r.pick(&["", "Layer_1", "lights", "Walls", "a/b"]).to_string());
    macro_rules! s {
        ($($t:ident),*) => { match it { $(GameItemEnum::$t(x) => { x.editor_layer = l; x.editor_layer_name = n; })* _ => {} } };
    }
    s!(Wall, Flipper, Plunger, Bumper, Trigger, Light, Kicker, Decal, Gate, Spinner, Ramp, Primitive, Flasher, Rubber, HitTarget, Ball);
}
