//! C19: generated meshes are valid geometry.
use super::agree::*;
use crate::ensure;
use crate::report::*;
use crate::rng::*;
use crate::scene::GEO;
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::gameitem::kicker::KickerType;
use vpin::vpx::gameitem::ramp::RampType;
use vpin::vpx::gameitem::trigger::TriggerShape;
use vpin::vpx::units::ExportUnits;

fn sub(a: P3, b: P3) -> P3 {
    std::array::from_fn(|i| a[i] - b[i])
}
fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: P3, b: P3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn len(a: P3) -> f64 {
    dot(a, a).sqrt()
}


fn rz(p: P3, deg: f64) -> P3 {
    let (s, c) = deg.to_radians().sin_cos();
    [p[0] * c - p[1] * s, p[0] * s + p[1] * c, p[2]]
}
fn points(it: &GameItemEnum) -> Option<&Vec<vpin::vpx::gameitem::dragpoint::DragPoint>> {
    Some(match it {
        GameItemEnum::Wall(x) => &x.drag_points,
        GameItemEnum::Light(x) => &x.drag_points,
        GameItemEnum::Flasher(x) => &x.drag_points,
        GameItemEnum::Rubber(x) => &x.drag_points,
        GameItemEnum::Ramp(x) => &x.drag_points,
        _ => return None,
    })
}
/// the item with straight lines between its points
fn straight(it: &mut GameItemEnum) {
    let p = match it {
        GameItemEnum::Wall(x) => &mut x.drag_points,
        GameItemEnum::Light(x) => &mut x.drag_points,
        GameItemEnum::Flasher(x) => &mut x.drag_points,
        GameItemEnum::Rubber(x) => &mut x.drag_points,
        GameItemEnum::Ramp(x) => &mut x.drag_points,
        _ => return,
    };
    p.iter_mut().for_each(|p| p.smooth = false);
}
/// around the same place, but a few units large
fn small(it: &mut GameItemEnum, r: &mut R) {
    let p = match it {
        GameItemEnum::Wall(x) => &mut x.drag_points,
        GameItemEnum::Flasher(x) => &mut x.drag_points,
        _ => return,
    };
    let n = p.len() as f32;
    let (cx, cy) = (p.iter().map(|p| p.x).sum::<f32>() / n, p.iter().map(|p| p.y).sum::<f32>() / n);
    let rad = p.iter().map(|p| (p.x - cx).hypot(p.y - cy)).fold(0.0, f32::max);
    let k = r.f32_in(1.0, 15.0) / rad;
    for p in p {
        p.x = cx + (p.x - cx) * k;
        p.y = cy + (p.y - cy) * k;
    }
}
fn shoelace(p: &[[f64; 2]]) -> f64 {
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).map(|(a, b)| a[0] * b[1] - b[0] * a[1]).sum::<f64>().abs() / 2.0
}
fn area(m: &World) -> f64 {
    m.tri.iter().map(|t| len(cross(sub(m.pos[t[1]], m.pos[t[0]]), sub(m.pos[t[2]], m.pos[t[0]]))) / 2.0).sum()
}
/// distance of a point from the line through the points
fn off(p: [f64; 2], line: &[[f64; 2]], closed: bool) -> f64 {
    let n = line.len();
    let m = if closed { n } else { n - 1 };
    (0..m)
        .map(|i| {
            let (a, b) = (line[i], line[(i + 1) % n]);
            let d = [b[0] - a[0], b[1] - a[1]];
            let l = d[0] * d[0] + d[1] * d[1];
            let t = if l > 0.0 { (((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / l).clamp(0.0, 1.0) } else { 0.0 };
            ((p[0] - a[0] - t * d[0]).powi(2) + (p[1] - a[1] - t * d[1]).powi(2)).sqrt()
        })
        .fold(f64::MAX, f64::min)
}
fn centre(it: &GameItemEnum) -> Option<[f64; 2]> {
    let c = match it {
        GameItemEnum::Flipper(x) => [x.center.x, x.center.y],
        GameItemEnum::Bumper(x) => [x.center.x, x.center.y],
        GameItemEnum::Trigger(x) => [x.center.x, x.center.y],
        GameItemEnum::Light(x) => [x.center.x, x.center.y],
        GameItemEnum::Kicker(x) => [x.center.x, x.center.y],
        GameItemEnum::Decal(x) => [x.center.x, x.center.y],
        GameItemEnum::Gate(x) => [x.center.x, x.center.y],
        GameItemEnum::Spinner(x) => [x.center.x, x.center.y],
        GameItemEnum::HitTarget(x) => [x.position.x, x.position.y],
        GameItemEnum::Ball(x) => [x.pos.x, x.pos.y],
        _ => return None,
    };
    Some([c[0] as f64, c[1] as f64])
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("one evaluation = one table whose generated meshes are examined; distinct = meshes by item type, part and exact vertex positions");
    let deep = ctx.thorough();
    let t = if deep { 100.0 } else { 6.0 };
    ctx.cases("validity", if deep { 60_000 } else { 4000 }, t, |r, _| {
        let (s, its) = items(r, 6, GEO);
        let v = table(r, &s, its);
        let (_, w) = gltf(&v, true, ExportUnits::Vpu, true)?;
        for m in &w {
            let Some(name) = item_of(&m.name) else { continue };
            let it = &v.gameitems[name[1..3].parse::<usize>().unwrap()];
            if matches!(it, GameItemEnum::Primitive(_)) {
                continue; // its normals are stored
            }
            let part = format!("{} {}", it.type_name(), &m.name[4..]);
            ctx.count(&format!("meshes: {part}"), 1);
            seen(ctx, &part, m);
            ensure!(m.norm.len() == m.pos.len() && m.uv.len() == m.pos.len(), "a vertex without normal or texture coordinate", "{part}");
            for n in &m.norm {
                // (some normals of the bumper socket Visual Pinball comes with are not of length 1)
                let ok = if part == "Bumper Socket" { len(*n) > 0.1 && len(*n) < 1.1 } else { (len(*n) - 1.0).abs() < 1e-3 };
                ensure!(ok, "a normal is not of length 1", "{part}: {n:?}");
            }
            let (mut good, mut wrong, mut flat) = (0, 0, 0);
            for t in &m.tri {
                let n = cross(sub(m.pos[t[1]], m.pos[t[0]]), sub(m.pos[t[2]], m.pos[t[0]]));
                let a: P3 = std::array::from_fn(|c| t.iter().map(|i| m.norm[*i][c]).sum());
                // (points in one line need not be so after rounding)
                let side = (0..3).map(|k| len(sub(m.pos[t[k]], m.pos[t[(k + 1) % 3]]))).fold(0.0, f64::max);
                let size = t.iter().flat_map(|i| m.pos[*i]).fold(1.0, |a: f64, b| a.max(b.abs()));
                if len(n) < 1e-6 {
                    flat += 1;
                } else if dot(n, a) >= 0.0 || len(n) < side * size * 5e-7 {
                    good += 1;
                } else {
                    wrong += 1;
                }
            }
            ctx.count("triangles", m.tri.len() as u64);
            let exact = matches!(it, GameItemEnum::Wall(_) | GameItemEnum::Flasher(_) | GameItemEnum::Decal(_) | GameItemEnum::Spinner(_) | GameItemEnum::Gate(_) | GameItemEnum::Light(_) | GameItemEnum::Ball(_) | GameItemEnum::HitTarget(_));
            let most = matches!(it, GameItemEnum::Rubber(_) | GameItemEnum::Ramp(_) | GameItemEnum::Bumper(_) | GameItemEnum::Kicker(_) | GameItemEnum::Trigger(_));
            ensure!(!exact || wrong == 0, "a triangle faces away from its normals", "{part}: {wrong} of {}", m.tri.len());
            ensure!(!most || wrong <= good, "most triangles face away from their normals", "{part}: {wrong} of {}", m.tri.len());
            let lined = matches!(it, GameItemEnum::Wall(_) | GameItemEnum::Flasher(_) | GameItemEnum::Light(_));
            ensure!(flat * 2 <= m.tri.len() || lined && flat < m.tri.len() || matches!(it, GameItemEnum::Plunger(_) | GameItemEnum::Flipper(_)), "most triangles have no area", "{part}: {flat} of {}", m.tri.len());
        }
        Ok(())
    });

    // shapes that are given by their outline
    ctx.cases("outlines", if deep { 60_000 } else { 4000 }, t, |r, _| {
        let (s, mut its) = items(r, 4, &[0, 7, 16, 17, 12]);
        let mut some = vec![];
        for it in &mut its {
            show(it, true);
            if r.chance(2, 3) {
                straight(it);
            }
            if r.chance(1, 3) && matches!(it, GameItemEnum::Wall(_) | GameItemEnum::Flasher(_)) {
                small(it, r);
                some.push(it.name().to_string());
            }
            match it {
                GameItemEnum::Flasher(f) => (f.rot_x, f.rot_y) = (0.0, 0.0),
                GameItemEnum::Rubber(f) => (f.rot_x, f.rot_y, f.rot_z) = (0.0, 0.0, 0.0),
                GameItemEnum::Light(l) => l.surface = String::new(),
                _ => {}
            }
        }
        let v = table(r, &s, its);
        let (_, w) = gltf(&v, true, ExportUnits::Vpu, true)?;
        for n in &some {
            let it = v.gameitems.iter().find(|i| i.name() == n).unwrap();
            let part = if matches!(it, GameItemEnum::Wall(_)) { "xTop" } else { "x" };
            ctx.count(&format!("small {}", it.type_name()), 1);
            ensure!(w.iter().any(|m| item_of(&m.name) == Some(n) && &m.name[3..] == part), format!("{}: a small one has no mesh", it.type_name()), "{n}");
        }
        for it in &v.gameitems {
            let Some(dp) = points(it) else { continue };
            let line: Vec<[f64; 2]> = dp.iter().map(|p| [p.x as f64, p.y as f64]).collect();
            let flat = dp.iter().all(|p| !p.smooth);
            let kind = it.type_name();
            for m in w.iter().filter(|m| item_of(&m.name) == Some(it.name())) {
                let part = &m.name[4..];
                let (lo, hi) = m.bounds();
                ctx.count(&format!("outline of {kind} {part}{}", if flat { "" } else { ", smooth" }), 1);
                seen(ctx, part, m);
                let size = line.iter().flatten().fold(0.0, |a: f64, b| a.max(b.abs()));
                let eps = 1e-5 * size + 0.01;
                let around: f64 = (0..line.len()).map(|i| (line[i], line[(i + 1) % line.len()])).map(|(a, b)| (a[0] - b[0]).hypot(a[1] - b[1])).sum();
                let tiny = (around * 1e-6 * size).min(0.5);
                match (it, part) {
                    (GameItemEnum::Wall(_), "Top") | (GameItemEnum::Light(_), "_insert") | (GameItemEnum::Flasher(_), "") => {
                        let z = match it {
                            GameItemEnum::Wall(x) => x.height_top as f64,
                            GameItemEnum::Light(_) => 0.1,
                            GameItemEnum::Flasher(x) => x.height as f64,
                            _ => unreachable!(),
                        };
                        ensure!((lo[2] - z).abs() < 0.01 && (hi[2] - z).abs() < 0.01, format!("{kind}: the face is not at its height"), "{part}: {lo:?} {hi:?} instead of {z}");
                        if let GameItemEnum::Flasher(f) = it {
                            if f.rot_z != 0.0 {
                                if flat {
                                    let (a, b) = (area(m), shoelace(&line));
                                    ensure!((a - b).abs() <= 1e-3 * b + tiny, format!("{kind}: the area of the face is not that of its outline"), "{a} instead of {b}");
                                }
                                continue;
                            }
                        }
                        for p in &line {
                            ensure!(m.pos.iter().any(|q| (q[0] - p[0]).abs() < eps && (q[1] - p[1]).abs() < eps), format!("{kind}: a point of the outline is missing"), "{part}: {p:?}");
                        }
                        if flat {
                            let (a, b) = (area(m), shoelace(&line));
                            ensure!((a - b).abs() <= 1e-3 * b + tiny, format!("{kind}: the area of the face is not that of its outline"), "{part}: {a} instead of {b}");
                            ensure!(m.pos.iter().all(|q| line.iter().any(|p| (q[0] - p[0]).abs() < eps && (q[1] - p[1]).abs() < eps)), format!("{kind}: a vertex is not on the outline"), "{part}");
                        }
                        // normals point up
                        ensure!(m.norm.iter().all(|n| n[2] > 0.99), format!("{kind}: the face does not face up"), "{part}: {:?}", m.norm.first());
                    }
                    (GameItemEnum::Wall(x), "Side") => {
                        let (a, b) = (x.height_bottom as f64, x.height_top as f64);
                        ensure!(m.pos.iter().all(|p| (p[2] - a).abs() < 0.01 || (p[2] - b).abs() < 0.01), "Wall: a side vertex is at no edge", "{lo:?} {hi:?} instead of {a}..{b}");
                        for p in &line {
                            for z in [a, b] {
                                ensure!(m.pos.iter().any(|q| (q[0] - p[0]).abs() < eps && (q[1] - p[1]).abs() < eps && (q[2] - z).abs() < 0.01), "Wall: a corner is missing", "{p:?} {z}");
                            }
                        }
                        if flat {
                            let per: f64 = (0..line.len()).map(|i| (line[i], line[(i + 1) % line.len()])).map(|(p, q)| ((p[0] - q[0]).powi(2) + (p[1] - q[1]).powi(2)).sqrt()).sum();
                            let (got, want) = (area(m), per * (b - a));
                            ensure!((got - want).abs() <= 1e-3 * want + 0.5, "Wall: the sides have another area", "{got} instead of {want}");
                        }
                        ensure!(m.norm.iter().all(|n| n[2].abs() < 0.01), "Wall: a side is not upright", "{:?}", m.norm.first());
                        // sides face outwards: the point next to the wall, along the normal, is outside
                        if flat {
                            let step = (0..2).map(|i| hi[i] - lo[i]).fold(25.0, f64::min) * 0.002;
                            let c = m.tri.iter().filter(|t| {
                                let p: P3 = std::array::from_fn(|c| t.iter().map(|i| m.pos[*i][c]).sum::<f64>() / 3.0);
                                let n = cross(sub(m.pos[t[1]], m.pos[t[0]]), sub(m.pos[t[2]], m.pos[t[0]]));
                                let l = len(n).max(1e-12);
                                inside([p[0] + step * n[0] / l, p[1] + step * n[1] / l], &line)
                            }).count();
                            ensure!(c == 0 || c == m.tri.len(), "Wall: some sides face inwards and some outwards", "{c} of {}", m.tri.len());
                            ctx.count(if c > 0 { "walls drawn the other way round" } else { "walls with sides outwards" }, 1);
                        }
                    }
                    (GameItemEnum::Rubber(x), _) => {
                        let th = x.thickness as f64 / 2.0;
                        ctx.count("rubbers", 1);
                        ensure!(lo[2] >= x.height as f64 - th - 0.1 && hi[2] <= x.height as f64 + th + 0.1, "Rubber: thicker than it should be", "{lo:?} {hi:?} height {} thickness {}", x.height, x.thickness);
                        if flat {
                            for p in &m.pos {
                                let d = off([p[0], p[1]], &line, true);
                                ensure!(d <= th * 1.01 + 0.1, "Rubber: a vertex is too far from its line", "{d} of {th}");
                            }
                        }
                    }
                    (GameItemEnum::Ramp(x), _) => {
                        let wire = x.ramp_type != RampType::Flat;
                        let zs: Vec<f64> = dp.iter().map(|p| p.z as f64).collect();
                        let (zmin, zmax) = (zs.iter().cloned().fold(f64::MAX, f64::min), zs.iter().cloned().fold(f64::MIN, f64::max));
                        let z0 = x.height_bottom.min(x.height_top) as f64 + zmin.min(0.0);
                        let up = if wire { x.wire_distance_y + x.wire_diameter } else { x.left_wall_height_visible.max(x.right_wall_height_visible) };
                        let z1 = x.height_bottom.max(x.height_top) as f64 + zmax.max(0.0) + up as f64;
                        let low = if wire { x.wire_diameter as f64 } else { 0.0 };
                        let slack = 0.05 + if flat { 0.0 } else { 0.5 * (zmax - zmin) };
                        ensure!(lo[2] >= z0 - low - slack && hi[2] <= z1 + slack, "Ramp: higher or lower than it should be", "{:?} {}..{} instead of {}..{z1}", x.ramp_type, lo[2], hi[2], z0 - low);
                        let w = if wire { x.wire_distance_x + x.wire_diameter } else { x.width_bottom.max(x.width_top) } as f64 / 2.0;
                        let far = m.pos.iter().map(|p| off([p[0], p[1]], &line, false)).fold(0.0, f64::max);
                        // (a line turns by at most 0.9 at a point, so a mitre is at most 1.11 times as wide)
                        ensure!(!flat || far <= 1.12 * w + 0.1, "Ramp: wider than it should be", "{:?} {far} instead of {w}", x.ramp_type);
                        // (where the line hardly turns, the mitre is found with little precision along the line)
                        ensure!(line.iter().all(|p| m.pos.iter().any(|q| ((q[0] - p[0]).powi(2) + (q[1] - p[1]).powi(2)).sqrt() <= 2.0 * w + 1.0)), "Ramp: does not pass by one of its points", "{:?} {line:?} {w} {:?}", x.ramp_type, line.iter().map(|p| m.pos.iter().map(|q| (q[0] - p[0]).hypot(q[1] - p[1])).fold(f64::MAX, f64::min)).collect::<Vec<_>>());
                        if !wire {
                            // floor and walls have four and two triangles, or half, for each piece of the line
                            let walls = [x.left_wall_height_visible, x.right_wall_height_visible].iter().filter(|h| **h > 0.0).count();
                            ctx.count(&format!("walls of ramps: {walls}"), 1);
                            let parts = 1 + walls;
                            ensure!(m.tri.len() % parts == 0, "Ramp: floor and walls are of different length", "{} triangles for {parts}", m.tri.len());
                            let per = m.tri.len() / parts;
                            let side = |t: &[usize; 3]| t.iter().all(|i| m.norm[*i][2].abs() < 0.2);
                            let up = m.tri.iter().filter(|t| side(t)).count();
                            ctx.count(if up == walls * per { "ramps with upright walls" } else { "ramps with other walls" }, 1);
                            let used: std::collections::BTreeSet<usize> = m.tri.iter().flatten().cloned().collect();
                            ensure!(used.len() == m.pos.len(), "Ramp: vertices that no triangle uses", "{} of {}", used.len(), m.pos.len());
                        }
                        if !wire && flat {
                            let n = line.len();
                            for (i, j, w, h) in [(0, 1, x.width_bottom, x.height_bottom), (n - 1, n - 2, x.width_top, x.height_top)] {
                                let d = [line[j][0] - line[i][0], line[j][1] - line[i][1]];
                                let l = (d[0] * d[0] + d[1] * d[1]).sqrt();
                                for sg in [-0.5, 0.5] {
                                    let want = [line[i][0] - d[1] / l * sg * w as f64, line[i][1] + d[0] / l * sg * w as f64, h as f64 + zs[i]];
                                    let found = m.pos.iter().map(|p| len(sub(*p, want))).fold(f64::MAX, f64::min);
                                    ensure!(found < 0.05, "Ramp: an end is not at its place", "{i} of {n}: {want:?} is {found} away");
                                    ctx.count("ends of ramps", 1);
                                    // the wall on this side, seen in the direction of the line
                                    let right = (sg > 0.0) == (i == 0);
                                    let wall = if right { x.right_wall_height_visible } else { x.left_wall_height_visible } as f64;
                                    let here: Vec<f64> = m.pos.iter().filter(|p| (p[0] - want[0]).abs() < 0.05 && (p[1] - want[1]).abs() < 0.05).map(|p| p[2] - want[2]).collect();
                                    let top = here.iter().cloned().fold(0.0, f64::max);
                                    ensure!((top - wall.max(0.0)).abs() < 0.05, "Ramp: a wall is not of its height", "{} wall at {i} of {n}: {top} instead of {wall}", if right { "right" } else { "left" });
                                }
                            }
                        }
                        ctx.count(&format!("ramps {:?}", x.ramp_type), 1);
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    });

    // built-in shapes grow and turn with the parameters
    ctx.cases("scaled and turned", if deep { 60_000 } else { 4000 }, t, |r, _| {
        let seed = r.u64();
        let k = [2.0f32, 0.5, 1.5][r.below(3)];
        let turn = [90.0f32, 30.0, -45.0, 200.0][r.below(4)];
        let what = r.below(2);
        let make = |on: bool| {
            let mut r = R::new(seed);
            let (s, mut its) = items(&mut r, 5, &[1, 5, 6, 7, 8, 9, 10, 11, 18, 19]);
            for it in &mut its {
                let (k, turn) = if on { if what == 0 { (k, 0.0) } else { (1.0, turn) } } else { (1.0, 0.0) };
                match it {
                    GameItemEnum::Flipper(x) => {
                        x.rubber_thickness = Some(x.rubber_thickness.unwrap_or(3.0).min(x.end_radius / 2.0).min(x.base_radius / 2.0));
                        x.rubber_height = x.rubber_height.or(Some(5.0));
                        x.rubber_width = x.rubber_width.or(Some(8.0));
                        for v in [&mut x.base_radius, &mut x.end_radius, &mut x.flipper_radius_max, &mut x.height] {
                            *v *= k;
                        }
                        for v in [&mut x.rubber_thickness, &mut x.rubber_height, &mut x.rubber_width] {
                            *v = v.map(|v| v * k);
                        }
                        x.start_angle += turn;
                    }
                    GameItemEnum::Bumper(x) => {
                        x.radius *= k;
                        x.height_scale *= k;
                        x.ring_drop_offset = x.ring_drop_offset.map(|v| v * k);
                        x.orientation += turn;
                    }
                    GameItemEnum::Trigger(x) => {
                        x.radius *= k;
                        x.scale_x *= k;
                        x.scale_y *= k;
                        x.wire_thickness = None;
                        x.scale_y = x.scale_x; // it is scaled after it is turned
                        x.rotation += turn;
                    }
                    GameItemEnum::Kicker(x) => {
                        x.radius *= k;
                        x.orientation += turn;
                    }
                    GameItemEnum::Decal(x) => {
                        x.width *= k;
                        x.height *= k;
                        x.rotation += turn;
                    }
                    GameItemEnum::Gate(x) => {
                        x.length *= k;
                        x.rotation += turn;
                    }
                    GameItemEnum::Spinner(x) => {
                        x.length *= k;
                        x.rotation += turn;
                    }
                    GameItemEnum::HitTarget(x) => {
                        x.size.x *= k;
                        x.size.y *= k;
                        x.size.z *= k;
                        x.rot_z += turn;
                    }
                    GameItemEnum::Ball(x) => x.radius *= k,
                    GameItemEnum::Light(x) => x.mesh_radius *= k,
                    _ => {}
                }
            }
            table(&mut r, &s, its)
        };
        let (v0, v1) = (make(false), make(true));
        let (_, a) = gltf(&v0, true, ExportUnits::Vpu, true)?;
        let (_, b) = gltf(&v1, true, ExportUnits::Vpu, true)?;
        ensure!(list(&a) == list(&b), "other meshes after scaling or turning items", "{:?} {:?}", list(&a), list(&b));
        for (x, y) in a.iter().zip(&b) {
            let Some(name) = item_of(&x.name) else { continue };
            let it = &v0.gameitems[name[1..3].parse::<usize>().unwrap()];
            let Some(c) = centre(it) else { continue };
            if x.name.ends_with("_insert") {
                continue;
            }
            let kind = format!("{} {}", it.type_name(), &x.name[4..]);
            // the socket of a bumper and a button stand 5 above the table
            let button = matches!(it, GameItemEnum::Trigger(t) if t.shape == TriggerShape::Button);
            let z0 = x.at[2] + if kind == "Bumper Socket" || button { 5.0 } else { 0.0 };
            let base = [c[0], c[1], z0];
            let mut x = x.clone();
            let fixed = match it {
                GameItemEnum::Ball(_) | GameItemEnum::Light(_) => true,
                GameItemEnum::Kicker(k) => matches!(k.kicker_type, KickerType::Hole | KickerType::HoleSimple) || kind == "Kicker Plate",
                _ => false,
            };
            // only the outline of triggers that are not round is scaled
            let tall = match it {
                GameItemEnum::Trigger(t) => matches!(t.shape, TriggerShape::Button | TriggerShape::Star),
                _ => true,
            };
            for p in &mut x.pos {
                let q = sub(*p, base);
                let q = match what {
                    0 => [q[0] * k as f64, q[1] * k as f64, q[2] * if tall { k as f64 } else { 1.0 }],
                    _ if fixed => q,
                    _ => rz(q, turn as f64),
                };
                *p = std::array::from_fn(|i| base[i] + q[i]);
            }
            let tol = 0.05 + 1e-4 * (x.bounds().1[0].abs() + x.bounds().1[1].abs());
            if let Err(e) = same(&x, y, tol, false, "") {
                return viol(format!("{kind}: does not {}", ["grow with its size", "turn with its rotation"][what]), format!("{} {:?}", if what == 0 { k } else { turn }, e));
            }
            ctx.count(&format!("{} {kind}", ["scaled", "turned"][what]), 1);
            seen(ctx, ["scaled", "turned"][what], y);
        }
        Ok(())
    });

    ctx.cases("invisible or empty", if deep { 60_000 } else { 3000 }, t, |r, _| {
        use vpin::vpx::mesh::*;
        let (_, mut its) = items(r, 6, &[0, 1, 3, 5, 6, 7, 9, 10, 11, 12, 16, 17, 18]);
        for it in &mut its {
            let on = r.bool();
            show(it, on);
            let kind = it.type_name();
            let some = match it {
                GameItemEnum::Flipper(x) => sut("flipper", || flippers::build_flipper_meshes(x, 0.0).is_some())?,
                GameItemEnum::Plunger(x) => {
                    let m = sut("plunger", || plungers::build_plunger_meshes(x))?;
                    m.flat_rod.is_some() || m.rod.is_some() || m.spring.is_some() || m.ring.is_some() || m.tip.is_some()
                }
                GameItemEnum::Bumper(x) => {
                    x.is_cap_visible = on;
                    x.is_base_visible = on;
                    x.is_ring_visible = Some(on);
                    x.is_socket_visible = Some(on);
                    let m = sut("bumper", || bumpers::build_bumper_meshes(x))?;
                    ensure!([m.cap.is_some(), m.base.is_some(), m.ring.is_some(), m.socket.is_some()] == [on; 4], "Bumper: a part is built although hidden, or missing", "visible {on}");
                    on
                }
                GameItemEnum::Trigger(x) => {
                    let m = sut("trigger", || triggers::build_trigger_mesh(x))?;
                    ensure!(x.shape != TriggerShape::None || m.is_none(), "Trigger: a mesh for no shape", "");
                    if x.shape == TriggerShape::None {
                        continue;
                    }
                    m.is_some()
                }
                GameItemEnum::Gate(x) => sut("gate", || gates::build_gate_meshes(x).is_some())?,
                GameItemEnum::HitTarget(x) => sut("hit target", || hittargets::build_hit_target_mesh(x).is_some())?,
                _ => {
                    // built by the exports
                    continue;
                }
            };
            ensure!(some == on, format!("{kind}: {}", if on { "no mesh although visible" } else { "a mesh although hidden" }), "");
            ctx.count(&format!("{} {kind}", if on { "built" } else { "not built" }), 1);
        }
        // without points there is nothing to build
        let (s, mut its) = items(r, 5, &[0, 7, 12, 16, 17]);
        let mut empty = vec![];
        for it in &mut its {
            show(it, true);
            let n = r.below(3);
            let dp = match it {
                GameItemEnum::Wall(x) => &mut x.drag_points,
                GameItemEnum::Light(x) => &mut x.drag_points,
                GameItemEnum::Flasher(x) => &mut x.drag_points,
                GameItemEnum::Rubber(x) => &mut x.drag_points,
                GameItemEnum::Ramp(x) => &mut x.drag_points,
                _ => unreachable!(),
            };
            let min = 3;
            if r.bool() {
                dp.truncate(n);
                empty.push((true, n));
            } else {
                empty.push((dp.len() < min, dp.len()));
            }
        }
        let v = table(r, &s, its);
        let (_, w) = gltf(&v, true, ExportUnits::Vpu, true)?;
        for (it, (none, n)) in v.gameitems.iter().zip(empty) {
            let kind = it.type_name();
            let m: Vec<&World> = w.iter().filter(|m| item_of(&m.name) == Some(it.name()) && !m.name.ends_with("_bulb") && !m.name.ends_with("_socket")).collect();
            let want = match it {
                GameItemEnum::Ramp(_) | GameItemEnum::Rubber(_) => (n >= 2) as usize,
                GameItemEnum::Wall(_) => 2 * !none as usize,
                // (not every light has an insert)
                GameItemEnum::Light(_) if !none => m.len().min(1),
                _ => !none as usize,
            };
            ctx.count(&format!("{kind} of {} points: {} meshes", if n > 2 { "more" } else { "few" }, m.len()), 1);
            ensure!(m.len() == want, format!("{kind}: {} than its points define", if m.len() > want { "more meshes" } else { "fewer meshes" }), "{} for {n} points", m.len());
        }
        Ok(())
    });
    // the shapes that come with Visual Pinball have known extents, others follow from their sizes
    ctx.cases("sizes", if deep { 60_000 } else { 2000 }, t, |r, _| {
        use super::builtin::*;
        for (name, m, k) in sut("building shapes", || unit(r, false))? {
            let Some((_, u)) = UNIT.iter().find(|u| u.0 == name) else {
                ensure!(m.is_none(), "a mesh for what has none", "{name}");
                continue;
            };
            let Some(m) = m else { return viol("no mesh for a visible item", name) };
            ctx.count(&format!("size of {name}"), 1);
            let e = ext(&m);
            for (what, a, b) in [("smallest", e.0, u.0), ("largest", e.1, u.1), ("mean", e.2, u.2)] {
                for i in 0..3 {
                    let tol = (u.1[i] - u.0[i]).max(0.01) * 2e-3 * k[i];
                    ensure!((a[i] - b[i] * k[i]).abs() <= tol, format!("{name}: not of the size its parameters define"), "{what} {a:?} instead of {b:?} times {k:?}");
                }
            }
        }
        for (name, m, lo, hi) in sut("building shapes", || sized(r))? {
            ctx.count(&format!("size of {name}"), 1);
            let e = ext(&m);
            for i in 0..3 {
                let tol = 0.01 + (hi[i] - lo[i]) * if name == "Plunger spring" && i == 1 { 0.06 } else { 0.012 } + if name == "Plunger spring" && i == 1 { 1.1 } else { 0.0 };
                ensure!((e.0[i] - lo[i]).abs() <= tol && (e.1[i] - hi[i]).abs() <= tol, format!("{name}: not of the size its parameters define"), "{:?} {:?} instead of {lo:?} {hi:?}", e.0, e.1);
            }
        }
        // those that only the exports build
        let (s, mut its) = items(r, 4, &[9, 15, 19]);
        for it in &mut its {
            show(it, true);
            match it {
                GameItemEnum::Decal(d) => {
                    d.surface = String::new();
                    d.image = "img0".into();
                    d.decal_type = vpin::vpx::gameitem::decal::DecalType::Image;
                    d.backglass = false;
                }
                GameItemEnum::Primitive(p) => {
                    p.use_3d_mesh = false;
                    p.rot_and_tra = Default::default();
                }
                _ => {}
            }
        }
        let mut v = table(r, &s, its);
        (v.gamedata.left, v.gamedata.top) = (r.f32_in(-100.0, 200.0), r.f32_in(-100.0, 200.0));
        let (_, w) = gltf(&v, true, ExportUnits::Vpu, true)?;
        for m in &w {
            let (lo, hi) = m.bounds();
            if m.name == "playfield_mesh" {
                let g = &v.gamedata;
                let (a, b) = ([g.left as f64, g.top as f64, 0.0], [g.right as f64, g.bottom as f64, 0.0]);
                for i in 0..3 {
                    ensure!((lo[i] - a[i]).abs() < 0.01 && (hi[i] - b[i]).abs() < 0.01, "the playfield is not that of the table", "{lo:?} {hi:?} instead of {a:?} {b:?}");
                }
                ctx.count("playfields", 1);
            }
            let Some(name) = item_of(&m.name) else { continue };
            let it = &v.gameitems[name[1..3].parse::<usize>().unwrap()];
            match it {
                GameItemEnum::Ball(b) => {
                    let c = [b.pos.x as f64, b.pos.y as f64, b.pos.z as f64];
                    let rad = b.radius as f64;
                    ensure!(m.pos.iter().all(|p| (len(sub(*p, c)) - rad).abs() < 0.01 + 0.01 * rad), "Ball: a vertex is not at its radius", "{lo:?} {hi:?} instead of {rad} around {c:?}");
                    ensure!((0..3).all(|i| (hi[i] - lo[i] - 2.0 * rad).abs() < 0.02 + 0.1 * rad), "Ball: not round", "{lo:?} {hi:?} {rad}");
                }
                GameItemEnum::Decal(d) => {
                    for (sx, sy) in [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)] {
                        let q = rz([sx * d.width as f64, sy * d.height as f64, 0.0], d.rotation as f64);
                        let q = [d.center.x as f64 + q[0], d.center.y as f64 + q[1], 0.2];
                        ensure!(m.pos.iter().any(|p| len(sub(*p, q)) < 0.05), "Decal: a corner is not at its place", "{q:?}: {:?}", m.pos);
                    }
                    let want = (d.width * d.height) as f64;
                    ensure!((area(m) - want).abs() < 0.01 * want.abs() + 0.1, "Decal: not of its size", "{} instead of {want}", area(m));
                }
                GameItemEnum::Primitive(p) => {
                    // a prism around a circle of 1 unit across
                    let n = p.sides as f64;
                    let far = 0.5 / (std::f64::consts::PI / n).cos();
                    let at = [p.position.x as f64, p.position.y as f64, p.position.z as f64];
                    let k = [p.size.x as f64, p.size.y as f64, p.size.z as f64];
                    let mut ring = std::collections::BTreeSet::new();
                    for q in &m.pos {
                        let q: P3 = std::array::from_fn(|i| (q[i] - at[i]) / k[i]);
                        let d = q[0].hypot(q[1]);
                        let tol = 0.002 + 1e-3 * (0..3).map(|i| at[i].abs() / k[i].abs() * 1e-3).fold(0.0, f64::max);
                        ensure!((q[2].abs() - 0.5).abs() < tol && (d < tol || (d - far).abs() < tol), "Primitive: a vertex is not on the prism of its sides", "{} sides: {q:?}", p.sides);
                        if d > tol {
                            ring.insert(((q[1].atan2(q[0]) / std::f64::consts::TAU * n * 4.0).round() as i64).rem_euclid(4 * n as i64));
                        }
                    }
                    ensure!(ring.len() == p.sides as usize, "Primitive: another number of sides", "{} instead of {}", ring.len(), p.sides);
                }
                _ => continue,
            }
            ctx.count(&format!("size of {}", it.type_name()), 1);
        }
        Ok(())
    });
    for k in ["meshes: Ramp ", "meshes: Rubber ", "meshes: Plunger Tip", "meshes: Light _insert", "outline of Wall Top", "outline of Flasher ", "ends of ramps", "scaled Gate Wire", "turned Kicker Kicker", "not built Trigger", "size of Ball", "size of Decal", "size of Primitive", "size of Plunger spring", "size of Flipper rubber", "size of Gate other", "playfields", "walls of ramps: 2"] {
        ctx.require(k, 20);
    }
}
/// point in polygon
fn inside(p: [f64; 2], line: &[[f64; 2]]) -> bool {
    let mut c = false;
    for i in 0..line.len() {
        let (a, b) = (line[i], line[(i + 1) % line.len()]);
        if (a[1] > p[1]) != (b[1] > p[1]) && p[0] < (b[0] - a[0]) * (p[1] - a[1]) / (b[1] - a[1]) + a[0] {
            c = !c;
        }
    }
    c
}
