// Generated by tools/gen_model.py; do not edit.
#![allow(non_snake_case, unused_variables, clippy::all)]
use crate::rng::R;
use crate::model::*;
use vpin::vpx::gameitem::wall::Wall;
use vpin::vpx::gameitem::flipper::Flipper;
use vpin::vpx::gameitem::timer::Timer;
use vpin::vpx::gameitem::plunger::Plunger;
use vpin::vpx::gameitem::textbox::TextBox;
use vpin::vpx::gameitem::bumper::Bumper;
use vpin::vpx::gameitem::trigger::Trigger;
use vpin::vpx::gameitem::light::Light;
use vpin::vpx::gameitem::kicker::Kicker;
use vpin::vpx::gameitem::decal::Decal;
use vpin::vpx::gameitem::gate::Gate;
use vpin::vpx::gameitem::spinner::Spinner;
use vpin::vpx::gameitem::ramp::Ramp;
use vpin::vpx::gameitem::reel::Reel;
use vpin::vpx::gameitem::lightsequencer::LightSequencer;
use vpin::vpx::gameitem::primitive::Primitive;
use vpin::vpx::gameitem::flasher::Flasher;
use vpin::vpx::gameitem::rubber::Rubber;
use vpin::vpx::gameitem::hittarget::HitTarget;
use vpin::vpx::gameitem::ball::Ball;
use vpin::vpx::gameitem::partgroup::PartGroup;
use vpin::vpx::gamedata::GameData;
use vpin::vpx::tableinfo::TableInfo;
use vpin::vpx::collection::Collection;
use vpin::vpx::material::SaveMaterial;
use vpin::vpx::material::SavePhysicsMaterial;
use vpin::vpx::material::Material;
use vpin::vpx::gameitem::dragpoint::DragPoint;
use vpin::vpx::gameitem::select::TimerData;
use vpin::vpx::gamedata::ViewLayoutMode;
use vpin::vpx::gamedata::ToneMapper;
use vpin::vpx::gameitem::decal::DecalType;
use vpin::vpx::gameitem::decal::SizingType;
use vpin::vpx::gameitem::flasher::Filter;
use vpin::vpx::gameitem::flasher::RenderMode;
use vpin::vpx::gameitem::gate::GateType;
use vpin::vpx::gameitem::hittarget::TargetType;
use vpin::vpx::gameitem::kicker::KickerType;
use vpin::vpx::gameitem::light::ShadowMode;
use vpin::vpx::gameitem::light::Fader;
use vpin::vpx::gameitem::partgroup::SpaceReference;
use vpin::vpx::gameitem::plunger::PlungerType;
use vpin::vpx::gameitem::ramp::RampType;
use vpin::vpx::gameitem::ramp_image_alignment::RampImageAlignment;
use vpin::vpx::gameitem::textbox::TextAlignment;
use vpin::vpx::gameitem::trigger::TriggerShape;
use vpin::vpx::material::MaterialType;
use vpin::vpx::sound::OutputTarget;
pub fn g_viewlayoutmode(r: &mut R) -> ViewLayoutMode { match r.below(3) { 0 => ViewLayoutMode::Legacy, 1 => ViewLayoutMode::Camera, _ => ViewLayoutMode::Window, } }
pub fn g_tonemapper(r: &mut R) -> ToneMapper { match r.below(6) { 0 => ToneMapper::Reinhard, 1 => ToneMapper::AgX, 2 => ToneMapper::Filmic, 3 => ToneMapper::Neutral, 4 => ToneMapper::AgXPunchy, _ => ToneMapper::Other(r.range(200,5000) as u32), } }
pub fn g_decaltype(r: &mut R) -> DecalType { match r.below(2) { 0 => DecalType::Text, _ => DecalType::Image, } }
pub fn g_sizingtype(r: &mut R) -> SizingType { match r.below(3) { 0 => SizingType::AutoSize, 1 => SizingType::AutoWidth, _ => SizingType::ManualSize, } }
pub fn g_filter(r: &mut R) -> Filter { match r.below(5) { 0 => Filter::None, 1 => Filter::Additive, 2 => Filter::Overlay, 3 => Filter::Multiply, _ => Filter::Screen, } }
pub fn g_rendermode(r: &mut R) -> RenderMode { match r.below(5) { 0 => RenderMode::Flasher, 1 => RenderMode::DMD, 2 => RenderMode::Display, 3 => RenderMode::AlphaSeg, _ => RenderMode::ExtRender, } }
pub fn g_gatetype(r: &mut R) -> GateType { match r.below(5) { 0 => GateType::WireW, 1 => GateType::WireRectangle, 2 => GateType::Plate, 3 => GateType::LongPlate, _ => GateType::Unknown(r.range(200,5000) as u32), } }
pub fn g_targettype(r: &mut R) -> TargetType { match r.below(9) { 0 => TargetType::DropTargetBeveled, 1 => TargetType::DropTargetSimple, 2 => TargetType::HitTargetRound, 3 => TargetType::HitTargetRectangle, 4 => TargetType::HitFatTargetRectangle, 5 => TargetType::HitFatTargetSquare, 6 => TargetType::DropTargetFlatSimple, 7 => TargetType::HitFatTargetSlim, _ => TargetType::HitTargetSlim, } }
pub fn g_kickertype(r: &mut R) -> KickerType { match r.below(7) { 0 => KickerType::Invisible, 1 => KickerType::Hole, 2 => KickerType::Cup, 3 => KickerType::HoleSimple, 4 => KickerType::Williams, 5 => KickerType::Gottlieb, _ => KickerType::Cup2, } }
pub fn g_shadowmode(r: &mut R) -> ShadowMode { match r.below(2) { 0 => ShadowMode::None, _ => ShadowMode::RaytracedBallShadows, } }
pub fn g_fader(r: &mut R) -> Fader { match r.below(3) { 0 => Fader::None, 1 => Fader::Linear, _ => Fader::Incandescent, } }
pub fn g_spacereference(r: &mut R) -> SpaceReference { match r.below(5) { 0 => SpaceReference::Inherit, 1 => SpaceReference::Room, 2 => SpaceReference::CabinetFeet, 3 => SpaceReference::Cabinet, _ => SpaceReference::Playfield, } }
pub fn g_plungertype(r: &mut R) -> PlungerType { match r.below(4) { 0 => PlungerType::Unknown, 1 => PlungerType::Modern, 2 => PlungerType::Flat, _ => PlungerType::Custom, } }
pub fn g_ramptype(r: &mut R) -> RampType { match r.below(6) { 0 => RampType::Flat, 1 => RampType::FourWire, 2 => RampType::TwoWire, 3 => RampType::ThreeWireLeft, 4 => RampType::ThreeWireRight, _ => RampType::OneWire, } }
pub fn g_rampimagealignment(r: &mut R) -> RampImageAlignment { match r.below(3) { 0 => RampImageAlignment::World, 1 => RampImageAlignment::Wrap, _ => RampImageAlignment::Unknown, } }
pub fn g_textalignment(r: &mut R) -> TextAlignment { match r.below(3) { 0 => TextAlignment::Left, 1 => TextAlignment::Center, _ => TextAlignment::Right, } }
pub fn g_triggershape(r: &mut R) -> TriggerShape { match r.below(8) { 0 => TriggerShape::None, 1 => TriggerShape::WireA, 2 => TriggerShape::Star, 3 => TriggerShape::WireB, 4 => TriggerShape::Button, 5 => TriggerShape::WireC, 6 => TriggerShape::WireD, _ => TriggerShape::Inder, } }
pub fn g_materialtype(r: &mut R) -> MaterialType { match r.below(3) { 0 => MaterialType::Unknown, 1 => MaterialType::Basic, _ => MaterialType::Metal, } }
pub fn g_outputtarget(r: &mut R) -> OutputTarget { match r.below(2) { 0 => OutputTarget::Table, _ => OutputTarget::Backglass, } }
pub const FIELDS_WALL: &[&str] = &["name", "hit_event", "is_droppable", "is_flipbook", "is_bottom_solid", "is_collidable", "threshold", "image", "side_image", "side_material", "top_material", "slingshot_material", "height_bottom", "height_top", "display_texture", "slingshot_force", "slingshot_threshold", "elasticity", "elasticity_falloff", "friction", "scatter", "is_top_bottom_visible", "slingshot_animation", "is_side_visible", "disable_lighting_top_old", "disable_lighting_top", "disable_lighting_below", "is_reflection_enabled", "physics_material", "overwrite_physics", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name", "drag_points"];
pub fn set_wall(x: &mut Wall, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.hit_event = r.bool(),
        2 => x.is_droppable = r.bool(),
        3 => x.is_flipbook = r.bool(),
        4 => x.is_bottom_solid = r.bool(),
        5 => x.is_collidable = r.bool(),
        6 => x.threshold = r.f32(),
        7 => x.image = r.latin(),
        8 => x.side_image = r.latin(),
        9 => x.side_material = r.latin(),
        10 => x.top_material = r.latin(),
        11 => x.slingshot_material = r.latin(),
        12 => x.height_bottom = r.f32(),
        13 => x.height_top = r.f32(),
        14 => x.display_texture = r.bool(),
        15 => x.slingshot_force = r.f32(),
        16 => x.slingshot_threshold = r.f32(),
        17 => x.elasticity = r.f32(),
        18 => x.elasticity_falloff = r.opt(|r| r.f32()),
        19 => x.friction = r.f32(),
        20 => x.scatter = r.f32(),
        21 => x.is_top_bottom_visible = r.bool(),
        22 => x.slingshot_animation = r.bool(),
        23 => x.is_side_visible = r.bool(),
        24 => x.disable_lighting_top_old = r.opt(|r| r.q8()),
        25 => x.disable_lighting_top = r.opt(|r| r.f32()),
        26 => x.disable_lighting_below = r.opt(|r| r.f32()),
        27 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        28 => x.physics_material = r.opt(|r| r.latin()),
        29 => x.overwrite_physics = r.opt(|r| r.bool()),
        30 => x.timer = g_timerdata(r),
        31 => x.is_locked = r.bool(),
        32 => x.editor_layer = r.opt(|r| r.u32()),
        33 => x.editor_layer_name = r.opt(|r| r.latin()),
        34 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        35 => x.part_group_name = r.opt(|r| r.latin()),
        36 => x.drag_points = { let n = r.small_len(); (0..n).map(|_| g_dragpoint(r)).collect() },
        _ => {}
    }
}
pub fn g_wall(r: &mut R) -> Wall {
    let mut x = Wall::default();
    for i in 0..FIELDS_WALL.len() { set_wall(&mut x, i, r); }
    x
}
pub const FIELDS_FLIPPER: &[&str] = &["name", "center", "base_radius", "end_radius", "flipper_radius_max", "return_", "start_angle", "end_angle", "override_physics", "mass", "surface", "material", "rubber_material", "rubber_thickness_int", "rubber_thickness", "rubber_height_int", "rubber_height", "rubber_width_int", "rubber_width", "strength", "elasticity", "elasticity_falloff", "friction", "ramp_up", "scatter", "torque_damping", "torque_damping_angle", "flipper_radius_min", "is_visible", "is_enabled", "height", "image", "is_reflection_enabled", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_flipper(x: &mut Flipper, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.center = g_vertex2d(r),
        2 => x.base_radius = r.f32(),
        3 => x.end_radius = r.f32(),
        4 => x.flipper_radius_max = r.f32(),
        5 => x.return_ = r.f32(),
        6 => x.start_angle = r.f32(),
        7 => x.end_angle = r.f32(),
        8 => x.override_physics = r.u32(),
        9 => x.mass = r.f32(),
        10 => x.surface = r.latin(),
        11 => x.material = r.latin(),
        12 => x.rubber_material = r.latin(),
        13 => x.rubber_thickness_int = r.u32(),
        14 => x.rubber_thickness = r.opt(|r| r.f32()),
        15 => x.rubber_height_int = r.u32(),
        16 => x.rubber_height = r.opt(|r| r.f32()),
        17 => x.rubber_width_int = r.u32(),
        18 => x.rubber_width = r.opt(|r| r.f32()),
        19 => x.strength = r.f32(),
        20 => x.elasticity = r.f32(),
        21 => x.elasticity_falloff = r.f32(),
        22 => x.friction = r.f32(),
        23 => x.ramp_up = r.f32(),
        24 => x.scatter = r.opt(|r| r.f32()),
        25 => x.torque_damping = r.opt(|r| r.f32()),
        26 => x.torque_damping_angle = r.opt(|r| r.f32()),
        27 => x.flipper_radius_min = r.f32(),
        28 => x.is_visible = r.bool(),
        29 => x.is_enabled = r.bool(),
        30 => x.height = r.f32(),
        31 => x.image = r.opt(|r| r.latin()),
        32 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        33 => x.timer = g_timerdata(r),
        34 => x.is_locked = r.bool(),
        35 => x.editor_layer = r.opt(|r| r.u32()),
        36 => x.editor_layer_name = r.opt(|r| r.latin()),
        37 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        38 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_flipper(r: &mut R) -> Flipper {
    let mut x = Flipper::default();
    for i in 0..FIELDS_FLIPPER.len() { set_flipper(&mut x, i, r); }
    x
}
pub const FIELDS_TIMER: &[&str] = &["center", "name", "backglass", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_timer(x: &mut Timer, i: usize, r: &mut R) {
    match i {
        0 => x.center = g_vertex2d(r),
        1 => x.name = r.wide(),
        2 => x.backglass = r.bool(),
        3 => x.timer = g_timerdata(r),
        4 => x.is_locked = r.bool(),
        5 => x.editor_layer = r.opt(|r| r.u32()),
        6 => x.editor_layer_name = r.opt(|r| r.latin()),
        7 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        8 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_timer(r: &mut R) -> Timer {
    let mut x = Timer::default();
    for i in 0..FIELDS_TIMER.len() { set_timer(&mut x, i, r); }
    x
}
pub const FIELDS_PLUNGER: &[&str] = &["center", "width", "height", "z_adjust", "stroke", "speed_pull", "speed_fire", "plunger_type", "anim_frames", "material", "image", "mech_strength", "is_mech_plunger", "auto_plunger", "park_position", "scatter_velocity", "momentum_xfer", "is_visible", "is_reflection_enabled", "surface", "name", "tip_shape", "rod_diam", "ring_gap", "ring_diam", "ring_width", "spring_diam", "spring_gauge", "spring_loops", "spring_end_loops", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_plunger(x: &mut Plunger, i: usize, r: &mut R) {
    match i {
        0 => x.center = g_vertex2d(r),
        1 => x.width = r.f32(),
        2 => x.height = r.f32(),
        3 => x.z_adjust = r.f32(),
        4 => x.stroke = r.f32(),
        5 => x.speed_pull = r.f32(),
        6 => x.speed_fire = r.f32(),
        7 => x.plunger_type = g_plungertype(r),
        8 => x.anim_frames = r.u32(),
        9 => x.material = r.latin(),
        10 => x.image = r.latin(),
        11 => x.mech_strength = r.f32(),
        12 => x.is_mech_plunger = r.bool(),
        13 => x.auto_plunger = r.bool(),
        14 => x.park_position = r.f32(),
        15 => x.scatter_velocity = r.f32(),
        16 => x.momentum_xfer = r.f32(),
        17 => x.is_visible = r.bool(),
        18 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        19 => x.surface = r.latin(),
        20 => x.name = r.wide(),
        21 => x.tip_shape = r.latin(),
        22 => x.rod_diam = r.f32(),
        23 => x.ring_gap = r.f32(),
        24 => x.ring_diam = r.f32(),
        25 => x.ring_width = r.f32(),
        26 => x.spring_diam = r.f32(),
        27 => x.spring_gauge = r.f32(),
        28 => x.spring_loops = r.f32(),
        29 => x.spring_end_loops = r.f32(),
        30 => x.timer = g_timerdata(r),
        31 => x.is_locked = r.bool(),
        32 => x.editor_layer = r.opt(|r| r.u32()),
        33 => x.editor_layer_name = r.opt(|r| r.latin()),
        34 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        35 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_plunger(r: &mut R) -> Plunger {
    let mut x = Plunger::default();
    for i in 0..FIELDS_PLUNGER.len() { set_plunger(&mut x, i, r); }
    x
}
pub const FIELDS_TEXTBOX: &[&str] = &["ver1", "ver2", "back_color", "font_color", "intensity_scale", "text", "name", "align", "is_transparent", "is_dmd", "font", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_textbox(x: &mut TextBox, i: usize, r: &mut R) {
    match i {
        0 => x.ver1 = g_vertex2d(r),
        1 => x.ver2 = g_vertex2d(r),
        2 => x.back_color = g_color(r),
        3 => x.font_color = g_color(r),
        4 => x.intensity_scale = r.f32(),
        5 => x.text = r.latin(),
        6 => x.name = r.wide(),
        7 => x.align = g_textalignment(r),
        8 => x.is_transparent = r.bool(),
        9 => x.is_dmd = r.opt(|r| r.bool()),
        10 => x.font = g_font(r),
        11 => x.timer = g_timerdata(r),
        12 => x.is_locked = r.bool(),
        13 => x.editor_layer = r.opt(|r| r.u32()),
        14 => x.editor_layer_name = r.opt(|r| r.latin()),
        15 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        16 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_textbox(r: &mut R) -> TextBox {
    let mut x = TextBox::default();
    for i in 0..FIELDS_TEXTBOX.len() { set_textbox(&mut x, i, r); }
    x
}
pub const FIELDS_BUMPER: &[&str] = &["name", "center", "radius", "threshold", "force", "scatter", "height_scale", "ring_speed", "orientation", "ring_drop_offset", "cap_material", "base_material", "socket_material", "ring_material", "surface", "is_cap_visible", "is_base_visible", "is_ring_visible", "is_socket_visible", "hit_event", "is_collidable", "is_reflection_enabled", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_bumper(x: &mut Bumper, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.center = g_vertex2d(r),
        2 => x.radius = r.f32(),
        3 => x.threshold = r.f32(),
        4 => x.force = r.f32(),
        5 => x.scatter = r.opt(|r| r.f32()),
        6 => x.height_scale = r.f32(),
        7 => x.ring_speed = r.f32(),
        8 => x.orientation = r.f32(),
        9 => x.ring_drop_offset = r.opt(|r| r.f32()),
        10 => x.cap_material = r.latin(),
        11 => x.base_material = r.latin(),
        12 => x.socket_material = r.latin(),
        13 => x.ring_material = r.opt(|r| r.latin()),
        14 => x.surface = r.latin(),
        15 => x.is_cap_visible = r.bool(),
        16 => x.is_base_visible = r.bool(),
        17 => x.is_ring_visible = r.opt(|r| r.bool()),
        18 => x.is_socket_visible = r.opt(|r| r.bool()),
        19 => x.hit_event = r.opt(|r| r.bool()),
        20 => x.is_collidable = r.opt(|r| r.bool()),
        21 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        22 => x.timer = g_timerdata(r),
        23 => x.is_locked = r.bool(),
        24 => x.editor_layer = r.opt(|r| r.u32()),
        25 => x.editor_layer_name = r.opt(|r| r.latin()),
        26 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        27 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_bumper(r: &mut R) -> Bumper {
    let mut x = Bumper::default();
    for i in 0..FIELDS_BUMPER.len() { set_bumper(&mut x, i, r); }
    x
}
pub const FIELDS_TRIGGER: &[&str] = &["name", "center", "radius", "rotation", "wire_thickness", "scale_x", "scale_y", "material", "surface", "is_visible", "is_enabled", "hit_height", "shape", "anim_speed", "is_reflection_enabled", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name", "drag_points"];
pub fn set_trigger(x: &mut Trigger, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.center = g_vertex2d(r),
        2 => x.radius = r.f32(),
        3 => x.rotation = r.f32(),
        4 => x.wire_thickness = r.opt(|r| r.f32()),
        5 => x.scale_x = r.f32(),
        6 => x.scale_y = r.f32(),
        7 => x.material = r.latin(),
        8 => x.surface = r.latin(),
        9 => x.is_visible = r.bool(),
        10 => x.is_enabled = r.bool(),
        11 => x.hit_height = r.f32(),
        12 => x.shape = g_triggershape(r),
        13 => x.anim_speed = r.f32(),
        14 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        15 => x.timer = g_timerdata(r),
        16 => x.is_locked = r.bool(),
        17 => x.editor_layer = r.opt(|r| r.u32()),
        18 => x.editor_layer_name = r.opt(|r| r.latin()),
        19 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        20 => x.part_group_name = r.opt(|r| r.latin()),
        21 => x.drag_points = { let n = r.small_len(); (0..n).map(|_| g_dragpoint(r)).collect() },
        _ => {}
    }
}
pub fn g_trigger(r: &mut R) -> Trigger {
    let mut x = Trigger::default();
    for i in 0..FIELDS_TRIGGER.len() { set_trigger(&mut x, i, r); }
    x
}
pub const FIELDS_LIGHT: &[&str] = &["name", "center", "height", "falloff_radius", "falloff_power", "state_u32", "state", "color", "color2", "blink_pattern", "image", "blink_interval", "intensity", "transmission_scale", "surface", "is_backglass", "depth_bias", "fade_speed_up", "fade_speed_down", "is_bulb_light", "is_image_mode", "show_bulb_mesh", "has_static_bulb_mesh", "show_reflection_on_ball", "mesh_radius", "bulb_modulate_vs_add", "bulb_halo_height", "shadows", "fader", "visible", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name", "drag_points"];
pub fn set_light(x: &mut Light, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.center = g_vertex2d(r),
        2 => x.height = r.opt(|r| r.f32()),
        3 => x.falloff_radius = r.f32(),
        4 => x.falloff_power = r.f32(),
        5 => x.state_u32 = r.u32(),
        6 => x.state = r.opt(|r| r.f32()),
        7 => x.color = g_color(r),
        8 => x.color2 = g_color(r),
        9 => x.blink_pattern = r.latin(),
        10 => x.image = r.latin(),
        11 => x.blink_interval = r.u32(),
        12 => x.intensity = r.f32(),
        13 => x.transmission_scale = r.f32(),
        14 => x.surface = r.latin(),
        15 => x.is_backglass = r.bool(),
        16 => x.depth_bias = r.f32(),
        17 => x.fade_speed_up = r.f32(),
        18 => x.fade_speed_down = r.f32(),
        19 => x.is_bulb_light = r.bool(),
        20 => x.is_image_mode = r.bool(),
        21 => x.show_bulb_mesh = r.bool(),
        22 => x.has_static_bulb_mesh = r.opt(|r| r.bool()),
        23 => x.show_reflection_on_ball = r.bool(),
        24 => x.mesh_radius = r.f32(),
        25 => x.bulb_modulate_vs_add = r.f32(),
        26 => x.bulb_halo_height = r.f32(),
        27 => x.shadows = r.opt(|r| g_shadowmode(r)),
        28 => x.fader = r.opt(|r| g_fader(r)),
        29 => x.visible = r.opt(|r| r.bool()),
        30 => x.timer = g_timerdata(r),
        31 => x.is_locked = r.bool(),
        32 => x.editor_layer = r.opt(|r| r.u32()),
        33 => x.editor_layer_name = r.opt(|r| r.latin()),
        34 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        35 => x.part_group_name = r.opt(|r| r.latin()),
        36 => x.drag_points = { let n = r.small_len(); (0..n).map(|_| g_dragpoint(r)).collect() },
        _ => {}
    }
}
pub fn g_light(r: &mut R) -> Light {
    let mut x = Light::default();
    for i in 0..FIELDS_LIGHT.len() { set_light(&mut x, i, r); }
    x
}
pub const FIELDS_KICKER: &[&str] = &["center", "radius", "material", "surface", "is_enabled", "name", "kicker_type", "scatter", "hit_accuracy", "hit_height", "orientation", "fall_through", "legacy_mode", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_kicker(x: &mut Kicker, i: usize, r: &mut R) {
    match i {
        0 => x.center = g_vertex2d(r),
        1 => x.radius = r.f32(),
        2 => x.material = r.latin(),
        3 => x.surface = r.latin(),
        4 => x.is_enabled = r.bool(),
        5 => x.name = r.wide(),
        6 => x.kicker_type = g_kickertype(r),
        7 => x.scatter = r.f32(),
        8 => x.hit_accuracy = r.f32(),
        9 => x.hit_height = r.opt(|r| r.f32()),
        10 => x.orientation = r.f32(),
        11 => x.fall_through = r.bool(),
        12 => x.legacy_mode = r.bool(),
        13 => x.timer = g_timerdata(r),
        14 => x.is_locked = r.bool(),
        15 => x.editor_layer = r.opt(|r| r.u32()),
        16 => x.editor_layer_name = r.opt(|r| r.latin()),
        17 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        18 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_kicker(r: &mut R) -> Kicker {
    let mut x = Kicker::default();
    for i in 0..FIELDS_KICKER.len() { set_kicker(&mut x, i, r); }
    x
}
pub const FIELDS_DECAL: &[&str] = &["center", "width", "height", "rotation", "image", "surface", "name", "text", "decal_type", "material", "color", "sizing_type", "vertical_text", "backglass", "font", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_decal(x: &mut Decal, i: usize, r: &mut R) {
    match i {
        0 => x.center = g_vertex2d(r),
        1 => x.width = r.f32(),
        2 => x.height = r.f32(),
        3 => x.rotation = r.f32(),
        4 => x.image = r.latin(),
        5 => x.surface = r.latin(),
        6 => x.name = r.wide(),
        7 => x.text = r.latin(),
        8 => x.decal_type = g_decaltype(r),
        9 => x.material = r.latin(),
        10 => x.color = g_color(r),
        11 => x.sizing_type = g_sizingtype(r),
        12 => x.vertical_text = r.bool(),
        13 => x.backglass = r.bool(),
        14 => x.font = g_font(r),
        15 => x.is_locked = r.bool(),
        16 => x.editor_layer = r.opt(|r| r.u32()),
        17 => x.editor_layer_name = r.opt(|r| r.latin()),
        18 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        19 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_decal(r: &mut R) -> Decal {
    let mut x = Decal::default();
    for i in 0..FIELDS_DECAL.len() { set_decal(&mut x, i, r); }
    x
}
pub const FIELDS_GATE: &[&str] = &["name", "center", "length", "height", "rotation", "material", "show_bracket", "is_collidable", "imgf", "imgb", "surface", "elasticity", "angle_max", "angle_min", "friction", "damping", "gravity_factor", "is_visible", "two_way", "is_reflection_enabled", "gate_type", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_gate(x: &mut Gate, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.center = g_vertex2d(r),
        2 => x.length = r.f32(),
        3 => x.height = r.f32(),
        4 => x.rotation = r.f32(),
        5 => x.material = r.latin(),
        6 => x.show_bracket = r.bool(),
        7 => x.is_collidable = r.bool(),
        8 => x.imgf = r.opt(|r| r.latin()),
        9 => x.imgb = r.opt(|r| r.latin()),
        10 => x.surface = r.latin(),
        11 => x.elasticity = r.f32(),
        12 => x.angle_max = r.f32(),
        13 => x.angle_min = r.f32(),
        14 => x.friction = r.f32(),
        15 => x.damping = r.opt(|r| r.f32()),
        16 => x.gravity_factor = r.opt(|r| r.f32()),
        17 => x.is_visible = r.bool(),
        18 => x.two_way = r.bool(),
        19 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        20 => x.gate_type = r.opt(|r| g_gatetype(r)),
        21 => x.timer = g_timerdata(r),
        22 => x.is_locked = r.bool(),
        23 => x.editor_layer = r.opt(|r| r.u32()),
        24 => x.editor_layer_name = r.opt(|r| r.latin()),
        25 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        26 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_gate(r: &mut R) -> Gate {
    let mut x = Gate::default();
    for i in 0..FIELDS_GATE.len() { set_gate(&mut x, i, r); }
    x
}
pub const FIELDS_SPINNER: &[&str] = &["name", "center", "rotation", "height", "length", "damping", "angle_max", "angle_min", "elasticity", "is_visible", "show_bracket", "material", "image", "surface", "is_reflection_enabled", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_spinner(x: &mut Spinner, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.center = g_vertex2d(r),
        2 => x.rotation = r.f32(),
        3 => x.height = r.f32(),
        4 => x.length = r.f32(),
        5 => x.damping = r.f32(),
        6 => x.angle_max = r.f32(),
        7 => x.angle_min = r.f32(),
        8 => x.elasticity = r.f32(),
        9 => x.is_visible = r.bool(),
        10 => x.show_bracket = r.bool(),
        11 => x.material = r.latin(),
        12 => x.image = r.latin(),
        13 => x.surface = r.latin(),
        14 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        15 => x.timer = g_timerdata(r),
        16 => x.is_locked = r.bool(),
        17 => x.editor_layer = r.opt(|r| r.u32()),
        18 => x.editor_layer_name = r.opt(|r| r.latin()),
        19 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        20 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_spinner(r: &mut R) -> Spinner {
    let mut x = Spinner::default();
    for i in 0..FIELDS_SPINNER.len() { set_spinner(&mut x, i, r); }
    x
}
pub const FIELDS_RAMP: &[&str] = &["height_bottom", "height_top", "width_bottom", "width_top", "material", "ramp_type", "name", "image", "image_alignment", "image_walls", "left_wall_height", "right_wall_height", "left_wall_height_visible", "right_wall_height_visible", "hit_event", "threshold", "elasticity", "friction", "scatter", "is_collidable", "is_visible", "depth_bias", "wire_diameter", "wire_distance_x", "wire_distance_y", "is_reflection_enabled", "physics_material", "overwrite_physics", "drag_points", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_ramp(x: &mut Ramp, i: usize, r: &mut R) {
    match i {
        0 => x.height_bottom = r.f32(),
        1 => x.height_top = r.f32(),
        2 => x.width_bottom = r.f32(),
        3 => x.width_top = r.f32(),
        4 => x.material = r.latin(),
        5 => x.ramp_type = g_ramptype(r),
        6 => x.name = r.wide(),
        7 => x.image = r.latin(),
        8 => x.image_alignment = g_rampimagealignment(r),
        9 => x.image_walls = r.bool(),
        10 => x.left_wall_height = r.f32(),
        11 => x.right_wall_height = r.f32(),
        12 => x.left_wall_height_visible = r.f32(),
        13 => x.right_wall_height_visible = r.f32(),
        14 => x.hit_event = r.opt(|r| r.bool()),
        15 => x.threshold = r.opt(|r| r.f32()),
        16 => x.elasticity = r.f32(),
        17 => x.friction = r.f32(),
        18 => x.scatter = r.f32(),
        19 => x.is_collidable = r.bool(),
        20 => x.is_visible = r.bool(),
        21 => x.depth_bias = r.f32(),
        22 => x.wire_diameter = r.f32(),
        23 => x.wire_distance_x = r.f32(),
        24 => x.wire_distance_y = r.f32(),
        25 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        26 => x.physics_material = r.opt(|r| r.latin()),
        27 => x.overwrite_physics = r.opt(|r| r.bool()),
        28 => x.drag_points = { let n = r.small_len(); (0..n).map(|_| g_dragpoint(r)).collect() },
        29 => x.timer = g_timerdata(r),
        30 => x.is_locked = r.bool(),
        31 => x.editor_layer = r.opt(|r| r.u32()),
        32 => x.editor_layer_name = r.opt(|r| r.latin()),
        33 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        34 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_ramp(r: &mut R) -> Ramp {
    let mut x = Ramp::default();
    for i in 0..FIELDS_RAMP.len() { set_ramp(&mut x, i, r); }
    x
}
pub const FIELDS_REEL: &[&str] = &["ver1", "ver2", "back_color", "is_transparent", "image", "sound", "name", "width", "height", "reel_count", "reel_spacing", "motor_steps", "digit_range", "update_interval", "use_image_grid", "is_visible", "images_per_grid_row", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_reel(x: &mut Reel, i: usize, r: &mut R) {
    match i {
        0 => x.ver1 = g_vertex2d(r),
        1 => x.ver2 = g_vertex2d(r),
        2 => x.back_color = g_color(r),
        3 => x.is_transparent = r.bool(),
        4 => x.image = r.latin(),
        5 => x.sound = r.latin(),
        6 => x.name = r.wide(),
        7 => x.width = r.f32(),
        8 => x.height = r.f32(),
        9 => x.reel_count = r.f32(),
        10 => x.reel_spacing = r.f32(),
        11 => x.motor_steps = r.f32(),
        12 => x.digit_range = r.f32(),
        13 => x.update_interval = r.u32(),
        14 => x.use_image_grid = r.bool(),
        15 => x.is_visible = r.bool(),
        16 => x.images_per_grid_row = r.u32(),
        17 => x.timer = g_timerdata(r),
        18 => x.is_locked = r.bool(),
        19 => x.editor_layer = r.opt(|r| r.u32()),
        20 => x.editor_layer_name = r.opt(|r| r.latin()),
        21 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        22 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_reel(r: &mut R) -> Reel {
    let mut x = Reel::default();
    for i in 0..FIELDS_REEL.len() { set_reel(&mut x, i, r); }
    x
}
pub const FIELDS_LIGHTSEQUENCER: &[&str] = &["center", "collection", "pos_x", "pos_y", "update_interval", "name", "backglass", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_lightsequencer(x: &mut LightSequencer, i: usize, r: &mut R) {
    match i {
        0 => x.center = g_vertex2d(r),
        1 => x.collection = r.wide(),
        2 => x.pos_x = r.f32(),
        3 => x.pos_y = r.f32(),
        4 => x.update_interval = r.u32(),
        5 => x.name = r.wide(),
        6 => x.backglass = r.bool(),
        7 => x.timer = g_timerdata(r),
        8 => x.is_locked = r.opt(|r| r.bool()),
        9 => x.editor_layer = r.opt(|r| r.u32()),
        10 => x.editor_layer_name = r.opt(|r| r.latin()),
        11 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        12 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_lightsequencer(r: &mut R) -> LightSequencer {
    let mut x = LightSequencer::default();
    for i in 0..FIELDS_LIGHTSEQUENCER.len() { set_lightsequencer(&mut x, i, r); }
    x
}
pub const FIELDS_PRIMITIVE: &[&str] = &["name", "position", "size", "rot_and_tra", "image", "normal_map", "sides", "material", "side_color", "is_visible", "draw_textures_inside", "hit_event", "threshold", "elasticity", "elasticity_falloff", "friction", "scatter", "edge_factor_ui", "collision_reduction_factor", "is_collidable", "is_toy", "use_3d_mesh", "static_rendering", "disable_lighting_top_old", "disable_lighting_top", "disable_lighting_below", "is_reflection_enabled", "backfaces_enabled", "physics_material", "overwrite_physics", "display_texture", "object_space_normal_map", "min_aa_bound", "max_aa_bound", "mesh_file_name", "depth_bias", "add_blend", "use_depth_mask", "alpha", "color", "light_map", "reflection_probe", "reflection_strength", "refraction_probe", "refraction_thickness", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_primitive(x: &mut Primitive, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.position = g_vertex3d(r),
        2 => x.size = g_vertex3d(r),
        3 => x.rot_and_tra = std::array::from_fn(|_| r.f32()),
        4 => x.image = r.latin(),
        5 => x.normal_map = r.opt(|r| r.latin()),
        6 => x.sides = r.u32(),
        7 => x.material = r.latin(),
        8 => x.side_color = g_color(r),
        9 => x.is_visible = r.bool(),
        10 => x.draw_textures_inside = r.bool(),
        11 => x.hit_event = r.bool(),
        12 => x.threshold = r.f32(),
        13 => x.elasticity = r.f32(),
        14 => x.elasticity_falloff = r.f32(),
        15 => x.friction = r.f32(),
        16 => x.scatter = r.f32(),
        17 => x.edge_factor_ui = r.f32(),
        18 => x.collision_reduction_factor = r.opt(|r| r.f32()),
        19 => x.is_collidable = r.bool(),
        20 => x.is_toy = r.bool(),
        21 => x.use_3d_mesh = r.bool(),
        22 => x.static_rendering = r.bool(),
        23 => x.disable_lighting_top_old = r.opt(|r| r.q8()),
        24 => x.disable_lighting_top = r.opt(|r| r.f32()),
        25 => x.disable_lighting_below = r.opt(|r| r.f32()),
        26 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        27 => x.backfaces_enabled = r.opt(|r| r.bool()),
        28 => x.physics_material = r.opt(|r| r.latin()),
        29 => x.overwrite_physics = r.opt(|r| r.bool()),
        30 => x.display_texture = r.opt(|r| r.bool()),
        31 => x.object_space_normal_map = r.opt(|r| r.bool()),
        32 => x.min_aa_bound = r.opt(|r| g_vertex3d(r)),
        33 => x.max_aa_bound = r.opt(|r| g_vertex3d(r)),
        34 => x.mesh_file_name = r.opt(|r| r.latin()),
        35 => x.depth_bias = r.f32(),
        36 => x.add_blend = r.opt(|r| r.bool()),
        37 => x.use_depth_mask = r.opt(|r| r.bool()),
        38 => x.alpha = r.opt(|r| r.f32()),
        39 => x.color = r.opt(|r| g_color(r)),
        40 => x.light_map = r.opt(|r| r.latin()),
        41 => x.reflection_probe = r.opt(|r| r.latin()),
        42 => x.reflection_strength = r.opt(|r| r.f32()),
        43 => x.refraction_probe = r.opt(|r| r.latin()),
        44 => x.refraction_thickness = r.opt(|r| r.f32()),
        45 => x.is_locked = r.bool(),
        46 => x.editor_layer = r.opt(|r| r.u32()),
        47 => x.editor_layer_name = r.opt(|r| r.latin()),
        48 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        49 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_primitive(r: &mut R) -> Primitive {
    let mut x = Primitive::default();
    for i in 0..FIELDS_PRIMITIVE.len() { set_primitive(&mut x, i, r); }
    x
}
pub const FIELDS_FLASHER: &[&str] = &["height", "pos_x", "pos_y", "rot_x", "rot_y", "rot_z", "color", "name", "image_a", "image_b", "alpha", "modulate_vs_add", "is_visible", "add_blend", "is_dmd", "render_mode", "render_style", "glass_roughness", "glass_ambient", "glass_pad_top", "glass_pad_bottom", "glass_pad_left", "glass_pad_right", "image_src_link", "display_texture", "depth_bias", "image_alignment", "filter", "filter_amount", "light_map", "backglass", "drag_points", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_flasher(x: &mut Flasher, i: usize, r: &mut R) {
    match i {
        0 => x.height = r.f32(),
        1 => x.pos_x = r.f32(),
        2 => x.pos_y = r.f32(),
        3 => x.rot_x = r.f32(),
        4 => x.rot_y = r.f32(),
        5 => x.rot_z = r.f32(),
        6 => x.color = g_color(r),
        7 => x.name = r.wide(),
        8 => x.image_a = r.latin(),
        9 => x.image_b = r.latin(),
        10 => x.alpha = r.i32(),
        11 => x.modulate_vs_add = r.f32(),
        12 => x.is_visible = r.bool(),
        13 => x.add_blend = r.bool(),
        14 => x.is_dmd = r.opt(|r| r.bool()),
        15 => x.render_mode = r.opt(|r| g_rendermode(r)),
        16 => x.render_style = r.opt(|r| r.u32()),
        17 => x.glass_roughness = r.opt(|r| r.f32()),
        18 => x.glass_ambient = r.opt(|r| r.u32()),
        19 => x.glass_pad_top = r.opt(|r| r.f32()),
        20 => x.glass_pad_bottom = r.opt(|r| r.f32()),
        21 => x.glass_pad_left = r.opt(|r| r.f32()),
        22 => x.glass_pad_right = r.opt(|r| r.f32()),
        23 => x.image_src_link = r.opt(|r| r.latin()),
        24 => x.display_texture = r.bool(),
        25 => x.depth_bias = r.f32(),
        26 => x.image_alignment = g_rampimagealignment(r),
        27 => x.filter = g_filter(r),
        28 => x.filter_amount = r.u32(),
        29 => x.light_map = r.opt(|r| r.latin()),
        30 => x.backglass = r.opt(|r| r.bool()),
        31 => x.drag_points = { let n = r.small_len(); (0..n).map(|_| g_dragpoint(r)).collect() },
        32 => x.timer = g_timerdata(r),
        33 => x.is_locked = r.bool(),
        34 => x.editor_layer = r.opt(|r| r.u32()),
        35 => x.editor_layer_name = r.opt(|r| r.latin()),
        36 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        37 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_flasher(r: &mut R) -> Flasher {
    let mut x = Flasher::default();
    for i in 0..FIELDS_FLASHER.len() { set_flasher(&mut x, i, r); }
    x
}
pub const FIELDS_RUBBER: &[&str] = &["height", "hit_height", "thickness", "hit_event", "material", "name", "image", "elasticity", "elasticity_falloff", "friction", "scatter", "is_collidable", "is_visible", "radb", "static_rendering", "show_in_editor", "rot_x", "rot_y", "rot_z", "is_reflection_enabled", "physics_material", "overwrite_physics", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name", "drag_points"];
pub fn set_rubber(x: &mut Rubber, i: usize, r: &mut R) {
    match i {
        0 => x.height = r.f32(),
        1 => x.hit_height = r.opt(|r| r.f32()),
        2 => x.thickness = r.i32(),
        3 => x.hit_event = r.bool(),
        4 => x.material = r.latin(),
        5 => x.name = r.wide(),
        6 => x.image = r.latin(),
        7 => x.elasticity = r.f32(),
        8 => x.elasticity_falloff = r.f32(),
        9 => x.friction = r.f32(),
        10 => x.scatter = r.f32(),
        11 => x.is_collidable = r.bool(),
        12 => x.is_visible = r.bool(),
        13 => x.radb = r.opt(|r| r.f32()),
        14 => x.static_rendering = r.bool(),
        15 => x.show_in_editor = r.bool(),
        16 => x.rot_x = r.f32(),
        17 => x.rot_y = r.f32(),
        18 => x.rot_z = r.f32(),
        19 => x.is_reflection_enabled = r.opt(|r| r.bool()),
        20 => x.physics_material = r.opt(|r| r.latin()),
        21 => x.overwrite_physics = r.opt(|r| r.bool()),
        22 => x.timer = g_timerdata(r),
        23 => x.is_locked = r.bool(),
        24 => x.editor_layer = r.opt(|r| r.u32()),
        25 => x.editor_layer_name = r.opt(|r| r.latin()),
        26 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        27 => x.part_group_name = r.opt(|r| r.latin()),
        28 => x.drag_points = { let n = r.small_len(); (0..n).map(|_| g_dragpoint(r)).collect() },
        _ => {}
    }
}
pub fn g_rubber(r: &mut R) -> Rubber {
    let mut x = Rubber::default();
    for i in 0..FIELDS_RUBBER.len() { set_rubber(&mut x, i, r); }
    x
}
pub const FIELDS_HITTARGET: &[&str] = &["name", "position", "size", "rot_z", "image", "target_type", "material", "is_visible", "is_legacy", "use_hit_event", "threshold", "elasticity", "elasticity_falloff", "friction", "scatter", "is_collidable", "disable_lighting_top_old", "disable_lighting_top", "disable_lighting_below", "depth_bias", "is_reflection_enabled", "is_dropped", "drop_speed", "raise_delay", "physics_material", "overwrite_physics", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_hittarget(x: &mut HitTarget, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.position = g_vertex3d(r),
        2 => x.size = g_vertex3d(r),
        3 => x.rot_z = r.f32(),
        4 => x.image = r.latin(),
        5 => x.target_type = g_targettype(r),
        6 => x.material = r.latin(),
        7 => x.is_visible = r.bool(),
        8 => x.is_legacy = r.bool(),
        9 => x.use_hit_event = r.bool(),
        10 => x.threshold = r.f32(),
        11 => x.elasticity = r.f32(),
        12 => x.elasticity_falloff = r.f32(),
        13 => x.friction = r.f32(),
        14 => x.scatter = r.f32(),
        15 => x.is_collidable = r.bool(),
        16 => x.disable_lighting_top_old = r.opt(|r| r.q8()),
        17 => x.disable_lighting_top = r.opt(|r| r.f32()),
        18 => x.disable_lighting_below = r.opt(|r| r.f32()),
        19 => x.depth_bias = r.f32(),
        20 => x.is_reflection_enabled = r.bool(),
        21 => x.is_dropped = r.bool(),
        22 => x.drop_speed = r.f32(),
        23 => x.raise_delay = r.opt(|r| r.u32()),
        24 => x.physics_material = r.opt(|r| r.latin()),
        25 => x.overwrite_physics = r.opt(|r| r.bool()),
        26 => x.timer = g_timerdata(r),
        27 => x.is_locked = r.bool(),
        28 => x.editor_layer = r.opt(|r| r.u32()),
        29 => x.editor_layer_name = r.opt(|r| r.latin()),
        30 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        31 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_hittarget(r: &mut R) -> HitTarget {
    let mut x = HitTarget::default();
    for i in 0..FIELDS_HITTARGET.len() { set_hittarget(&mut x, i, r); }
    x
}
pub const FIELDS_BALL: &[&str] = &["name", "pos", "radius", "mass", "force_reflection", "decal_mode", "image", "image_decal", "bulb_intensity_scale", "playfield_reflection_strength", "color", "spherical_mapping", "is_reflection_enabled", "timer", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"];
pub fn set_ball(x: &mut Ball, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.pos = g_vertex3d(r),
        2 => x.radius = r.f32(),
        3 => x.mass = r.f32(),
        4 => x.force_reflection = r.bool(),
        5 => x.decal_mode = r.bool(),
        6 => x.image = r.latin(),
        7 => x.image_decal = r.latin(),
        8 => x.bulb_intensity_scale = r.f32(),
        9 => x.playfield_reflection_strength = r.f32(),
        10 => x.color = g_color(r),
        11 => x.spherical_mapping = r.bool(),
        12 => x.is_reflection_enabled = r.bool(),
        13 => x.timer = g_timerdata(r),
        14 => x.is_locked = r.bool(),
        15 => x.editor_layer = r.opt(|r| r.u32()),
        16 => x.editor_layer_name = r.opt(|r| r.latin()),
        17 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        18 => x.part_group_name = r.opt(|r| r.latin()),
        _ => {}
    }
}
pub fn g_ball(r: &mut R) -> Ball {
    let mut x = Ball::default();
    for i in 0..FIELDS_BALL.len() { set_ball(&mut x, i, r); }
    x
}
pub const FIELDS_PARTGROUP: &[&str] = &["name", "center", "timer", "backglass", "visibility_mask", "space_reference", "player_mode_visibility_mask", "is_locked", "editor_layer_name", "editor_layer_visibility"];
pub fn set_partgroup(x: &mut PartGroup, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.center = g_vertex2d(r),
        2 => x.timer = g_timerdata(r),
        3 => x.backglass = r.bool(),
        4 => x.visibility_mask = r.opt(|r| r.u32()),
        5 => x.space_reference = g_spacereference(r),
        6 => x.player_mode_visibility_mask = r.opt(|r| r.u32()),
        7 => x.is_locked = r.bool(),
        8 => x.editor_layer_name = r.opt(|r| r.latin()),
        9 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        _ => {}
    }
}
pub fn g_partgroup(r: &mut R) -> PartGroup {
    let mut x = PartGroup::default();
    for i in 0..FIELDS_PARTGROUP.len() { set_partgroup(&mut x, i, r); }
    x
}
pub const FIELDS_GAMEDATA: &[&str] = &["name", "left", "top", "right", "bottom", "camera_layout_mode", "bg_view_mode_desktop", "bg_rotation_desktop", "bg_inclination_desktop", "bg_layback_desktop", "bg_fov_desktop", "bg_offset_x_desktop", "bg_offset_y_desktop", "bg_offset_z_desktop", "bg_scale_x_desktop", "bg_scale_y_desktop", "bg_scale_z_desktop", "bg_enable_fss", "bg_view_horizontal_offset_desktop", "bg_view_vertical_offset_desktop", "bg_window_top_x_offset_desktop", "bg_window_top_y_offset_desktop", "bg_window_top_z_offset_desktop", "bg_window_bottom_x_offset_desktop", "bg_window_bottom_y_offset_desktop", "bg_window_bottom_z_offset_desktop", "bg_view_mode_fullscreen", "bg_rotation_fullscreen", "bg_inclination_fullscreen", "bg_layback_fullscreen", "bg_fov_fullscreen", "bg_offset_x_fullscreen", "bg_offset_y_fullscreen", "bg_offset_z_fullscreen", "bg_scale_x_fullscreen", "bg_scale_y_fullscreen", "bg_scale_z_fullscreen", "bg_view_horizontal_offset_fullscreen", "bg_view_vertical_offset_fullscreen", "bg_window_top_x_offset_fullscreen", "bg_window_top_y_offset_fullscreen", "bg_window_top_z_offset_fullscreen", "bg_window_bottom_x_offset_fullscreen", "bg_window_bottom_y_offset_fullscreen", "bg_window_bottom_z_offset_fullscreen", "bg_view_mode_full_single_screen", "bg_rotation_full_single_screen", "bg_inclination_full_single_screen", "bg_layback_full_single_screen", "bg_fov_full_single_screen", "bg_offset_x_full_single_screen", "bg_offset_y_full_single_screen", "bg_offset_z_full_single_screen", "bg_scale_x_full_single_screen", "bg_scale_y_full_single_screen", "bg_scale_z_full_single_screen", "bg_view_horizontal_offset_full_single_screen", "bg_view_vertical_offset_full_single_screen", "bg_window_top_x_offset_full_single_screen", "bg_window_top_y_offset_full_single_screen", "bg_window_top_z_offset_full_single_screen", "bg_window_bottom_x_offset_full_single_screen", "bg_window_bottom_y_offset_full_single_screen", "bg_window_bottom_z_offset_full_single_screen", "override_physics", "override_physics_flipper", "gravity", "friction", "elasticity", "elastic_falloff", "scatter", "default_scatter", "nudge_time", "plunger_normalize", "plunger_filter", "physics_max_loops", "render_em_reels", "render_decals", "offset_x", "offset_y", "zoom", "angle_tilt_max", "angle_tilt_min", "stereo_max_separation", "stereo_zero_parallax_displacement", "stereo_offset", "overwrite_global_stereo3d", "image", "backglass_image_full_desktop", "backglass_image_full_fullscreen", "backglass_image_full_single_screen", "image_backdrop_night_day", "image_color_grade", "ball_image", "ball_spherical_mapping", "ball_image_front", "env_image", "notes", "screen_shot", "display_backdrop", "glass_top_height", "glass_bottom_height", "table_height", "playfield_material", "backdrop_color", "global_difficulty", "light_ambient", "light0_emission", "light_height", "light_range", "light_emission_scale", "env_emission_scale", "global_emission_scale", "ao_scale", "ssr_scale", "ground_to_lockbar_height", "table_sound_volume", "table_music_volume", "table_adaptive_vsync", "use_reflection_for_balls", "brst", "playfield_reflection_strength", "use_trail_for_balls", "ball_decal_mode", "ball_playfield_reflection_strength", "default_bulb_intensity_scale_on_ball", "ball_trail_strength", "user_detail_level", "overwrite_global_detail_level", "overwrite_global_day_night", "show_grid", "reflect_elements_on_playfield", "use_aal", "use_fxaa", "use_ao", "use_ssr", "tone_mapper", "bloom_strength", "custom_colors", "protection_data", "locked", "exposure"];
pub fn set_gamedata(x: &mut GameData, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.left = r.f32(),
        2 => x.top = r.f32(),
        3 => x.right = r.f32(),
        4 => x.bottom = r.f32(),
        5 => x.camera_layout_mode = r.opt(|r| r.u32()),
        6 => x.bg_view_mode_desktop = r.opt(|r| g_viewlayoutmode(r)),
        7 => x.bg_rotation_desktop = r.f32(),
        8 => x.bg_inclination_desktop = r.f32(),
        9 => x.bg_layback_desktop = r.f32(),
        10 => x.bg_fov_desktop = r.f32(),
        11 => x.bg_offset_x_desktop = r.f32(),
        12 => x.bg_offset_y_desktop = r.f32(),
        13 => x.bg_offset_z_desktop = r.f32(),
        14 => x.bg_scale_x_desktop = r.f32(),
        15 => x.bg_scale_y_desktop = r.f32(),
        16 => x.bg_scale_z_desktop = r.f32(),
        17 => x.bg_enable_fss = r.opt(|r| r.bool()),
        18 => x.bg_view_horizontal_offset_desktop = r.opt(|r| r.f32()),
        19 => x.bg_view_vertical_offset_desktop = r.opt(|r| r.f32()),
        20 => x.bg_window_top_x_offset_desktop = r.opt(|r| r.f32()),
        21 => x.bg_window_top_y_offset_desktop = r.opt(|r| r.f32()),
        22 => x.bg_window_top_z_offset_desktop = r.opt(|r| r.f32()),
        23 => x.bg_window_bottom_x_offset_desktop = r.opt(|r| r.f32()),
        24 => x.bg_window_bottom_y_offset_desktop = r.opt(|r| r.f32()),
        25 => x.bg_window_bottom_z_offset_desktop = r.opt(|r| r.f32()),
        26 => x.bg_view_mode_fullscreen = r.opt(|r| g_viewlayoutmode(r)),
        27 => x.bg_rotation_fullscreen = r.f32(),
        28 => x.bg_inclination_fullscreen = r.f32(),
        29 => x.bg_layback_fullscreen = r.f32(),
        30 => x.bg_fov_fullscreen = r.f32(),
        31 => x.bg_offset_x_fullscreen = r.f32(),
        32 => x.bg_offset_y_fullscreen = r.f32(),
        33 => x.bg_offset_z_fullscreen = r.f32(),
        34 => x.bg_scale_x_fullscreen = r.f32(),
        35 => x.bg_scale_y_fullscreen = r.f32(),
        36 => x.bg_scale_z_fullscreen = r.f32(),
        37 => x.bg_view_horizontal_offset_fullscreen = r.opt(|r| r.f32()),
        38 => x.bg_view_vertical_offset_fullscreen = r.opt(|r| r.f32()),
        39 => x.bg_window_top_x_offset_fullscreen = r.opt(|r| r.f32()),
        40 => x.bg_window_top_y_offset_fullscreen = r.opt(|r| r.f32()),
        41 => x.bg_window_top_z_offset_fullscreen = r.opt(|r| r.f32()),
        42 => x.bg_window_bottom_x_offset_fullscreen = r.opt(|r| r.f32()),
        43 => x.bg_window_bottom_y_offset_fullscreen = r.opt(|r| r.f32()),
        44 => x.bg_window_bottom_z_offset_fullscreen = r.opt(|r| r.f32()),
        45 => x.bg_view_mode_full_single_screen = r.opt(|r| g_viewlayoutmode(r)),
        46 => x.bg_rotation_full_single_screen = r.opt(|r| r.f32()),
        47 => x.bg_inclination_full_single_screen = r.opt(|r| r.f32()),
        48 => x.bg_layback_full_single_screen = r.opt(|r| r.f32()),
        49 => x.bg_fov_full_single_screen = r.opt(|r| r.f32()),
        50 => x.bg_offset_x_full_single_screen = r.opt(|r| r.f32()),
        51 => x.bg_offset_y_full_single_screen = r.opt(|r| r.f32()),
        52 => x.bg_offset_z_full_single_screen = r.opt(|r| r.f32()),
        53 => x.bg_scale_x_full_single_screen = r.opt(|r| r.f32()),
        54 => x.bg_scale_y_full_single_screen = r.opt(|r| r.f32()),
        55 => x.bg_scale_z_full_single_screen = r.opt(|r| r.f32()),
        56 => x.bg_view_horizontal_offset_full_single_screen = r.opt(|r| r.f32()),
        57 => x.bg_view_vertical_offset_full_single_screen = r.opt(|r| r.f32()),
        58 => x.bg_window_top_x_offset_full_single_screen = r.opt(|r| r.f32()),
        59 => x.bg_window_top_y_offset_full_single_screen = r.opt(|r| r.f32()),
        60 => x.bg_window_top_z_offset_full_single_screen = r.opt(|r| r.f32()),
        61 => x.bg_window_bottom_x_offset_full_single_screen = r.opt(|r| r.f32()),
        62 => x.bg_window_bottom_y_offset_full_single_screen = r.opt(|r| r.f32()),
        63 => x.bg_window_bottom_z_offset_full_single_screen = r.opt(|r| r.f32()),
        64 => x.override_physics = r.u32(),
        65 => x.override_physics_flipper = r.opt(|r| r.bool()),
        66 => x.gravity = r.f32(),
        67 => x.friction = r.f32(),
        68 => x.elasticity = r.f32(),
        69 => x.elastic_falloff = r.f32(),
        70 => x.scatter = r.f32(),
        71 => x.default_scatter = r.f32(),
        72 => x.nudge_time = r.f32(),
        73 => x.plunger_normalize = r.opt(|r| r.u32()),
        74 => x.plunger_filter = r.opt(|r| r.bool()),
        75 => x.physics_max_loops = r.u32(),
        76 => x.render_em_reels = r.bool(),
        77 => x.render_decals = r.bool(),
        78 => x.offset_x = r.f32(),
        79 => x.offset_y = r.f32(),
        80 => x.zoom = r.f32(),
        81 => x.angle_tilt_max = r.f32(),
        82 => x.angle_tilt_min = r.f32(),
        83 => x.stereo_max_separation = r.opt(|r| r.f32()),
        84 => x.stereo_zero_parallax_displacement = r.opt(|r| r.f32()),
        85 => x.stereo_offset = r.opt(|r| r.f32()),
        86 => x.overwrite_global_stereo3d = r.opt(|r| r.bool()),
        87 => x.image = r.latin(),
        88 => x.backglass_image_full_desktop = r.latin(),
        89 => x.backglass_image_full_fullscreen = r.latin(),
        90 => x.backglass_image_full_single_screen = r.opt(|r| r.latin()),
        91 => x.image_backdrop_night_day = r.bool(),
        92 => x.image_color_grade = r.latin(),
        93 => x.ball_image = r.latin(),
        94 => x.ball_spherical_mapping = r.opt(|r| r.bool()),
        95 => x.ball_image_front = r.latin(),
        96 => x.env_image = r.opt(|r| r.latin()),
        97 => x.notes = r.opt(|r| r.latin()),
        98 => x.screen_shot = r.latin(),
        99 => x.display_backdrop = r.bool(),
        100 => x.glass_top_height = r.f32(),
        101 => x.glass_bottom_height = r.opt(|r| r.f32()),
        102 => x.table_height = r.opt(|r| r.f32()),
        103 => x.playfield_material = r.latin(),
        104 => x.backdrop_color = g_color(r),
        105 => x.global_difficulty = r.f32(),
        106 => x.light_ambient = g_color(r),
        107 => x.light0_emission = g_color(r),
        108 => x.light_height = r.f32(),
        109 => x.light_range = r.f32(),
        110 => x.light_emission_scale = r.f32(),
        111 => x.env_emission_scale = r.f32(),
        112 => x.global_emission_scale = r.f32(),
        113 => x.ao_scale = r.f32(),
        114 => x.ssr_scale = r.opt(|r| r.f32()),
        115 => x.ground_to_lockbar_height = r.opt(|r| r.f32()),
        116 => x.table_sound_volume = r.f32(),
        117 => x.table_music_volume = r.f32(),
        118 => x.table_adaptive_vsync = r.opt(|r| r.i32()),
        119 => x.use_reflection_for_balls = r.opt(|r| r.i32()),
        120 => x.brst = r.opt(|r| r.i32()),
        121 => x.playfield_reflection_strength = r.q8(),
        122 => x.use_trail_for_balls = r.opt(|r| r.i32()),
        123 => x.ball_decal_mode = r.bool(),
        124 => x.ball_playfield_reflection_strength = r.opt(|r| r.f32()),
        125 => x.default_bulb_intensity_scale_on_ball = r.opt(|r| r.f32()),
        126 => x.ball_trail_strength = r.opt(|r| r.u32()),
        127 => x.user_detail_level = r.opt(|r| r.u32()),
        128 => x.overwrite_global_detail_level = r.opt(|r| r.bool()),
        129 => x.overwrite_global_day_night = r.opt(|r| r.bool()),
        130 => x.show_grid = r.bool(),
        131 => x.reflect_elements_on_playfield = r.opt(|r| r.bool()),
        132 => x.use_aal = r.opt(|r| r.i32()),
        133 => x.use_fxaa = r.opt(|r| r.i32()),
        134 => x.use_ao = r.opt(|r| r.i32()),
        135 => x.use_ssr = r.opt(|r| r.i32()),
        136 => x.tone_mapper = r.opt(|r| g_tonemapper(r)),
        137 => x.bloom_strength = r.f32(),
        138 => x.custom_colors = std::array::from_fn(|_| g_color(r)),
        139 => x.protection_data = r.opt(|r| r.blob()),
        140 => x.locked = r.opt(|r| r.u32()),
        141 => x.exposure = r.opt(|r| r.f32()),
        _ => {}
    }
}
pub fn g_gamedata(r: &mut R) -> GameData {
    let mut x = GameData::default();
    for i in 0..FIELDS_GAMEDATA.len() { set_gamedata(&mut x, i, r); }
    x
}
pub const FIELDS_TABLEINFO: &[&str] = &["table_name", "author_name", "table_blurb", "table_rules", "author_email", "release_date", "table_save_rev", "table_version", "author_website", "table_save_date", "table_description"];
pub fn set_tableinfo(x: &mut TableInfo, i: usize, r: &mut R) {
    match i {
        0 => x.table_name = r.opt(|r| r.wide()),
        1 => x.author_name = r.opt(|r| r.wide()),
        2 => x.table_blurb = r.opt(|r| r.wide()),
        3 => x.table_rules = r.opt(|r| r.wide()),
        4 => x.author_email = r.opt(|r| r.wide()),
        5 => x.release_date = r.opt(|r| r.wide()),
        6 => x.table_save_rev = r.opt(|r| r.wide()),
        7 => x.table_version = r.opt(|r| r.wide()),
        8 => x.author_website = r.opt(|r| r.wide()),
        9 => x.table_save_date = r.opt(|r| r.wide()),
        10 => x.table_description = r.opt(|r| r.wide()),
        _ => {}
    }
}
pub fn g_tableinfo(r: &mut R) -> TableInfo {
    let mut x = TableInfo::default();
    for i in 0..FIELDS_TABLEINFO.len() { set_tableinfo(&mut x, i, r); }
    x
}
pub const FIELDS_COLLECTION: &[&str] = &["name", "items", "fire_events", "stop_single_events", "group_elements"];
pub fn set_collection(x: &mut Collection, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.wide(),
        1 => x.items = { let n = r.small_len(); (0..n).map(|_| r.wide()).collect() },
        2 => x.fire_events = r.bool(),
        3 => x.stop_single_events = r.bool(),
        4 => x.group_elements = r.bool(),
        _ => {}
    }
}
pub fn g_collection(r: &mut R) -> Collection {
    let mut x = Collection { name: String::new(), items: vec![], fire_events: false, stop_single_events: false, group_elements: false };
    for i in 0..FIELDS_COLLECTION.len() { set_collection(&mut x, i, r); }
    x
}
pub const FIELDS_SAVEMATERIAL: &[&str] = &["name", "base_color", "glossy_color", "clearcoat_color", "wrap_lighting", "is_metal", "roughness", "glossy_image_lerp", "edge", "thickness", "opacity", "opacity_active_edge_alpha"];
pub fn set_savematerial(x: &mut SaveMaterial, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.latin_max(31),
        1 => x.base_color = g_color(r),
        2 => x.glossy_color = g_color(r),
        3 => x.clearcoat_color = g_color(r),
        4 => x.wrap_lighting = r.f32(),
        5 => x.is_metal = r.bool(),
        6 => x.roughness = r.f32(),
        7 => x.glossy_image_lerp = r.u8(),
        8 => x.edge = r.f32(),
        9 => x.thickness = r.u8(),
        10 => x.opacity = r.f32(),
        11 => x.opacity_active_edge_alpha = r.u8(),
        _ => {}
    }
}
pub fn g_savematerial(r: &mut R) -> SaveMaterial {
    let mut x = SaveMaterial::default();
    for i in 0..FIELDS_SAVEMATERIAL.len() { set_savematerial(&mut x, i, r); }
    x
}
pub const FIELDS_SAVEPHYSICSMATERIAL: &[&str] = &["name", "elasticity", "elasticity_falloff", "friction", "scatter_angle"];
pub fn set_savephysicsmaterial(x: &mut SavePhysicsMaterial, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.latin_max(31),
        1 => x.elasticity = r.f32(),
        2 => x.elasticity_falloff = r.f32(),
        3 => x.friction = r.f32(),
        4 => x.scatter_angle = r.f32(),
        _ => {}
    }
}
pub fn g_savephysicsmaterial(r: &mut R) -> SavePhysicsMaterial {
    let mut x = SavePhysicsMaterial::default();
    for i in 0..FIELDS_SAVEPHYSICSMATERIAL.len() { set_savephysicsmaterial(&mut x, i, r); }
    x
}
pub const FIELDS_MATERIAL: &[&str] = &["name", "type_", "wrap_lighting", "roughness", "glossy_image_lerp", "thickness", "edge", "edge_alpha", "opacity", "base_color", "glossy_color", "clearcoat_color", "opacity_active", "elasticity", "elasticity_falloff", "friction", "scatter_angle"];
pub fn set_material(x: &mut Material, i: usize, r: &mut R) {
    match i {
        0 => x.name = r.latin(),
        1 => x.type_ = g_materialtype(r),
        2 => x.wrap_lighting = r.f32(),
        3 => x.roughness = r.f32(),
        4 => x.glossy_image_lerp = r.f32(),
        5 => x.thickness = r.f32(),
        6 => x.edge = r.f32(),
        7 => x.edge_alpha = r.f32(),
        8 => x.opacity = r.f32(),
        9 => x.base_color = g_color(r),
        10 => x.glossy_color = g_color(r),
        11 => x.clearcoat_color = g_color(r),
        12 => x.opacity_active = r.bool(),
        13 => x.elasticity = r.f32(),
        14 => x.elasticity_falloff = r.f32(),
        15 => x.friction = r.f32(),
        16 => x.scatter_angle = r.f32(),
        _ => {}
    }
}
pub fn g_material(r: &mut R) -> Material {
    let mut x = Material::default();
    for i in 0..FIELDS_MATERIAL.len() { set_material(&mut x, i, r); }
    x
}
pub const FIELDS_DRAGPOINT: &[&str] = &["x", "y", "z", "smooth", "is_slingshot", "has_auto_texture", "tex_coord", "is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility"];
pub fn set_dragpoint(x: &mut DragPoint, i: usize, r: &mut R) {
    match i {
        0 => x.x = r.f32(),
        1 => x.y = r.f32(),
        2 => x.z = r.f32(),
        3 => x.smooth = r.bool(),
        4 => x.is_slingshot = r.opt(|r| r.bool()),
        5 => x.has_auto_texture = r.bool(),
        6 => x.tex_coord = r.f32(),
        7 => x.is_locked = r.bool(),
        8 => x.editor_layer = r.opt(|r| r.u32()),
        9 => x.editor_layer_name = r.opt(|r| r.latin()),
        10 => x.editor_layer_visibility = r.opt(|r| r.bool()),
        _ => {}
    }
}
pub fn g_dragpoint(r: &mut R) -> DragPoint {
    let mut x = DragPoint::default();
    for i in 0..FIELDS_DRAGPOINT.len() { set_dragpoint(&mut x, i, r); }
    x
}
pub const FIELDS_TIMERDATA: &[&str] = &["is_enabled", "interval"];
pub fn set_timerdata(x: &mut TimerData, i: usize, r: &mut R) {
    match i {
        0 => x.is_enabled = r.bool(),
        1 => x.interval = r.i32(),
        _ => {}
    }
}
pub fn g_timerdata(r: &mut R) -> TimerData {
    let mut x = TimerData::default();
    for i in 0..FIELDS_TIMERDATA.len() { set_timerdata(&mut x, i, r); }
    x
}
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_wall(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => Enc::Bool(r.bool()),
    2 => Enc::Bool(r.bool()),
    3 => Enc::Bool(r.bool()),
    4 => Enc::Bool(r.bool()),
    5 => Enc::Bool(r.bool()),
    6 => Enc::F32(r.f32()),
    7 => Enc::Str(r.latin()),
    8 => Enc::Str(r.latin()),
    9 => Enc::Str(r.latin()),
    10 => Enc::Str(r.latin()),
    11 => Enc::Str(r.latin()),
    12 => Enc::F32(r.f32()),
    13 => Enc::F32(r.f32()),
    14 => Enc::Bool(r.bool()),
    15 => Enc::F32(r.f32()),
    16 => Enc::F32(r.f32()),
    17 => Enc::F32(r.f32()),
    18 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    19 => Enc::F32(r.f32()),
    20 => Enc::F32(r.f32()),
    21 => Enc::Bool(r.bool()),
    22 => Enc::Bool(r.bool()),
    23 => Enc::Bool(r.bool()),
    24 => match r.opt(|r| Enc::Q8(r.q8())) { Some(e) => e, None => Enc::Absent },
    25 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    26 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    27 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    28 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    29 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    31 => Enc::Bool(r.bool()),
    32 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    33 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    34 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    35 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_flipper(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::F32(r.f32()),
    5 => Enc::F32(r.f32()),
    6 => Enc::F32(r.f32()),
    7 => Enc::F32(r.f32()),
    8 => Enc::U32(r.u32()),
    9 => Enc::F32(r.f32()),
    10 => Enc::Str(r.latin()),
    11 => Enc::Str(r.latin()),
    12 => Enc::Str(r.latin()),
    13 => Enc::U32(r.u32()),
    14 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    15 => Enc::U32(r.u32()),
    16 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    17 => Enc::U32(r.u32()),
    18 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    19 => Enc::F32(r.f32()),
    20 => Enc::F32(r.f32()),
    21 => Enc::F32(r.f32()),
    22 => Enc::F32(r.f32()),
    23 => Enc::F32(r.f32()),
    24 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    25 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    26 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    27 => Enc::F32(r.f32()),
    28 => Enc::Bool(r.bool()),
    29 => Enc::Bool(r.bool()),
    30 => Enc::F32(r.f32()),
    31 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    32 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    34 => Enc::Bool(r.bool()),
    35 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    36 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    37 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    38 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_timer(i: usize, r: &mut R) -> Enc { match i {
    0 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    1 => Enc::Wide(r.wide()),
    2 => Enc::Bool(r.bool()),
    4 => Enc::Bool(r.bool()),
    5 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    6 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    7 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    8 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_plunger(i: usize, r: &mut R) -> Enc { match i {
    0 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    1 => Enc::F32(r.f32()),
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::F32(r.f32()),
    5 => Enc::F32(r.f32()),
    6 => Enc::F32(r.f32()),
    8 => Enc::U32(r.u32()),
    9 => Enc::Str(r.latin()),
    10 => Enc::Str(r.latin()),
    11 => Enc::F32(r.f32()),
    12 => Enc::Bool(r.bool()),
    13 => Enc::Bool(r.bool()),
    14 => Enc::F32(r.f32()),
    15 => Enc::F32(r.f32()),
    16 => Enc::F32(r.f32()),
    17 => Enc::Bool(r.bool()),
    18 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    19 => Enc::Str(r.latin()),
    20 => Enc::Wide(r.wide()),
    21 => Enc::Str(r.latin()),
    22 => Enc::F32(r.f32()),
    23 => Enc::F32(r.f32()),
    24 => Enc::F32(r.f32()),
    25 => Enc::F32(r.f32()),
    26 => Enc::F32(r.f32()),
    27 => Enc::F32(r.f32()),
    28 => Enc::F32(r.f32()),
    29 => Enc::F32(r.f32()),
    31 => Enc::Bool(r.bool()),
    32 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    33 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    34 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    35 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_textbox(i: usize, r: &mut R) -> Enc { match i {
    0 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    1 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    2 => Enc::Color(g_color(r).to_win_color()),
    3 => Enc::Color(g_color(r).to_win_color()),
    4 => Enc::F32(r.f32()),
    5 => Enc::Str(r.latin()),
    6 => Enc::Wide(r.wide()),
    8 => Enc::Bool(r.bool()),
    9 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    10 => Enc::Bytes(font_bytes(g_font_parts(r))),
    12 => Enc::Bool(r.bool()),
    13 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    14 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    15 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    16 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_bumper(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::F32(r.f32()),
    5 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    6 => Enc::F32(r.f32()),
    7 => Enc::F32(r.f32()),
    8 => Enc::F32(r.f32()),
    9 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    10 => Enc::Str(r.latin()),
    11 => Enc::Str(r.latin()),
    12 => Enc::Str(r.latin()),
    13 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    14 => Enc::Str(r.latin()),
    15 => Enc::Bool(r.bool()),
    16 => Enc::Bool(r.bool()),
    17 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    18 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    19 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    20 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    21 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    23 => Enc::Bool(r.bool()),
    24 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    25 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    26 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    27 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_trigger(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    5 => Enc::F32(r.f32()),
    6 => Enc::F32(r.f32()),
    7 => Enc::Str(r.latin()),
    8 => Enc::Str(r.latin()),
    9 => Enc::Bool(r.bool()),
    10 => Enc::Bool(r.bool()),
    11 => Enc::F32(r.f32()),
    13 => Enc::F32(r.f32()),
    14 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    16 => Enc::Bool(r.bool()),
    17 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    18 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    19 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    20 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_light(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    2 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    3 => Enc::F32(r.f32()),
    4 => Enc::F32(r.f32()),
    5 => Enc::U32(r.u32()),
    6 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    7 => Enc::Color(g_color(r).to_win_color()),
    8 => Enc::Color(g_color(r).to_win_color()),
    9 => Enc::Str(r.latin()),
    10 => Enc::Str(r.latin()),
    11 => Enc::U32(r.u32()),
    12 => Enc::F32(r.f32()),
    13 => Enc::F32(r.f32()),
    14 => Enc::Str(r.latin()),
    15 => Enc::Bool(r.bool()),
    16 => Enc::F32(r.f32()),
    17 => Enc::F32(r.f32()),
    18 => Enc::F32(r.f32()),
    19 => Enc::Bool(r.bool()),
    20 => Enc::Bool(r.bool()),
    21 => Enc::Bool(r.bool()),
    22 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    23 => Enc::Bool(r.bool()),
    24 => Enc::F32(r.f32()),
    25 => Enc::F32(r.f32()),
    26 => Enc::F32(r.f32()),
    29 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    31 => Enc::Bool(r.bool()),
    32 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    33 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    34 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    35 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_kicker(i: usize, r: &mut R) -> Enc { match i {
    0 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    1 => Enc::F32(r.f32()),
    2 => Enc::Str(r.latin()),
    3 => Enc::Str(r.latin()),
    4 => Enc::Bool(r.bool()),
    5 => Enc::Wide(r.wide()),
    7 => Enc::F32(r.f32()),
    8 => Enc::F32(r.f32()),
    9 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    10 => Enc::F32(r.f32()),
    11 => Enc::Bool(r.bool()),
    12 => Enc::Bool(r.bool()),
    14 => Enc::Bool(r.bool()),
    15 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    16 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    17 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    18 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_decal(i: usize, r: &mut R) -> Enc { match i {
    0 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    1 => Enc::F32(r.f32()),
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::Str(r.latin()),
    5 => Enc::Str(r.latin()),
    6 => Enc::Wide(r.wide()),
    7 => Enc::Str(r.latin()),
    9 => Enc::Str(r.latin()),
    10 => Enc::Color(g_color(r).to_win_color()),
    12 => Enc::Bool(r.bool()),
    13 => Enc::Bool(r.bool()),
    14 => Enc::Bytes(font_bytes(g_font_parts(r))),
    15 => Enc::Bool(r.bool()),
    16 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    17 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    18 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    19 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_gate(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::F32(r.f32()),
    5 => Enc::Str(r.latin()),
    6 => Enc::Bool(r.bool()),
    7 => Enc::Bool(r.bool()),
    8 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    9 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    10 => Enc::Str(r.latin()),
    11 => Enc::F32(r.f32()),
    12 => Enc::F32(r.f32()),
    13 => Enc::F32(r.f32()),
    14 => Enc::F32(r.f32()),
    15 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    16 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    17 => Enc::Bool(r.bool()),
    18 => Enc::Bool(r.bool()),
    19 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    22 => Enc::Bool(r.bool()),
    23 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    24 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    25 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    26 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_spinner(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::F32(r.f32()),
    5 => Enc::F32(r.f32()),
    6 => Enc::F32(r.f32()),
    7 => Enc::F32(r.f32()),
    8 => Enc::F32(r.f32()),
    9 => Enc::Bool(r.bool()),
    10 => Enc::Bool(r.bool()),
    11 => Enc::Str(r.latin()),
    12 => Enc::Str(r.latin()),
    13 => Enc::Str(r.latin()),
    14 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    16 => Enc::Bool(r.bool()),
    17 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    18 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    19 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    20 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_ramp(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::F32(r.f32()),
    1 => Enc::F32(r.f32()),
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::Str(r.latin()),
    6 => Enc::Wide(r.wide()),
    7 => Enc::Str(r.latin()),
    9 => Enc::Bool(r.bool()),
    10 => Enc::F32(r.f32()),
    11 => Enc::F32(r.f32()),
    12 => Enc::F32(r.f32()),
    13 => Enc::F32(r.f32()),
    14 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    15 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    16 => Enc::F32(r.f32()),
    17 => Enc::F32(r.f32()),
    18 => Enc::F32(r.f32()),
    19 => Enc::Bool(r.bool()),
    20 => Enc::Bool(r.bool()),
    21 => Enc::F32(r.f32()),
    22 => Enc::F32(r.f32()),
    23 => Enc::F32(r.f32()),
    24 => Enc::F32(r.f32()),
    25 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    26 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    27 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    30 => Enc::Bool(r.bool()),
    31 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    32 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    33 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    34 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_reel(i: usize, r: &mut R) -> Enc { match i {
    0 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    1 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    2 => Enc::Color(g_color(r).to_win_color()),
    3 => Enc::Bool(r.bool()),
    4 => Enc::Str(r.latin()),
    5 => Enc::Str(r.latin()),
    6 => Enc::Wide(r.wide()),
    7 => Enc::F32(r.f32()),
    8 => Enc::F32(r.f32()),
    9 => Enc::F32(r.f32()),
    10 => Enc::F32(r.f32()),
    11 => Enc::F32(r.f32()),
    12 => Enc::F32(r.f32()),
    13 => Enc::U32(r.u32()),
    14 => Enc::Bool(r.bool()),
    15 => Enc::Bool(r.bool()),
    16 => Enc::U32(r.u32()),
    18 => Enc::Bool(r.bool()),
    19 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    20 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    21 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    22 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_lightsequencer(i: usize, r: &mut R) -> Enc { match i {
    0 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    1 => Enc::Wide(r.wide()),
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::U32(r.u32()),
    5 => Enc::Wide(r.wide()),
    6 => Enc::Bool(r.bool()),
    8 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    9 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    10 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    11 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    12 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_primitive(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex3d(r); Enc::F32s(vec![v.x, v.y, v.z]) },
    2 => { let v = g_vertex3d(r); Enc::F32s(vec![v.x, v.y, v.z]) },
    4 => Enc::Str(r.latin()),
    5 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    6 => Enc::U32(r.u32()),
    7 => Enc::Str(r.latin()),
    8 => Enc::Color(g_color(r).to_win_color()),
    9 => Enc::Bool(r.bool()),
    10 => Enc::Bool(r.bool()),
    11 => Enc::Bool(r.bool()),
    12 => Enc::F32(r.f32()),
    13 => Enc::F32(r.f32()),
    14 => Enc::F32(r.f32()),
    15 => Enc::F32(r.f32()),
    16 => Enc::F32(r.f32()),
    17 => Enc::F32(r.f32()),
    18 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    19 => Enc::Bool(r.bool()),
    20 => Enc::Bool(r.bool()),
    21 => Enc::Bool(r.bool()),
    22 => Enc::Bool(r.bool()),
    23 => match r.opt(|r| Enc::Q8(r.q8())) { Some(e) => e, None => Enc::Absent },
    24 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    25 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    26 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    27 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    28 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    29 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    30 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    31 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    32 => match r.opt(|r| { let v = g_vertex3d(r); Enc::F32s(vec![v.x, v.y, v.z]) }) { Some(e) => e, None => Enc::Absent },
    33 => match r.opt(|r| { let v = g_vertex3d(r); Enc::F32s(vec![v.x, v.y, v.z]) }) { Some(e) => e, None => Enc::Absent },
    34 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    35 => Enc::F32(r.f32()),
    36 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    37 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    38 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    39 => match r.opt(|r| Enc::Color(g_color(r).to_win_color())) { Some(e) => e, None => Enc::Absent },
    40 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    41 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    42 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    43 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    44 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    45 => Enc::Bool(r.bool()),
    46 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    47 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    48 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    49 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_flasher(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::F32(r.f32()),
    1 => Enc::F32(r.f32()),
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::F32(r.f32()),
    5 => Enc::F32(r.f32()),
    6 => Enc::Color(g_color(r).to_win_color()),
    7 => Enc::Wide(r.wide()),
    8 => Enc::Str(r.latin()),
    9 => Enc::Str(r.latin()),
    10 => Enc::U32(r.i32() as u32),
    11 => Enc::F32(r.f32()),
    12 => Enc::Bool(r.bool()),
    13 => Enc::Bool(r.bool()),
    14 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    16 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    17 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    18 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    19 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    20 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    21 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    22 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    23 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    24 => Enc::Bool(r.bool()),
    25 => Enc::F32(r.f32()),
    28 => Enc::U32(r.u32()),
    29 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    30 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    33 => Enc::Bool(r.bool()),
    34 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    35 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    36 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    37 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_rubber(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::F32(r.f32()),
    1 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    2 => Enc::U32(r.i32() as u32),
    3 => Enc::Bool(r.bool()),
    4 => Enc::Str(r.latin()),
    5 => Enc::Wide(r.wide()),
    6 => Enc::Str(r.latin()),
    7 => Enc::F32(r.f32()),
    8 => Enc::F32(r.f32()),
    9 => Enc::F32(r.f32()),
    10 => Enc::F32(r.f32()),
    11 => Enc::Bool(r.bool()),
    12 => Enc::Bool(r.bool()),
    13 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    14 => Enc::Bool(r.bool()),
    15 => Enc::Bool(r.bool()),
    16 => Enc::F32(r.f32()),
    17 => Enc::F32(r.f32()),
    18 => Enc::F32(r.f32()),
    19 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    20 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    21 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    23 => Enc::Bool(r.bool()),
    24 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    25 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    26 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    27 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_hittarget(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex3d(r); Enc::F32s(vec![v.x, v.y, v.z]) },
    2 => { let v = g_vertex3d(r); Enc::F32s(vec![v.x, v.y, v.z]) },
    3 => Enc::F32(r.f32()),
    4 => Enc::Str(r.latin()),
    6 => Enc::Str(r.latin()),
    7 => Enc::Bool(r.bool()),
    8 => Enc::Bool(r.bool()),
    9 => Enc::Bool(r.bool()),
    10 => Enc::F32(r.f32()),
    11 => Enc::F32(r.f32()),
    12 => Enc::F32(r.f32()),
    13 => Enc::F32(r.f32()),
    14 => Enc::F32(r.f32()),
    15 => Enc::Bool(r.bool()),
    16 => match r.opt(|r| Enc::Q8(r.q8())) { Some(e) => e, None => Enc::Absent },
    17 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    18 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    19 => Enc::F32(r.f32()),
    20 => Enc::Bool(r.bool()),
    21 => Enc::Bool(r.bool()),
    22 => Enc::F32(r.f32()),
    23 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    24 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    25 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    27 => Enc::Bool(r.bool()),
    28 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    29 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    30 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    31 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_ball(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex3d(r); Enc::F32s(vec![v.x, v.y, v.z]) },
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::Bool(r.bool()),
    5 => Enc::Bool(r.bool()),
    6 => Enc::Str(r.latin()),
    7 => Enc::Str(r.latin()),
    8 => Enc::F32(r.f32()),
    9 => Enc::F32(r.f32()),
    10 => Enc::Color(g_color(r).to_win_color()),
    11 => Enc::Bool(r.bool()),
    12 => Enc::Bool(r.bool()),
    14 => Enc::Bool(r.bool()),
    15 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    16 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    17 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    18 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_partgroup(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => { let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) },
    3 => Enc::Bool(r.bool()),
    4 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    6 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    7 => Enc::Bool(r.bool()),
    8 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    9 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_gamedata(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    1 => Enc::F32(r.f32()),
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::F32(r.f32()),
    5 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    7 => Enc::F32(r.f32()),
    8 => Enc::F32(r.f32()),
    9 => Enc::F32(r.f32()),
    10 => Enc::F32(r.f32()),
    11 => Enc::F32(r.f32()),
    12 => Enc::F32(r.f32()),
    13 => Enc::F32(r.f32()),
    14 => Enc::F32(r.f32()),
    15 => Enc::F32(r.f32()),
    16 => Enc::F32(r.f32()),
    17 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    18 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    19 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    20 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    21 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    22 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    23 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    24 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    25 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    27 => Enc::F32(r.f32()),
    28 => Enc::F32(r.f32()),
    29 => Enc::F32(r.f32()),
    30 => Enc::F32(r.f32()),
    31 => Enc::F32(r.f32()),
    32 => Enc::F32(r.f32()),
    33 => Enc::F32(r.f32()),
    34 => Enc::F32(r.f32()),
    35 => Enc::F32(r.f32()),
    36 => Enc::F32(r.f32()),
    37 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    38 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    39 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    40 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    41 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    42 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    43 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    44 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    46 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    47 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    48 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    49 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    50 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    51 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    52 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    53 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    54 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    55 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    56 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    57 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    58 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    59 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    60 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    61 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    62 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    63 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    64 => Enc::U32(r.u32()),
    65 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    66 => Enc::F32(r.f32()),
    67 => Enc::F32(r.f32()),
    68 => Enc::F32(r.f32()),
    69 => Enc::F32(r.f32()),
    70 => Enc::F32(r.f32()),
    71 => Enc::F32(r.f32()),
    72 => Enc::F32(r.f32()),
    73 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    74 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    75 => Enc::U32(r.u32()),
    76 => Enc::Bool(r.bool()),
    77 => Enc::Bool(r.bool()),
    78 => Enc::F32(r.f32()),
    79 => Enc::F32(r.f32()),
    80 => Enc::F32(r.f32()),
    81 => Enc::F32(r.f32()),
    82 => Enc::F32(r.f32()),
    83 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    84 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    85 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    86 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    87 => Enc::Str(r.latin()),
    88 => Enc::Str(r.latin()),
    89 => Enc::Str(r.latin()),
    90 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    91 => Enc::Bool(r.bool()),
    92 => Enc::Str(r.latin()),
    93 => Enc::Str(r.latin()),
    94 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    95 => Enc::Str(r.latin()),
    96 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    97 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    98 => Enc::Str(r.latin()),
    99 => Enc::Bool(r.bool()),
    100 => Enc::F32(r.f32()),
    101 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    102 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    103 => Enc::Str(r.latin()),
    104 => Enc::Color(g_color(r).to_win_color()),
    105 => Enc::F32(r.f32()),
    106 => Enc::Color(g_color(r).to_win_color()),
    107 => Enc::Color(g_color(r).to_win_color()),
    108 => Enc::F32(r.f32()),
    109 => Enc::F32(r.f32()),
    110 => Enc::F32(r.f32()),
    111 => Enc::F32(r.f32()),
    112 => Enc::F32(r.f32()),
    113 => Enc::F32(r.f32()),
    114 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    115 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    116 => Enc::F32(r.f32()),
    117 => Enc::F32(r.f32()),
    118 => match r.opt(|r| Enc::U32(r.i32() as u32)) { Some(e) => e, None => Enc::Absent },
    119 => match r.opt(|r| Enc::U32(r.i32() as u32)) { Some(e) => e, None => Enc::Absent },
    120 => match r.opt(|r| Enc::U32(r.i32() as u32)) { Some(e) => e, None => Enc::Absent },
    121 => Enc::Q8(r.q8()),
    122 => match r.opt(|r| Enc::U32(r.i32() as u32)) { Some(e) => e, None => Enc::Absent },
    123 => Enc::Bool(r.bool()),
    124 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    125 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    126 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    127 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    128 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    129 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    130 => Enc::Bool(r.bool()),
    131 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    132 => match r.opt(|r| Enc::U32(r.i32() as u32)) { Some(e) => e, None => Enc::Absent },
    133 => match r.opt(|r| Enc::U32(r.i32() as u32)) { Some(e) => e, None => Enc::Absent },
    134 => match r.opt(|r| Enc::U32(r.i32() as u32)) { Some(e) => e, None => Enc::Absent },
    135 => match r.opt(|r| Enc::U32(r.i32() as u32)) { Some(e) => e, None => Enc::Absent },
    137 => Enc::F32(r.f32()),
    139 => match r.opt(|r| Enc::Bytes(r.blob())) { Some(e) => e, None => Enc::Absent },
    140 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    141 => match r.opt(|r| Enc::F32(r.f32())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_collection(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Wide(r.wide()),
    2 => Enc::Bool(r.bool()),
    3 => Enc::Bool(r.bool()),
    4 => Enc::Bool(r.bool()),
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_material(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::Str(r.latin()),
    2 => Enc::F32(r.f32()),
    3 => Enc::F32(r.f32()),
    4 => Enc::F32(r.f32()),
    5 => Enc::F32(r.f32()),
    6 => Enc::F32(r.f32()),
    7 => Enc::F32(r.f32()),
    8 => Enc::F32(r.f32()),
    9 => Enc::Color(g_color(r).to_win_color()),
    10 => Enc::Color(g_color(r).to_win_color()),
    11 => Enc::Color(g_color(r).to_win_color()),
    12 => Enc::Bool(r.bool()),
    13 => Enc::F32(r.f32()),
    14 => Enc::F32(r.f32()),
    15 => Enc::F32(r.f32()),
    16 => Enc::F32(r.f32()),
    _ => Enc::Other,
} }
/// the value the setter of field i draws from r, as an encoding expectation
pub fn enc_dragpoint(i: usize, r: &mut R) -> Enc { match i {
    0 => Enc::F32(r.f32()),
    1 => Enc::F32(r.f32()),
    2 => Enc::F32(r.f32()),
    3 => Enc::Bool(r.bool()),
    4 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    5 => Enc::Bool(r.bool()),
    6 => Enc::F32(r.f32()),
    7 => Enc::Bool(r.bool()),
    8 => match r.opt(|r| Enc::U32(r.u32())) { Some(e) => e, None => Enc::Absent },
    9 => match r.opt(|r| Enc::Str(r.latin())) { Some(e) => e, None => Enc::Absent },
    10 => match r.opt(|r| Enc::Bool(r.bool())) { Some(e) => e, None => Enc::Absent },
    _ => Enc::Other,
} }
pub fn dbg_wall(x: &Wall, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.hit_event),
    2 => format!("{:?}", x.is_droppable),
    3 => format!("{:?}", x.is_flipbook),
    4 => format!("{:?}", x.is_bottom_solid),
    5 => format!("{:?}", x.is_collidable),
    6 => format!("{:?}", x.threshold),
    7 => format!("{:?}", x.image),
    8 => format!("{:?}", x.side_image),
    9 => format!("{:?}", x.side_material),
    10 => format!("{:?}", x.top_material),
    11 => format!("{:?}", x.slingshot_material),
    12 => format!("{:?}", x.height_bottom),
    13 => format!("{:?}", x.height_top),
    14 => format!("{:?}", x.display_texture),
    15 => format!("{:?}", x.slingshot_force),
    16 => format!("{:?}", x.slingshot_threshold),
    17 => format!("{:?}", x.elasticity),
    18 => format!("{:?}", x.elasticity_falloff),
    19 => format!("{:?}", x.friction),
    20 => format!("{:?}", x.scatter),
    21 => format!("{:?}", x.is_top_bottom_visible),
    22 => format!("{:?}", x.slingshot_animation),
    23 => format!("{:?}", x.is_side_visible),
    24 => format!("{:?}", x.disable_lighting_top_old),
    25 => format!("{:?}", x.disable_lighting_top),
    26 => format!("{:?}", x.disable_lighting_below),
    27 => format!("{:?}", x.is_reflection_enabled),
    28 => format!("{:?}", x.physics_material),
    29 => format!("{:?}", x.overwrite_physics),
    30 => format!("{:?}", x.timer),
    31 => format!("{:?}", x.is_locked),
    32 => format!("{:?}", x.editor_layer),
    33 => format!("{:?}", x.editor_layer_name),
    34 => format!("{:?}", x.editor_layer_visibility),
    35 => format!("{:?}", x.part_group_name),
    36 => format!("{:?}", x.drag_points),
    _ => String::new(),
} }
pub fn dbg_flipper(x: &Flipper, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.center),
    2 => format!("{:?}", x.base_radius),
    3 => format!("{:?}", x.end_radius),
    4 => format!("{:?}", x.flipper_radius_max),
    5 => format!("{:?}", x.return_),
    6 => format!("{:?}", x.start_angle),
    7 => format!("{:?}", x.end_angle),
    8 => format!("{:?}", x.override_physics),
    9 => format!("{:?}", x.mass),
    10 => format!("{:?}", x.surface),
    11 => format!("{:?}", x.material),
    12 => format!("{:?}", x.rubber_material),
    13 => format!("{:?}", x.rubber_thickness_int),
    14 => format!("{:?}", x.rubber_thickness),
    15 => format!("{:?}", x.rubber_height_int),
    16 => format!("{:?}", x.rubber_height),
    17 => format!("{:?}", x.rubber_width_int),
    18 => format!("{:?}", x.rubber_width),
    19 => format!("{:?}", x.strength),
    20 => format!("{:?}", x.elasticity),
    21 => format!("{:?}", x.elasticity_falloff),
    22 => format!("{:?}", x.friction),
    23 => format!("{:?}", x.ramp_up),
    24 => format!("{:?}", x.scatter),
    25 => format!("{:?}", x.torque_damping),
    26 => format!("{:?}", x.torque_damping_angle),
    27 => format!("{:?}", x.flipper_radius_min),
    28 => format!("{:?}", x.is_visible),
    29 => format!("{:?}", x.is_enabled),
    30 => format!("{:?}", x.height),
    31 => format!("{:?}", x.image),
    32 => format!("{:?}", x.is_reflection_enabled),
    33 => format!("{:?}", x.timer),
    34 => format!("{:?}", x.is_locked),
    35 => format!("{:?}", x.editor_layer),
    36 => format!("{:?}", x.editor_layer_name),
    37 => format!("{:?}", x.editor_layer_visibility),
    38 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_timer(x: &Timer, i: usize) -> String { match i {
    0 => format!("{:?}", x.center),
    1 => format!("{:?}", x.name),
    2 => format!("{:?}", x.backglass),
    3 => format!("{:?}", x.timer),
    4 => format!("{:?}", x.is_locked),
    5 => format!("{:?}", x.editor_layer),
    6 => format!("{:?}", x.editor_layer_name),
    7 => format!("{:?}", x.editor_layer_visibility),
    8 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_plunger(x: &Plunger, i: usize) -> String { match i {
    0 => format!("{:?}", x.center),
    1 => format!("{:?}", x.width),
    2 => format!("{:?}", x.height),
    3 => format!("{:?}", x.z_adjust),
    4 => format!("{:?}", x.stroke),
    5 => format!("{:?}", x.speed_pull),
    6 => format!("{:?}", x.speed_fire),
    7 => format!("{:?}", x.plunger_type),
    8 => format!("{:?}", x.anim_frames),
    9 => format!("{:?}", x.material),
    10 => format!("{:?}", x.image),
    11 => format!("{:?}", x.mech_strength),
    12 => format!("{:?}", x.is_mech_plunger),
    13 => format!("{:?}", x.auto_plunger),
    14 => format!("{:?}", x.park_position),
    15 => format!("{:?}", x.scatter_velocity),
    16 => format!("{:?}", x.momentum_xfer),
    17 => format!("{:?}", x.is_visible),
    18 => format!("{:?}", x.is_reflection_enabled),
    19 => format!("{:?}", x.surface),
    20 => format!("{:?}", x.name),
    21 => format!("{:?}", x.tip_shape),
    22 => format!("{:?}", x.rod_diam),
    23 => format!("{:?}", x.ring_gap),
    24 => format!("{:?}", x.ring_diam),
    25 => format!("{:?}", x.ring_width),
    26 => format!("{:?}", x.spring_diam),
    27 => format!("{:?}", x.spring_gauge),
    28 => format!("{:?}", x.spring_loops),
    29 => format!("{:?}", x.spring_end_loops),
    30 => format!("{:?}", x.timer),
    31 => format!("{:?}", x.is_locked),
    32 => format!("{:?}", x.editor_layer),
    33 => format!("{:?}", x.editor_layer_name),
    34 => format!("{:?}", x.editor_layer_visibility),
    35 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_textbox(x: &TextBox, i: usize) -> String { match i {
    0 => format!("{:?}", x.ver1),
    1 => format!("{:?}", x.ver2),
    2 => format!("{:?}", x.back_color),
    3 => format!("{:?}", x.font_color),
    4 => format!("{:?}", x.intensity_scale),
    5 => format!("{:?}", x.text),
    6 => format!("{:?}", x.name),
    7 => format!("{:?}", x.align),
    8 => format!("{:?}", x.is_transparent),
    9 => format!("{:?}", x.is_dmd),
    10 => format!("{:?}", x.font),
    11 => format!("{:?}", x.timer),
    12 => format!("{:?}", x.is_locked),
    13 => format!("{:?}", x.editor_layer),
    14 => format!("{:?}", x.editor_layer_name),
    15 => format!("{:?}", x.editor_layer_visibility),
    16 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_bumper(x: &Bumper, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.center),
    2 => format!("{:?}", x.radius),
    3 => format!("{:?}", x.threshold),
    4 => format!("{:?}", x.force),
    5 => format!("{:?}", x.scatter),
    6 => format!("{:?}", x.height_scale),
    7 => format!("{:?}", x.ring_speed),
    8 => format!("{:?}", x.orientation),
    9 => format!("{:?}", x.ring_drop_offset),
    10 => format!("{:?}", x.cap_material),
    11 => format!("{:?}", x.base_material),
    12 => format!("{:?}", x.socket_material),
    13 => format!("{:?}", x.ring_material),
    14 => format!("{:?}", x.surface),
    15 => format!("{:?}", x.is_cap_visible),
    16 => format!("{:?}", x.is_base_visible),
    17 => format!("{:?}", x.is_ring_visible),
    18 => format!("{:?}", x.is_socket_visible),
    19 => format!("{:?}", x.hit_event),
    20 => format!("{:?}", x.is_collidable),
    21 => format!("{:?}", x.is_reflection_enabled),
    22 => format!("{:?}", x.timer),
    23 => format!("{:?}", x.is_locked),
    24 => format!("{:?}", x.editor_layer),
    25 => format!("{:?}", x.editor_layer_name),
    26 => format!("{:?}", x.editor_layer_visibility),
    27 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_trigger(x: &Trigger, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.center),
    2 => format!("{:?}", x.radius),
    3 => format!("{:?}", x.rotation),
    4 => format!("{:?}", x.wire_thickness),
    5 => format!("{:?}", x.scale_x),
    6 => format!("{:?}", x.scale_y),
    7 => format!("{:?}", x.material),
    8 => format!("{:?}", x.surface),
    9 => format!("{:?}", x.is_visible),
    10 => format!("{:?}", x.is_enabled),
    11 => format!("{:?}", x.hit_height),
    12 => format!("{:?}", x.shape),
    13 => format!("{:?}", x.anim_speed),
    14 => format!("{:?}", x.is_reflection_enabled),
    15 => format!("{:?}", x.timer),
    16 => format!("{:?}", x.is_locked),
    17 => format!("{:?}", x.editor_layer),
    18 => format!("{:?}", x.editor_layer_name),
    19 => format!("{:?}", x.editor_layer_visibility),
    20 => format!("{:?}", x.part_group_name),
    21 => format!("{:?}", x.drag_points),
    _ => String::new(),
} }
pub fn dbg_light(x: &Light, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.center),
    2 => format!("{:?}", x.height),
    3 => format!("{:?}", x.falloff_radius),
    4 => format!("{:?}", x.falloff_power),
    5 => format!("{:?}", x.state_u32),
    6 => format!("{:?}", x.state),
    7 => format!("{:?}", x.color),
    8 => format!("{:?}", x.color2),
    9 => format!("{:?}", x.blink_pattern),
    10 => format!("{:?}", x.image),
    11 => format!("{:?}", x.blink_interval),
    12 => format!("{:?}", x.intensity),
    13 => format!("{:?}", x.transmission_scale),
    14 => format!("{:?}", x.surface),
    15 => format!("{:?}", x.is_backglass),
    16 => format!("{:?}", x.depth_bias),
    17 => format!("{:?}", x.fade_speed_up),
    18 => format!("{:?}", x.fade_speed_down),
    19 => format!("{:?}", x.is_bulb_light),
    20 => format!("{:?}", x.is_image_mode),
    21 => format!("{:?}", x.show_bulb_mesh),
    22 => format!("{:?}", x.has_static_bulb_mesh),
    23 => format!("{:?}", x.show_reflection_on_ball),
    24 => format!("{:?}", x.mesh_radius),
    25 => format!("{:?}", x.bulb_modulate_vs_add),
    26 => format!("{:?}", x.bulb_halo_height),
    27 => format!("{:?}", x.shadows),
    28 => format!("{:?}", x.fader),
    29 => format!("{:?}", x.visible),
    30 => format!("{:?}", x.timer),
    31 => format!("{:?}", x.is_locked),
    32 => format!("{:?}", x.editor_layer),
    33 => format!("{:?}", x.editor_layer_name),
    34 => format!("{:?}", x.editor_layer_visibility),
    35 => format!("{:?}", x.part_group_name),
    36 => format!("{:?}", x.drag_points),
    _ => String::new(),
} }
pub fn dbg_kicker(x: &Kicker, i: usize) -> String { match i {
    0 => format!("{:?}", x.center),
    1 => format!("{:?}", x.radius),
    2 => format!("{:?}", x.material),
    3 => format!("{:?}", x.surface),
    4 => format!("{:?}", x.is_enabled),
    5 => format!("{:?}", x.name),
    6 => format!("{:?}", x.kicker_type),
    7 => format!("{:?}", x.scatter),
    8 => format!("{:?}", x.hit_accuracy),
    9 => format!("{:?}", x.hit_height),
    10 => format!("{:?}", x.orientation),
    11 => format!("{:?}", x.fall_through),
    12 => format!("{:?}", x.legacy_mode),
    13 => format!("{:?}", x.timer),
    14 => format!("{:?}", x.is_locked),
    15 => format!("{:?}", x.editor_layer),
    16 => format!("{:?}", x.editor_layer_name),
    17 => format!("{:?}", x.editor_layer_visibility),
    18 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_decal(x: &Decal, i: usize) -> String { match i {
    0 => format!("{:?}", x.center),
    1 => format!("{:?}", x.width),
    2 => format!("{:?}", x.height),
    3 => format!("{:?}", x.rotation),
    4 => format!("{:?}", x.image),
    5 => format!("{:?}", x.surface),
    6 => format!("{:?}", x.name),
    7 => format!("{:?}", x.text),
    8 => format!("{:?}", x.decal_type),
    9 => format!("{:?}", x.material),
    10 => format!("{:?}", x.color),
    11 => format!("{:?}", x.sizing_type),
    12 => format!("{:?}", x.vertical_text),
    13 => format!("{:?}", x.backglass),
    14 => format!("{:?}", x.font),
    15 => format!("{:?}", x.is_locked),
    16 => format!("{:?}", x.editor_layer),
    17 => format!("{:?}", x.editor_layer_name),
    18 => format!("{:?}", x.editor_layer_visibility),
    19 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_gate(x: &Gate, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.center),
    2 => format!("{:?}", x.length),
    3 => format!("{:?}", x.height),
    4 => format!("{:?}", x.rotation),
    5 => format!("{:?}", x.material),
    6 => format!("{:?}", x.show_bracket),
    7 => format!("{:?}", x.is_collidable),
    8 => format!("{:?}", x.imgf),
    9 => format!("{:?}", x.imgb),
    10 => format!("{:?}", x.surface),
    11 => format!("{:?}", x.elasticity),
    12 => format!("{:?}", x.angle_max),
    13 => format!("{:?}", x.angle_min),
    14 => format!("{:?}", x.friction),
    15 => format!("{:?}", x.damping),
    16 => format!("{:?}", x.gravity_factor),
    17 => format!("{:?}", x.is_visible),
    18 => format!("{:?}", x.two_way),
    19 => format!("{:?}", x.is_reflection_enabled),
    20 => format!("{:?}", x.gate_type),
    21 => format!("{:?}", x.timer),
    22 => format!("{:?}", x.is_locked),
    23 => format!("{:?}", x.editor_layer),
    24 => format!("{:?}", x.editor_layer_name),
    25 => format!("{:?}", x.editor_layer_visibility),
    26 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_spinner(x: &Spinner, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.center),
    2 => format!("{:?}", x.rotation),
    3 => format!("{:?}", x.height),
    4 => format!("{:?}", x.length),
    5 => format!("{:?}", x.damping),
    6 => format!("{:?}", x.angle_max),
    7 => format!("{:?}", x.angle_min),
    8 => format!("{:?}", x.elasticity),
    9 => format!("{:?}", x.is_visible),
    10 => format!("{:?}", x.show_bracket),
    11 => format!("{:?}", x.material),
    12 => format!("{:?}", x.image),
    13 => format!("{:?}", x.surface),
    14 => format!("{:?}", x.is_reflection_enabled),
    15 => format!("{:?}", x.timer),
    16 => format!("{:?}", x.is_locked),
    17 => format!("{:?}", x.editor_layer),
    18 => format!("{:?}", x.editor_layer_name),
    19 => format!("{:?}", x.editor_layer_visibility),
    20 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_ramp(x: &Ramp, i: usize) -> String { match i {
    0 => format!("{:?}", x.height_bottom),
    1 => format!("{:?}", x.height_top),
    2 => format!("{:?}", x.width_bottom),
    3 => format!("{:?}", x.width_top),
    4 => format!("{:?}", x.material),
    5 => format!("{:?}", x.ramp_type),
    6 => format!("{:?}", x.name),
    7 => format!("{:?}", x.image),
    8 => format!("{:?}", x.image_alignment),
    9 => format!("{:?}", x.image_walls),
    10 => format!("{:?}", x.left_wall_height),
    11 => format!("{:?}", x.right_wall_height),
    12 => format!("{:?}", x.left_wall_height_visible),
    13 => format!("{:?}", x.right_wall_height_visible),
    14 => format!("{:?}", x.hit_event),
    15 => format!("{:?}", x.threshold),
    16 => format!("{:?}", x.elasticity),
    17 => format!("{:?}", x.friction),
    18 => format!("{:?}", x.scatter),
    19 => format!("{:?}", x.is_collidable),
    20 => format!("{:?}", x.is_visible),
    21 => format!("{:?}", x.depth_bias),
    22 => format!("{:?}", x.wire_diameter),
    23 => format!("{:?}", x.wire_distance_x),
    24 => format!("{:?}", x.wire_distance_y),
    25 => format!("{:?}", x.is_reflection_enabled),
    26 => format!("{:?}", x.physics_material),
    27 => format!("{:?}", x.overwrite_physics),
    28 => format!("{:?}", x.drag_points),
    29 => format!("{:?}", x.timer),
    30 => format!("{:?}", x.is_locked),
    31 => format!("{:?}", x.editor_layer),
    32 => format!("{:?}", x.editor_layer_name),
    33 => format!("{:?}", x.editor_layer_visibility),
    34 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_reel(x: &Reel, i: usize) -> String { match i {
    0 => format!("{:?}", x.ver1),
    1 => format!("{:?}", x.ver2),
    2 => format!("{:?}", x.back_color),
    3 => format!("{:?}", x.is_transparent),
    4 => format!("{:?}", x.image),
    5 => format!("{:?}", x.sound),
    6 => format!("{:?}", x.name),
    7 => format!("{:?}", x.width),
    8 => format!("{:?}", x.height),
    9 => format!("{:?}", x.reel_count),
    10 => format!("{:?}", x.reel_spacing),
    11 => format!("{:?}", x.motor_steps),
    12 => format!("{:?}", x.digit_range),
    13 => format!("{:?}", x.update_interval),
    14 => format!("{:?}", x.use_image_grid),
    15 => format!("{:?}", x.is_visible),
    16 => format!("{:?}", x.images_per_grid_row),
    17 => format!("{:?}", x.timer),
    18 => format!("{:?}", x.is_locked),
    19 => format!("{:?}", x.editor_layer),
    20 => format!("{:?}", x.editor_layer_name),
    21 => format!("{:?}", x.editor_layer_visibility),
    22 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_lightsequencer(x: &LightSequencer, i: usize) -> String { match i {
    0 => format!("{:?}", x.center),
    1 => format!("{:?}", x.collection),
    2 => format!("{:?}", x.pos_x),
    3 => format!("{:?}", x.pos_y),
    4 => format!("{:?}", x.update_interval),
    5 => format!("{:?}", x.name),
    6 => format!("{:?}", x.backglass),
    7 => format!("{:?}", x.timer),
    8 => format!("{:?}", x.is_locked),
    9 => format!("{:?}", x.editor_layer),
    10 => format!("{:?}", x.editor_layer_name),
    11 => format!("{:?}", x.editor_layer_visibility),
    12 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_primitive(x: &Primitive, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.position),
    2 => format!("{:?}", x.size),
    3 => format!("{:?}", x.rot_and_tra),
    4 => format!("{:?}", x.image),
    5 => format!("{:?}", x.normal_map),
    6 => format!("{:?}", x.sides),
    7 => format!("{:?}", x.material),
    8 => format!("{:?}", x.side_color),
    9 => format!("{:?}", x.is_visible),
    10 => format!("{:?}", x.draw_textures_inside),
    11 => format!("{:?}", x.hit_event),
    12 => format!("{:?}", x.threshold),
    13 => format!("{:?}", x.elasticity),
    14 => format!("{:?}", x.elasticity_falloff),
    15 => format!("{:?}", x.friction),
    16 => format!("{:?}", x.scatter),
    17 => format!("{:?}", x.edge_factor_ui),
    18 => format!("{:?}", x.collision_reduction_factor),
    19 => format!("{:?}", x.is_collidable),
    20 => format!("{:?}", x.is_toy),
    21 => format!("{:?}", x.use_3d_mesh),
    22 => format!("{:?}", x.static_rendering),
    23 => format!("{:?}", x.disable_lighting_top_old),
    24 => format!("{:?}", x.disable_lighting_top),
    25 => format!("{:?}", x.disable_lighting_below),
    26 => format!("{:?}", x.is_reflection_enabled),
    27 => format!("{:?}", x.backfaces_enabled),
    28 => format!("{:?}", x.physics_material),
    29 => format!("{:?}", x.overwrite_physics),
    30 => format!("{:?}", x.display_texture),
    31 => format!("{:?}", x.object_space_normal_map),
    32 => format!("{:?}", x.min_aa_bound),
    33 => format!("{:?}", x.max_aa_bound),
    34 => format!("{:?}", x.mesh_file_name),
    35 => format!("{:?}", x.depth_bias),
    36 => format!("{:?}", x.add_blend),
    37 => format!("{:?}", x.use_depth_mask),
    38 => format!("{:?}", x.alpha),
    39 => format!("{:?}", x.color),
    40 => format!("{:?}", x.light_map),
    41 => format!("{:?}", x.reflection_probe),
    42 => format!("{:?}", x.reflection_strength),
    43 => format!("{:?}", x.refraction_probe),
    44 => format!("{:?}", x.refraction_thickness),
    45 => format!("{:?}", x.is_locked),
    46 => format!("{:?}", x.editor_layer),
    47 => format!("{:?}", x.editor_layer_name),
    48 => format!("{:?}", x.editor_layer_visibility),
    49 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_flasher(x: &Flasher, i: usize) -> String { match i {
    0 => format!("{:?}", x.height),
    1 => format!("{:?}", x.pos_x),
    2 => format!("{:?}", x.pos_y),
    3 => format!("{:?}", x.rot_x),
    4 => format!("{:?}", x.rot_y),
    5 => format!("{:?}", x.rot_z),
    6 => format!("{:?}", x.color),
    7 => format!("{:?}", x.name),
    8 => format!("{:?}", x.image_a),
    9 => format!("{:?}", x.image_b),
    10 => format!("{:?}", x.alpha),
    11 => format!("{:?}", x.modulate_vs_add),
    12 => format!("{:?}", x.is_visible),
    13 => format!("{:?}", x.add_blend),
    14 => format!("{:?}", x.is_dmd),
    15 => format!("{:?}", x.render_mode),
    16 => format!("{:?}", x.render_style),
    17 => format!("{:?}", x.glass_roughness),
    18 => format!("{:?}", x.glass_ambient),
    19 => format!("{:?}", x.glass_pad_top),
    20 => format!("{:?}", x.glass_pad_bottom),
    21 => format!("{:?}", x.glass_pad_left),
    22 => format!("{:?}", x.glass_pad_right),
    23 => format!("{:?}", x.image_src_link),
    24 => format!("{:?}", x.display_texture),
    25 => format!("{:?}", x.depth_bias),
    26 => format!("{:?}", x.image_alignment),
    27 => format!("{:?}", x.filter),
    28 => format!("{:?}", x.filter_amount),
    29 => format!("{:?}", x.light_map),
    30 => format!("{:?}", x.backglass),
    31 => format!("{:?}", x.drag_points),
    32 => format!("{:?}", x.timer),
    33 => format!("{:?}", x.is_locked),
    34 => format!("{:?}", x.editor_layer),
    35 => format!("{:?}", x.editor_layer_name),
    36 => format!("{:?}", x.editor_layer_visibility),
    37 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_rubber(x: &Rubber, i: usize) -> String { match i {
    0 => format!("{:?}", x.height),
    1 => format!("{:?}", x.hit_height),
    2 => format!("{:?}", x.thickness),
    3 => format!("{:?}", x.hit_event),
    4 => format!("{:?}", x.material),
    5 => format!("{:?}", x.name),
    6 => format!("{:?}", x.image),
    7 => format!("{:?}", x.elasticity),
    8 => format!("{:?}", x.elasticity_falloff),
    9 => format!("{:?}", x.friction),
    10 => format!("{:?}", x.scatter),
    11 => format!("{:?}", x.is_collidable),
    12 => format!("{:?}", x.is_visible),
    13 => format!("{:?}", x.radb),
    14 => format!("{:?}", x.static_rendering),
    15 => format!("{:?}", x.show_in_editor),
    16 => format!("{:?}", x.rot_x),
    17 => format!("{:?}", x.rot_y),
    18 => format!("{:?}", x.rot_z),
    19 => format!("{:?}", x.is_reflection_enabled),
    20 => format!("{:?}", x.physics_material),
    21 => format!("{:?}", x.overwrite_physics),
    22 => format!("{:?}", x.timer),
    23 => format!("{:?}", x.is_locked),
    24 => format!("{:?}", x.editor_layer),
    25 => format!("{:?}", x.editor_layer_name),
    26 => format!("{:?}", x.editor_layer_visibility),
    27 => format!("{:?}", x.part_group_name),
    28 => format!("{:?}", x.drag_points),
    _ => String::new(),
} }
pub fn dbg_hittarget(x: &HitTarget, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.position),
    2 => format!("{:?}", x.size),
    3 => format!("{:?}", x.rot_z),
    4 => format!("{:?}", x.image),
    5 => format!("{:?}", x.target_type),
    6 => format!("{:?}", x.material),
    7 => format!("{:?}", x.is_visible),
    8 => format!("{:?}", x.is_legacy),
    9 => format!("{:?}", x.use_hit_event),
    10 => format!("{:?}", x.threshold),
    11 => format!("{:?}", x.elasticity),
    12 => format!("{:?}", x.elasticity_falloff),
    13 => format!("{:?}", x.friction),
    14 => format!("{:?}", x.scatter),
    15 => format!("{:?}", x.is_collidable),
    16 => format!("{:?}", x.disable_lighting_top_old),
    17 => format!("{:?}", x.disable_lighting_top),
    18 => format!("{:?}", x.disable_lighting_below),
    19 => format!("{:?}", x.depth_bias),
    20 => format!("{:?}", x.is_reflection_enabled),
    21 => format!("{:?}", x.is_dropped),
    22 => format!("{:?}", x.drop_speed),
    23 => format!("{:?}", x.raise_delay),
    24 => format!("{:?}", x.physics_material),
    25 => format!("{:?}", x.overwrite_physics),
    26 => format!("{:?}", x.timer),
    27 => format!("{:?}", x.is_locked),
    28 => format!("{:?}", x.editor_layer),
    29 => format!("{:?}", x.editor_layer_name),
    30 => format!("{:?}", x.editor_layer_visibility),
    31 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_ball(x: &Ball, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.pos),
    2 => format!("{:?}", x.radius),
    3 => format!("{:?}", x.mass),
    4 => format!("{:?}", x.force_reflection),
    5 => format!("{:?}", x.decal_mode),
    6 => format!("{:?}", x.image),
    7 => format!("{:?}", x.image_decal),
    8 => format!("{:?}", x.bulb_intensity_scale),
    9 => format!("{:?}", x.playfield_reflection_strength),
    10 => format!("{:?}", x.color),
    11 => format!("{:?}", x.spherical_mapping),
    12 => format!("{:?}", x.is_reflection_enabled),
    13 => format!("{:?}", x.timer),
    14 => format!("{:?}", x.is_locked),
    15 => format!("{:?}", x.editor_layer),
    16 => format!("{:?}", x.editor_layer_name),
    17 => format!("{:?}", x.editor_layer_visibility),
    18 => format!("{:?}", x.part_group_name),
    _ => String::new(),
} }
pub fn dbg_partgroup(x: &PartGroup, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.center),
    2 => format!("{:?}", x.timer),
    3 => format!("{:?}", x.backglass),
    4 => format!("{:?}", x.visibility_mask),
    5 => format!("{:?}", x.space_reference),
    6 => format!("{:?}", x.player_mode_visibility_mask),
    7 => format!("{:?}", x.is_locked),
    8 => format!("{:?}", x.editor_layer_name),
    9 => format!("{:?}", x.editor_layer_visibility),
    _ => String::new(),
} }
pub fn dbg_gamedata(x: &GameData, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.left),
    2 => format!("{:?}", x.top),
    3 => format!("{:?}", x.right),
    4 => format!("{:?}", x.bottom),
    5 => format!("{:?}", x.camera_layout_mode),
    6 => format!("{:?}", x.bg_view_mode_desktop),
    7 => format!("{:?}", x.bg_rotation_desktop),
    8 => format!("{:?}", x.bg_inclination_desktop),
    9 => format!("{:?}", x.bg_layback_desktop),
    10 => format!("{:?}", x.bg_fov_desktop),
    11 => format!("{:?}", x.bg_offset_x_desktop),
    12 => format!("{:?}", x.bg_offset_y_desktop),
    13 => format!("{:?}", x.bg_offset_z_desktop),
    14 => format!("{:?}", x.bg_scale_x_desktop),
    15 => format!("{:?}", x.bg_scale_y_desktop),
    16 => format!("{:?}", x.bg_scale_z_desktop),
    17 => format!("{:?}", x.bg_enable_fss),
    18 => format!("{:?}", x.bg_view_horizontal_offset_desktop),
    19 => format!("{:?}", x.bg_view_vertical_offset_desktop),
    20 => format!("{:?}", x.bg_window_top_x_offset_desktop),
    21 => format!("{:?}", x.bg_window_top_y_offset_desktop),
    22 => format!("{:?}", x.bg_window_top_z_offset_desktop),
    23 => format!("{:?}", x.bg_window_bottom_x_offset_desktop),
    24 => format!("{:?}", x.bg_window_bottom_y_offset_desktop),
    25 => format!("{:?}", x.bg_window_bottom_z_offset_desktop),
    26 => format!("{:?}", x.bg_view_mode_fullscreen),
    27 => format!("{:?}", x.bg_rotation_fullscreen),
    28 => format!("{:?}", x.bg_inclination_fullscreen),
    29 => format!("{:?}", x.bg_layback_fullscreen),
    30 => format!("{:?}", x.bg_fov_fullscreen),
    31 => format!("{:?}", x.bg_offset_x_fullscreen),
    32 => format!("{:?}", x.bg_offset_y_fullscreen),
    33 => format!("{:?}", x.bg_offset_z_fullscreen),
    34 => format!("{:?}", x.bg_scale_x_fullscreen),
    35 => format!("{:?}", x.bg_scale_y_fullscreen),
    36 => format!("{:?}", x.bg_scale_z_fullscreen),
    37 => format!("{:?}", x.bg_view_horizontal_offset_fullscreen),
    38 => format!("{:?}", x.bg_view_vertical_offset_fullscreen),
    39 => format!("{:?}", x.bg_window_top_x_offset_fullscreen),
    40 => format!("{:?}", x.bg_window_top_y_offset_fullscreen),
    41 => format!("{:?}", x.bg_window_top_z_offset_fullscreen),
    42 => format!("{:?}", x.bg_window_bottom_x_offset_fullscreen),
    43 => format!("{:?}", x.bg_window_bottom_y_offset_fullscreen),
    44 => format!("{:?}", x.bg_window_bottom_z_offset_fullscreen),
    45 => format!("{:?}", x.bg_view_mode_full_single_screen),
    46 => format!("{:?}", x.bg_rotation_full_single_screen),
    47 => format!("{:?}", x.bg_inclination_full_single_screen),
    48 => format!("{:?}", x.bg_layback_full_single_screen),
    49 => format!("{:?}", x.bg_fov_full_single_screen),
    50 => format!("{:?}", x.bg_offset_x_full_single_screen),
    51 => format!("{:?}", x.bg_offset_y_full_single_screen),
    52 => format!("{:?}", x.bg_offset_z_full_single_screen),
    53 => format!("{:?}", x.bg_scale_x_full_single_screen),
    54 => format!("{:?}", x.bg_scale_y_full_single_screen),
    55 => format!("{:?}", x.bg_scale_z_full_single_screen),
    56 => format!("{:?}", x.bg_view_horizontal_offset_full_single_screen),
    57 => format!("{:?}", x.bg_view_vertical_offset_full_single_screen),
    58 => format!("{:?}", x.bg_window_top_x_offset_full_single_screen),
    59 => format!("{:?}", x.bg_window_top_y_offset_full_single_screen),
    60 => format!("{:?}", x.bg_window_top_z_offset_full_single_screen),
    61 => format!("{:?}", x.bg_window_bottom_x_offset_full_single_screen),
    62 => format!("{:?}", x.bg_window_bottom_y_offset_full_single_screen),
    63 => format!("{:?}", x.bg_window_bottom_z_offset_full_single_screen),
    64 => format!("{:?}", x.override_physics),
    65 => format!("{:?}", x.override_physics_flipper),
    66 => format!("{:?}", x.gravity),
    67 => format!("{:?}", x.friction),
    68 => format!("{:?}", x.elasticity),
    69 => format!("{:?}", x.elastic_falloff),
    70 => format!("{:?}", x.scatter),
    71 => format!("{:?}", x.default_scatter),
    72 => format!("{:?}", x.nudge_time),
    73 => format!("{:?}", x.plunger_normalize),
    74 => format!("{:?}", x.plunger_filter),
    75 => format!("{:?}", x.physics_max_loops),
    76 => format!("{:?}", x.render_em_reels),
    77 => format!("{:?}", x.render_decals),
    78 => format!("{:?}", x.offset_x),
    79 => format!("{:?}", x.offset_y),
    80 => format!("{:?}", x.zoom),
    81 => format!("{:?}", x.angle_tilt_max),
    82 => format!("{:?}", x.angle_tilt_min),
    83 => format!("{:?}", x.stereo_max_separation),
    84 => format!("{:?}", x.stereo_zero_parallax_displacement),
    85 => format!("{:?}", x.stereo_offset),
    86 => format!("{:?}", x.overwrite_global_stereo3d),
    87 => format!("{:?}", x.image),
    88 => format!("{:?}", x.backglass_image_full_desktop),
    89 => format!("{:?}", x.backglass_image_full_fullscreen),
    90 => format!("{:?}", x.backglass_image_full_single_screen),
    91 => format!("{:?}", x.image_backdrop_night_day),
    92 => format!("{:?}", x.image_color_grade),
    93 => format!("{:?}", x.ball_image),
    94 => format!("{:?}", x.ball_spherical_mapping),
    95 => format!("{:?}", x.ball_image_front),
    96 => format!("{:?}", x.env_image),
    97 => format!("{:?}", x.notes),
    98 => format!("{:?}", x.screen_shot),
    99 => format!("{:?}", x.display_backdrop),
    100 => format!("{:?}", x.glass_top_height),
    101 => format!("{:?}", x.glass_bottom_height),
    102 => format!("{:?}", x.table_height),
    103 => format!("{:?}", x.playfield_material),
    104 => format!("{:?}", x.backdrop_color),
    105 => format!("{:?}", x.global_difficulty),
    106 => format!("{:?}", x.light_ambient),
    107 => format!("{:?}", x.light0_emission),
    108 => format!("{:?}", x.light_height),
    109 => format!("{:?}", x.light_range),
    110 => format!("{:?}", x.light_emission_scale),
    111 => format!("{:?}", x.env_emission_scale),
    112 => format!("{:?}", x.global_emission_scale),
    113 => format!("{:?}", x.ao_scale),
    114 => format!("{:?}", x.ssr_scale),
    115 => format!("{:?}", x.ground_to_lockbar_height),
    116 => format!("{:?}", x.table_sound_volume),
    117 => format!("{:?}", x.table_music_volume),
    118 => format!("{:?}", x.table_adaptive_vsync),
    119 => format!("{:?}", x.use_reflection_for_balls),
    120 => format!("{:?}", x.brst),
    121 => format!("{:?}", x.playfield_reflection_strength),
    122 => format!("{:?}", x.use_trail_for_balls),
    123 => format!("{:?}", x.ball_decal_mode),
    124 => format!("{:?}", x.ball_playfield_reflection_strength),
    125 => format!("{:?}", x.default_bulb_intensity_scale_on_ball),
    126 => format!("{:?}", x.ball_trail_strength),
    127 => format!("{:?}", x.user_detail_level),
    128 => format!("{:?}", x.overwrite_global_detail_level),
    129 => format!("{:?}", x.overwrite_global_day_night),
    130 => format!("{:?}", x.show_grid),
    131 => format!("{:?}", x.reflect_elements_on_playfield),
    132 => format!("{:?}", x.use_aal),
    133 => format!("{:?}", x.use_fxaa),
    134 => format!("{:?}", x.use_ao),
    135 => format!("{:?}", x.use_ssr),
    136 => format!("{:?}", x.tone_mapper),
    137 => format!("{:?}", x.bloom_strength),
    138 => format!("{:?}", x.custom_colors),
    139 => format!("{:?}", x.protection_data),
    140 => format!("{:?}", x.locked),
    141 => format!("{:?}", x.exposure),
    _ => String::new(),
} }
pub fn dbg_collection(x: &Collection, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.items),
    2 => format!("{:?}", x.fire_events),
    3 => format!("{:?}", x.stop_single_events),
    4 => format!("{:?}", x.group_elements),
    _ => String::new(),
} }
pub fn dbg_material(x: &Material, i: usize) -> String { match i {
    0 => format!("{:?}", x.name),
    1 => format!("{:?}", x.type_),
    2 => format!("{:?}", x.wrap_lighting),
    3 => format!("{:?}", x.roughness),
    4 => format!("{:?}", x.glossy_image_lerp),
    5 => format!("{:?}", x.thickness),
    6 => format!("{:?}", x.edge),
    7 => format!("{:?}", x.edge_alpha),
    8 => format!("{:?}", x.opacity),
    9 => format!("{:?}", x.base_color),
    10 => format!("{:?}", x.glossy_color),
    11 => format!("{:?}", x.clearcoat_color),
    12 => format!("{:?}", x.opacity_active),
    13 => format!("{:?}", x.elasticity),
    14 => format!("{:?}", x.elasticity_falloff),
    15 => format!("{:?}", x.friction),
    16 => format!("{:?}", x.scatter_angle),
    _ => String::new(),
} }
pub fn dbg_dragpoint(x: &DragPoint, i: usize) -> String { match i {
    0 => format!("{:?}", x.x),
    1 => format!("{:?}", x.y),
    2 => format!("{:?}", x.z),
    3 => format!("{:?}", x.smooth),
    4 => format!("{:?}", x.is_slingshot),
    5 => format!("{:?}", x.has_auto_texture),
    6 => format!("{:?}", x.tex_coord),
    7 => format!("{:?}", x.is_locked),
    8 => format!("{:?}", x.editor_layer),
    9 => format!("{:?}", x.editor_layer_name),
    10 => format!("{:?}", x.editor_layer_visibility),
    _ => String::new(),
} }
pub fn dbg_item_field(x: &GameItemEnum, i: usize) -> String { match x {
    GameItemEnum::Wall(y) => dbg_wall(y, i),
    GameItemEnum::Flipper(y) => dbg_flipper(y, i),
    GameItemEnum::Timer(y) => dbg_timer(y, i),
    GameItemEnum::Plunger(y) => dbg_plunger(y, i),
    GameItemEnum::TextBox(y) => dbg_textbox(y, i),
    GameItemEnum::Bumper(y) => dbg_bumper(y, i),
    GameItemEnum::Trigger(y) => dbg_trigger(y, i),
    GameItemEnum::Light(y) => dbg_light(y, i),
    GameItemEnum::Kicker(y) => dbg_kicker(y, i),
    GameItemEnum::Decal(y) => dbg_decal(y, i),
    GameItemEnum::Gate(y) => dbg_gate(y, i),
    GameItemEnum::Spinner(y) => dbg_spinner(y, i),
    GameItemEnum::Ramp(y) => dbg_ramp(y, i),
    GameItemEnum::Reel(y) => dbg_reel(y, i),
    GameItemEnum::LightSequencer(y) => dbg_lightsequencer(y, i),
    GameItemEnum::Primitive(y) => dbg_primitive(y, i),
    GameItemEnum::Flasher(y) => dbg_flasher(y, i),
    GameItemEnum::Rubber(y) => dbg_rubber(y, i),
    GameItemEnum::HitTarget(y) => dbg_hittarget(y, i),
    GameItemEnum::Ball(y) => dbg_ball(y, i),
    GameItemEnum::PartGroup(y) => dbg_partgroup(y, i),
    _ => String::new(),
} }
pub fn timer_mut(x: &mut GameItemEnum) -> Option<&mut TimerData> { match x {
    GameItemEnum::Wall(y) => Some(&mut y.timer),
    GameItemEnum::Flipper(y) => Some(&mut y.timer),
    GameItemEnum::Timer(y) => Some(&mut y.timer),
    GameItemEnum::Plunger(y) => Some(&mut y.timer),
    GameItemEnum::TextBox(y) => Some(&mut y.timer),
    GameItemEnum::Bumper(y) => Some(&mut y.timer),
    GameItemEnum::Trigger(y) => Some(&mut y.timer),
    GameItemEnum::Light(y) => Some(&mut y.timer),
    GameItemEnum::Kicker(y) => Some(&mut y.timer),
    GameItemEnum::Gate(y) => Some(&mut y.timer),
    GameItemEnum::Spinner(y) => Some(&mut y.timer),
    GameItemEnum::Ramp(y) => Some(&mut y.timer),
    GameItemEnum::Reel(y) => Some(&mut y.timer),
    GameItemEnum::LightSequencer(y) => Some(&mut y.timer),
    GameItemEnum::Flasher(y) => Some(&mut y.timer),
    GameItemEnum::Rubber(y) => Some(&mut y.timer),
    GameItemEnum::HitTarget(y) => Some(&mut y.timer),
    GameItemEnum::Ball(y) => Some(&mut y.timer),
    GameItemEnum::PartGroup(y) => Some(&mut y.timer),
    _ => None,
} }
pub fn enc_item(k: usize, i: usize, r: &mut R) -> Enc { match k {
    0 => enc_wall(i, r),
    1 => enc_flipper(i, r),
    2 => enc_timer(i, r),
    3 => enc_plunger(i, r),
    4 => enc_textbox(i, r),
    5 => enc_bumper(i, r),
    6 => enc_trigger(i, r),
    7 => enc_light(i, r),
    8 => enc_kicker(i, r),
    9 => enc_decal(i, r),
    10 => enc_gate(i, r),
    11 => enc_spinner(i, r),
    12 => enc_ramp(i, r),
    13 => enc_reel(i, r),
    14 => enc_lightsequencer(i, r),
    15 => enc_primitive(i, r),
    16 => enc_flasher(i, r),
    17 => enc_rubber(i, r),
    18 => enc_hittarget(i, r),
    19 => enc_ball(i, r),
    20 => enc_partgroup(i, r),
    _ => Enc::Other,
} }
pub const N_ITEM_TYPES: usize = 21;
pub const ITEM_NAMES: &[&str] = &["Wall", "Flipper", "Timer", "Plunger", "TextBox", "Bumper", "Trigger", "Light", "Kicker", "Decal", "Gate", "Spinner", "Ramp", "Reel", "LightSequencer", "Primitive", "Flasher", "Rubber", "HitTarget", "Ball", "PartGroup"];
pub const ITEM_FIELDS: &[&[&str]] = &[FIELDS_WALL, FIELDS_FLIPPER, FIELDS_TIMER, FIELDS_PLUNGER, FIELDS_TEXTBOX, FIELDS_BUMPER, FIELDS_TRIGGER, FIELDS_LIGHT, FIELDS_KICKER, FIELDS_DECAL, FIELDS_GATE, FIELDS_SPINNER, FIELDS_RAMP, FIELDS_REEL, FIELDS_LIGHTSEQUENCER, FIELDS_PRIMITIVE, FIELDS_FLASHER, FIELDS_RUBBER, FIELDS_HITTARGET, FIELDS_BALL, FIELDS_PARTGROUP];
use vpin::vpx::gameitem::GameItemEnum;
pub fn default_item(k: usize) -> GameItemEnum { match k {
    0 => GameItemEnum::Wall(Wall::default()),
    1 => GameItemEnum::Flipper(Flipper::default()),
    2 => GameItemEnum::Timer(Timer::default()),
    3 => GameItemEnum::Plunger(Plunger::default()),
    4 => GameItemEnum::TextBox(TextBox::default()),
    5 => GameItemEnum::Bumper(Bumper::default()),
    6 => GameItemEnum::Trigger(Trigger::default()),
    7 => GameItemEnum::Light(Light::default()),
    8 => GameItemEnum::Kicker(Kicker::default()),
    9 => GameItemEnum::Decal(Decal::default()),
    10 => GameItemEnum::Gate(Gate::default()),
    11 => GameItemEnum::Spinner(Spinner::default()),
    12 => GameItemEnum::Ramp(Ramp::default()),
    13 => GameItemEnum::Reel(Reel::default()),
    14 => GameItemEnum::LightSequencer(LightSequencer::default()),
    15 => GameItemEnum::Primitive(Primitive::default()),
    16 => GameItemEnum::Flasher(Flasher::default()),
    17 => GameItemEnum::Rubber(Rubber::default()),
    18 => GameItemEnum::HitTarget(HitTarget::default()),
    19 => GameItemEnum::Ball(Ball::default()),
    _ => GameItemEnum::PartGroup(PartGroup::default()),
} }
pub fn set_item_field(x: &mut GameItemEnum, i: usize, r: &mut R) { match x {
    GameItemEnum::Wall(y) => set_wall(y, i, r),
    GameItemEnum::Flipper(y) => set_flipper(y, i, r),
    GameItemEnum::Timer(y) => set_timer(y, i, r),
    GameItemEnum::Plunger(y) => set_plunger(y, i, r),
    GameItemEnum::TextBox(y) => set_textbox(y, i, r),
    GameItemEnum::Bumper(y) => set_bumper(y, i, r),
    GameItemEnum::Trigger(y) => set_trigger(y, i, r),
    GameItemEnum::Light(y) => set_light(y, i, r),
    GameItemEnum::Kicker(y) => set_kicker(y, i, r),
    GameItemEnum::Decal(y) => set_decal(y, i, r),
    GameItemEnum::Gate(y) => set_gate(y, i, r),
    GameItemEnum::Spinner(y) => set_spinner(y, i, r),
    GameItemEnum::Ramp(y) => set_ramp(y, i, r),
    GameItemEnum::Reel(y) => set_reel(y, i, r),
    GameItemEnum::LightSequencer(y) => set_lightsequencer(y, i, r),
    GameItemEnum::Primitive(y) => set_primitive(y, i, r),
    GameItemEnum::Flasher(y) => set_flasher(y, i, r),
    GameItemEnum::Rubber(y) => set_rubber(y, i, r),
    GameItemEnum::HitTarget(y) => set_hittarget(y, i, r),
    GameItemEnum::Ball(y) => set_ball(y, i, r),
    GameItemEnum::PartGroup(y) => set_partgroup(y, i, r),
    _ => {}
} }
pub fn set_item_name(x: &mut GameItemEnum, n: String) { match x {
    GameItemEnum::Wall(y) => y.name = n,
    GameItemEnum::Flipper(y) => y.name = n,
    GameItemEnum::Timer(y) => y.name = n,
    GameItemEnum::Plunger(y) => y.name = n,
    GameItemEnum::TextBox(y) => y.name = n,
    GameItemEnum::Bumper(y) => y.name = n,
    GameItemEnum::Trigger(y) => y.name = n,
    GameItemEnum::Light(y) => y.name = n,
    GameItemEnum::Kicker(y) => y.name = n,
    GameItemEnum::Decal(y) => y.name = n,
    GameItemEnum::Gate(y) => y.name = n,
    GameItemEnum::Spinner(y) => y.name = n,
    GameItemEnum::Ramp(y) => y.name = n,
    GameItemEnum::Reel(y) => y.name = n,
    GameItemEnum::LightSequencer(y) => y.name = n,
    GameItemEnum::Primitive(y) => y.name = n,
    GameItemEnum::Flasher(y) => y.name = n,
    GameItemEnum::Rubber(y) => y.name = n,
    GameItemEnum::HitTarget(y) => y.name = n,
    GameItemEnum::Ball(y) => y.name = n,
    GameItemEnum::PartGroup(y) => y.name = n,
    GameItemEnum::Generic(_, y) => y.name = n,
} }
