#!/usr/bin/env python3
"""Writes harness/src/model_gen.rs: one random setter per public field of every
public model struct of vpin.  The output is committed; this script is only run
by hand when the model gains fields."""
import re,glob,os,sys
SRC='/repo/src/vpx'
STRUCTS={}
ENUMS={}
for f in sorted(glob.glob(SRC+'/**/*.rs',recursive=True)):
    if any(p in f for p in ('/mesh/','/export/','/expanded/','/math/')): continue
    s=open(f).read().split('#[cfg(test)]\nmod test')[0]
    mod=os.path.relpath(f,SRC)[:-3].replace('/','::')
    for m in re.finditer(r'\npub struct (\w+)[^;{(<]*\{(.*?)\n\}',s,re.S):
        body=re.sub(r'//[^\n]*','',m.group(2)); body=re.sub(r'/\*.*?\*/','',body,flags=re.S)
        fl=[(n,t.rstrip(',')) for v,n,t in re.findall(r'^\s*(pub(?:\([a-z]+\))? )?(\w+)\s*:\s*([^\n]+?),?\s*$',body,re.M) if v=='pub ']
        STRUCTS[m.group(1)]=(mod,fl)
    for m in re.finditer(r'\npub enum (\w+)[^{]*\{(.*?)\n\}',s,re.S):
        body=re.sub(r'//[^\n]*','',m.group(2)); body=re.sub(r'#\[[^\]]*\]','',body)
        vs=[v.strip().split('=')[0].strip() for v in body.split(',') if v.strip()]
        ENUMS[m.group(1)]=(mod,vs)
ITEMS='Wall Flipper Timer Plunger TextBox Bumper Trigger Light Kicker Decal Gate Spinner Ramp Reel LightSequencer Primitive Flasher Rubber HitTarget Ball PartGroup'.split()
OTHER='GameData TableInfo Collection SaveMaterial SavePhysicsMaterial Material DragPoint TimerData'.split()
USEENUM='ViewLayoutMode ToneMapper DecalType SizingType Filter RenderMode GateType TargetType KickerType ShadowMode Fader SpaceReference PlungerType RampType RampImageAlignment TextAlignment TriggerShape MaterialType OutputTarget'.split()
# fields built by hand in model.rs (cross-field constraints)
SKIP={'Primitive':{'num_vertices','compressed_vertices_len','compressed_vertices_data','num_indices','compressed_indices_len','compressed_indices_data','compressed_animation_vertices_len','compressed_animation_vertices_data'},
 'GameData':{'materials_size','materials_old','materials_physics_old','materials','render_probes','gameitems_size','sounds_size','images_size','fonts_size','collections_size','is_10_8_0_beta1_to_beta4','code'},
 'TableInfo':{'properties','screenshot'}}
WIDE={(i,'name') for i in ITEMS}|{('LightSequencer','collection'),('GameData','name'),('Collection','name')}
Q8={('Wall','disable_lighting_top_old'),('HitTarget','disable_lighting_top_old'),('Primitive','disable_lighting_top_old'),('GameData','playfield_reflection_strength')}
def gen(st,f,t):
    if (st,f) in Q8:
        return 'r.opt(|r| r.q8())' if t.startswith('Option') else 'r.q8()'
    if (st,f) in WIDE: return 'r.wide()'
    if st=='TableInfo':
        t2={'Option<String>':'r.opt(|r| r.wide())','String':'r.wide()'}
        if t in t2: return t2[t]
    if st in('SaveMaterial','SavePhysicsMaterial') and f=='name': return 'r.latin_max(31)'
    m=re.match(r'Option<(.*)>$',t)
    if m: return 'r.opt(|r| %s)'%gen(st,f,m.group(1))
    m=re.match(r'Vec<(.*)>$',t)
    if m and m.group(1)!='u8':
        return '{ let n = r.small_len(); (0..n).map(|_| %s).collect() }'%(gen(st,f,m.group(1)) if not(st=='Collection') else 'r.wide()')
    B={'f32':'r.f32()','bool':'r.bool()','String':'r.latin()','u32':'r.u32()','i32':'r.i32()','i64':'r.i64()','u8':'r.u8()','u16':'r.u16()','Vec<u8>':'r.blob()'}
    if t in B: return B[t]
    m=re.match(r'\[(\w+); (\d+)\]$',t)
    if m: return 'std::array::from_fn(|_| %s)'%gen(st,f,m.group(1))
    return 'g_%s(r)'%t.lower()
o=['// Generated by tools/gen_model.py; do not edit.','#![allow(non_snake_case, unused_variables, clippy::all)]','use crate::rng::R;','use crate::model::*;']
for n in ITEMS+OTHER: o.append('use vpin::vpx::%s::%s;'%(STRUCTS[n][0],n))
for n in USEENUM: o.append('use vpin::vpx::%s::%s;'%(ENUMS[n][0],n))
for n in USEENUM:
    vs=ENUMS[n][1]
    arms=[]
    for i,v in enumerate(vs):
        if '(' in v: v=v.split('(')[0]+'(r.range(200,5000) as u32)'
        arms.append('%d => %s::%s,'%(i,n,v))
    arms[-1]=re.sub(r'^\d+','_',arms[-1])
    o.append('pub fn g_%s(r: &mut R) -> %s { match r.below(%d) { %s } }'%(n.lower(),n,len(vs),' '.join(arms)))
for n in ITEMS+OTHER:
    mod,fl=STRUCTS[n]
    fl=[x for x in fl if x[0] not in SKIP.get(n,())]
    up=n.upper()
    o.append('pub const FIELDS_%s: &[&str] = &[%s];'%(up,', '.join('"%s"'%f for f,_ in fl)))
    o.append('pub fn set_%s(x: &mut %s, i: usize, r: &mut R) {\n    match i {'%(n.lower(),n))
    for i,(f,t) in enumerate(fl): o.append('        %d => x.%s = %s,'%(i,f,gen(n,f,t)))
    o.append('        _ => {}\n    }\n}')
    o.append('pub fn g_%s(r: &mut R) -> %s {\n    let mut x = %s;\n    for i in 0..FIELDS_%s.len() { set_%s(&mut x, i, r); }\n    x\n}'%(n.lower(),n,('Collection { name: String::new(), items: vec![], fire_events: false, stop_single_events: false, group_elements: false }' if n=='Collection' else n+'::default()'),up,n.lower()))
ENCMAP={'r.f32()':'Enc::F32(r.f32())','r.q8()':'Enc::Q8(r.q8())','r.bool()':'Enc::Bool(r.bool())','r.latin()':'Enc::Str(r.latin())','r.wide()':'Enc::Wide(r.wide())','r.u32()':'Enc::U32(r.u32())','r.i32()':'Enc::U32(r.i32() as u32)','r.u8()':'Enc::U8(r.u8())','g_color(r)':'Enc::Color(g_color(r).to_win_color())','g_vertex2d(r)':'{ let v = g_vertex2d(r); Enc::F32s(vec![v.x, v.y]) }','g_vertex3d(r)':'{ let v = g_vertex3d(r); Enc::F32s(vec![v.x, v.y, v.z]) }','r.blob()':'Enc::Bytes(r.blob())','g_font(r)':'Enc::Bytes(font_bytes(g_font_parts(r)))'}
for n in ITEMS+['GameData','Collection','Material','DragPoint']:
    mod,fl=STRUCTS[n]
    fl=[x for x in fl if x[0] not in SKIP.get(n,())]
    o.append('/// the value the setter of field i draws from r, as an encoding expectation')
    o.append('pub fn enc_%s(i: usize, r: &mut R) -> Enc { match i {'%n.lower())
    for i,(f,t) in enumerate(fl):
        e=gen(n,f,t)
        m=re.match(r'r\.opt\(\|r\| (.*)\)$',e)
        opt=bool(m)
        if m: e=m.group(1)
        e=ENCMAP.get(e)
        if e is None: continue
        if opt: e='match r.opt(|r| %s) { Some(e) => e, None => Enc::Absent }'%e
        o.append('    %d => %s,'%(i,e))
    o.append('    _ => Enc::Other,\n} }')
for n in ITEMS+['GameData','Collection','Material','DragPoint']:
    mod,fl=STRUCTS[n]
    fl=[x for x in fl if x[0] not in SKIP.get(n,())]
    o.append('pub fn dbg_%s(x: &%s, i: usize) -> String { match i {'%(n.lower(),n))
    for i,(f,t) in enumerate(fl): o.append('    %d => format!("{:?}", x.%s),'%(i,f))
    o.append('    _ => String::new(),\n} }')
o.append('pub fn dbg_item_field(x: &GameItemEnum, i: usize) -> String { match x {\n'+'\n'.join('    GameItemEnum::%s(y) => dbg_%s(y, i),'%(n,n.lower()) for n in ITEMS)+'\n    _ => String::new(),\n} }')
o.append('pub fn timer_mut(x: &mut GameItemEnum) -> Option<&mut TimerData> { match x {\n'+'\n'.join('    GameItemEnum::%s(y) => Some(&mut y.timer),'%n for n in ITEMS if any(f=='timer' and t=='TimerData' for f,t in STRUCTS[n][1]))+'\n    _ => None,\n} }')
o.append('pub fn enc_item(k: usize, i: usize, r: &mut R) -> Enc { match k {')
for i,n in enumerate(ITEMS): o.append('    %d => enc_%s(i, r),'%(i,n.lower()))
o.append('    _ => Enc::Other,\n} }')
o.append('pub const N_ITEM_TYPES: usize = %d;'%len(ITEMS))
o.append('pub const ITEM_NAMES: &[&str] = &[%s];'%', '.join('"%s"'%i for i in ITEMS))
o.append('pub const ITEM_FIELDS: &[&[&str]] = &[%s];'%', '.join('FIELDS_%s'%i.upper() for i in ITEMS))
o.append('use vpin::vpx::gameitem::GameItemEnum;')
o.append('pub fn default_item(k: usize) -> GameItemEnum { match k {\n'+'\n'.join('    %s => GameItemEnum::%s(%s::default()),'%(i if i<len(ITEMS)-1 else '_',n,n) for i,n in enumerate(ITEMS))+'\n} }')
o.append('pub fn set_item_field(x: &mut GameItemEnum, i: usize, r: &mut R) { match x {\n'+'\n'.join('    GameItemEnum::%s(y) => set_%s(y, i, r),'%(n,n.lower()) for n in ITEMS)+'\n    _ => {}\n} }')
o.append('pub fn set_item_name(x: &mut GameItemEnum, n: String) { match x {\n'+'\n'.join('    GameItemEnum::%s(y) => y.name = n,'%n for n in ITEMS)+'\n    GameItemEnum::Generic(_, y) => y.name = n,\n} }')
open(os.path.join(os.path.dirname(__file__),'../harness/src/model_gen.rs'),'w').write('\n'.join(o)+'\n')
