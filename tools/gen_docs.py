#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand; outputs committed)."""
import json,os,re
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=(),state=(),level='exploration',tech='',note='',hook=None):
    P.append(dict(id=id,title=title,statement=' '.join(statement.split()),over=over,qtext=' '.join(qtext.split()),why=' '.join(why.split()),files=files,mech=mech,observe=list(observe),state=list(state),level=level,tech=tech,note=' '.join(note.split()),hook=hook))

p('C01','Writing a table and reading it back returns the same table','''
For every table the model can hold within the limits of the .vpx format, writing it (to a file or to bytes) and reading it back returns
an equal table: version, info, custom properties and their order, game data, every game item of every type with every field (unknown item types included), images, sounds,
fonts and collections. Writing the table that was read produces the same streams byte for byte.''',
['inputs'],'every table value: every field of every struct and item type, every Option present or absent, every supported version, unknown records and items, NaN/infinite floats at byte level',
'The tests write a handful of hand-made values per struct (and sample files that are not in the repository); they cannot reach every field combination, version gate and string content.',
['src/vpx/mod.rs','src/vpx/gamedata.rs','src/vpx/gameitem.rs','src/vpx/gameitem/*.rs','src/vpx/biff.rs','src/vpx/image.rs','src/vpx/sound.rs','src/vpx/font.rs','src/vpx/collection.rs','src/vpx/tableinfo.rs','src/vpx/custominfotags.rs','src/vpx/material.rs','src/vpx/renderprobe.rs'],
[('BiffRead/BiffWrite of every struct','src/vpx/biff.rs, src/vpx/gameitem/*.rs'),('write_vpx / read_vpx','src/vpx/mod.rs')],
['vpx::write, vpx::read, vpx::to_bytes, vpx::from_bytes','streams of the compound file read with the cfb crate'],
tech='runtime monitor: model-driven workload, value and stream equality oracle',note='Held on the generated tables of this run (every field of every struct is drawn at random); overflow checks and debug assertions on.')

p('C02','Rewriting an existing file loses nothing, whatever the record order','''
For every well-formed table file, whatever order its records come in, whichever optional records are missing and whatever unknown records stand between them, reading it and writing it
back yields the same streams with every known record of every object kept byte for byte (up to values the format defines as derived, such as the signature, and bytes it leaves undefined, such as those after the end
of a fixed-size name); unknown records are skipped without disturbing any other, unknown game item types are kept whole, a file with all its records reads as the same table in any order, and rewriting the result changes nothing further.''',
['inputs'],'every file: record orders, unknown tags, absent optional records, duplicated drag points, empty strings, any version',
'Tests compare a few real tables when they are present; record permutations and unknown records are not among them.',
['src/vpx/gamedata.rs','src/vpx/gameitem.rs','src/vpx/gameitem/*.rs','src/vpx/biff.rs'],
[('tag dispatch loops with a fallthrough that skips unknown tags','src/vpx/**'),('optional fields written only when present','src/vpx/gameitem/*.rs')],
['records of every stream, parsed by an independent parser'],
tech='runtime monitor: mutation of valid files (permuted/inserted/dropped records) with an independent record parser as oracle',note='Held on the mutated files of this run; the mutations keep files well-formed for the documented format.')

p('C03','A table survives extraction to a directory and reassembly','''
For every table, extracting it to the expanded directory format and assembling it again gives back the same table (floats bit for bit, names of any characters and duplicate or case-differing names included),
whichever mesh format is chosen and whether the directory is in memory or on disk, and the table written from it is the same file. The content of each asset file is the asset.''',
['inputs','configurations'],'every table value with representable JSON floats; mesh formats OBJ, GLB, glTF; memory and real file system; parallel extraction on',
'The tests expand one or two small tables in one mesh format; collisions, unusual names, all field combinations and versions are not reached.',
['src/vpx/expanded/*.rs','src/vpx/jsonmodel.rs','src/vpx/gameitem/*.rs','src/vpx/obj.rs','src/vpx/gltf.rs','src/vpx/wav.rs'],
[('name sanitising and deduplication','src/vpx/expanded/util.rs, src/vpx/expanded/images.rs, gameitems.rs, sounds.rs'),('per-item JSON (de)serialisation','src/vpx/gameitem/*.rs')],
['expanded::write_fs / read_fs on MemoryFileSystem and RealFileSystem; stream comparison of the reassembled table'],
tech='runtime monitor: round-trip workload over file systems and mesh formats, equality oracle',note='Held on the generated tables of this run; legacy material names of at most 31 bytes, finite floats.')

p('C04','A written table carries a valid signature and any change is detected','''
After every write the signature stored in the file equals the one an independent implementation of the Visual Pinball algorithm computes from the streams, and verification succeeds.
Changing any byte of a stream the signature covers makes verification report a failure, changing anything it does not cover does not, and a file that cannot be read is reported as an error, never as valid.''',
['inputs','fault_sequences'],'every table, every signed stream and byte position, every operation that rewrites the signature',
'Tests verify a couple of fixed tables; they neither compare with another implementation over many tables nor alter the files.',
['src/vpx/mod.rs','src/vpx/biff.rs','src/vpx/gamedata.rs'],
[('generate_mac over the ordered stream table','src/vpx/mod.rs'),('verify','src/vpx/mod.rs')],['GameStg/MAC and vpx::verify'],
tech='runtime monitor: independent MD2 signature oracle plus byte-level tampering faults',note='The oracle is validated against the signature in a table saved by Visual Pinball itself (testdata).')

p('C05','Lock, unlock and is-locked follow the lock counter','''
Over every history of lock and unlock operations (and reopenings of the file between them) the table is locked exactly when the counter stored in the file says so, lock and unlock report whether they changed anything and
are idempotent, and every change advances the counter by exactly one. Nothing else in the table changes, and the signature stays valid.''',
['histories'],'every sequence of operations from every initial counter (absent, zero, odd, even, largest value)',
'The test suite has one lock and one unlock on one table.',
['src/vpx/mod.rs','src/vpx/gamedata.rs'],[('VpxFile::lock/unlock/is_locked, GameData::is_locked/set_locked','src/vpx/mod.rs, src/vpx/gamedata.rs')],['results of the calls, the stored record, all other streams'],
tech='runtime monitor: operation histories checked online against a sequential reference model',note='Held on the histories of this run.')

p('C06','Editing part of a table leaves every other part alone','''
An operation that edits a table file in place (replacing its game data, importing a script, locking, unlocking, converting images) changes only the streams it is about and the signature; all other
streams of the file, including ones this library does not know, stay byte for byte the same and the file stays readable.''',
['inputs','histories'],'every table, extra unknown streams and storages, every sequence of in-place operations, growing and shrinking edits',
'Tests check that the edited part reads back, on one table, not that everything else is untouched.',
['src/vpx/mod.rs'],[('read-write compound file handle, per-stream rewriting','src/vpx/mod.rs')],['all streams before and after, read with the cfb crate'],
tech='runtime monitor: edit histories with a stream-by-stream frame-condition oracle',note='Held on the histories of this run.')

p('C07','Compacting a file keeps its content at every moment','''
Compacting a table file keeps every stream and storage byte for byte and yields a readable file no larger than an equivalent fresh one; a file that was already compact stays equivalent. If the process is interrupted at any system call of the
compaction, or one of them fails, the original path still holds a complete readable table with the same content, whatever the file is called; other files beside it (but for the temporary one) stay as they are.''',
['inputs','crash_points','fault_sequences'],'every table with holes left by edits; interruption after every file-system call of the compaction; write failures at any size',
'Tests compact one file without failures.',
['src/vpx/mod.rs'],[('copy to temporary then replace','src/vpx/mod.rs compact()')],['directory contents after each simulated crash'],
tech='runtime monitor: crash injection at system calls plus stream equality oracle',note='Crash points are enumerated by stopping a child process at each relevant system call; loss of unsynced page cache is not modelled.')

p('C08','Converting images to WebP changes only what it says and loses no pixel','''
Converting a table's images to WebP replaces exactly the images stored in BMP/PNG form, each by a WebP file that decodes to the same pixels, updates the path extension of the image accordingly,
reports exactly the images it converted, and leaves all other images and all other streams unchanged. Running it again converts nothing and changes nothing.''',
['inputs'],'every mix of bitmap, PNG, JPEG, WebP and linked images, sizes and alpha channels; undecodable data',
'The test converts a few images of one table without comparing pixels or other streams.',
['src/vpx/mod.rs','src/vpx/image.rs','src/vpx/expanded/images.rs'],[('images_to_webp','src/vpx/mod.rs'),('vpx_image_to_dynamic_image','src/vpx/image.rs')],['decoded pixels before and after with the image crate'],
tech='runtime monitor: pixel-equality and frame-condition oracles over generated image tables',note='Held on the image mixes of this run.')

p('C09','Scripts are extracted and imported without change','''
Extracting the script of a table writes exactly the script text that the table holds next to the table or to the requested path and honours the overwrite flag, and importing that file again leaves the script as it was.
Importing any text file (without NUL characters) makes exactly that text the script of the table, in an encoding that reads back the same.''',
['inputs'],'every script: any characters, line endings, empty, large, valid UTF-8 or Latin-1 bytes; existing or missing side files',
'Tests use one ASCII script.',
['src/vpx/mod.rs','src/vpx/model.rs','src/vpx/gamedata.rs'],[('extractvbs/importvbs','src/vpx/mod.rs'),('StringWithEncoding','src/vpx/model.rs')],['the .vbs file, GameData.code after reopening'],
tech='runtime monitor: script corpus round trips against a byte-level oracle',note='Held on the scripts of this run.')

p('C10','Bitmap compression is lossless and independent of this decoder','''
Compressing any byte sequence with the image codec gives a stream that an independent decoder of the format expands to the same bytes, framed in blocks the format allows, and decompressing it returns the input;
bitmaps extracted to .bmp files show the stored pixels, and imported again they show the same pixels and, when this codec compressed them, have the same compressed form.''',
['inputs'],'every byte sequence up to several dictionary resets; all bitmap sizes',
'Tests compress a few short inputs and only with the library\'s own decoder.',
['src/vpx/lzw.rs','src/vpx/expanded/images.rs','src/vpx/image.rs'],[('to_lzw_blocks/from_lzw_blocks','src/vpx/lzw.rs')],['decoded bytes of an independent LZW decoder'],
tech='runtime monitor: differential oracle with an independent LZW decoder',note='Held on the inputs of this run.')

p('C11','Record framing: what is written is what is read, and nothing is over-read','''
For every sequence of tagged values written, the records have the exact documented layout, reading them in any mix of typed reads, skips and raw reads returns the same values in order, and skipping an unread record always lands on the next one.
Strings written in the two on-disk encodings read back equal for every string that encoding can represent.''',
['inputs','histories'],'every sequence of write operations and every mix of read operations',
'Tests exercise each primitive once with one value.',
['src/vpx/biff.rs','src/vpx/model.rs','src/vpx/utf16.rs'],[('BiffWriter / BiffReader','src/vpx/biff.rs')],['bytes against a reference encoder; reader position'],
tech='runtime monitor: operation sequences against a reference encoder/decoder model',note='Held on the sequences of this run; debug assertions and overflow checks on.')

p('C12','Hostile files are contained','''
Reading any file at all, however damaged or malicious, ends: it returns a table, an error or a panic that can be caught, within time and memory bounded by a small multiple of the file size, and never aborts or kills the process.
The same holds for assembling any damaged extracted directory, and for writing, extracting and exporting whatever table was read, with room for data that unpacks to much more than its compressed size; geometry generated from absurd positions and sizes stays finite in number and never aborts the process either.
Opening, verifying and reading damaged files, and a compaction that fails, never modify them; reading from a path and from memory give the same result.''',
['inputs','fault_sequences'],'every byte string; realistic damage (truncation, flipped bits, wrong lengths and counters, swapped streams, deep nesting, compression bombs) of valid tables and extracted directories',
'Tests read only well-formed files.',
['src/vpx/mod.rs','src/vpx/biff.rs','src/vpx/gamedata.rs','src/vpx/lzw.rs','src/vpx/image.rs','src/vpx/gltf.rs','src/vpx/obj.rs','src/vpx/wav.rs','src/vpx/expanded/*.rs'],[('bounded readers','src/vpx/biff.rs'),('counts in mesh files','src/vpx/gltf.rs'),('recurse_smooth_line_2d and _3d','src/vpx/mesh/mod.rs')],['exit status of a child process; CPU time and peak heap of every stage of every case','bytes of the damaged file after each operation'],
tech='runtime monitor: damage to files, counting allocator and CPU-clock monitor in child processes',note='Panics are allowed by the statement (the library uses them for malformed data). Limits are far above the observed need. How long the triangulation of a tangled outline of thousands of points takes is not limited.')

p('C13','Wave sounds keep their samples and format','''
A sound extracted from a table as a .wav file is a well-formed RIFF/WAVE file whose header states the stored format and whose data chunk is the stored samples, and importing it gives back the same samples and format;
sounds in other formats are copied byte for byte. Parsing any RIFF/WAVE file with any extra chunks finds the same format and data as an independent parser.''',
['inputs'],'every wave format (channels, rate, bits, extension), every sample length; WAV files with any extra chunks in any order',
'Tests use a couple of fixed headers.',
['src/vpx/wav.rs','src/vpx/sound.rs','src/vpx/expanded/sounds.rs'],[('write_sound / read_sound','src/vpx/sound.rs'),('read_wav/write_wav','src/vpx/wav.rs')],['bytes of the WAV against an independent RIFF parser'],
tech='runtime monitor: independent RIFF parser as oracle over generated sounds',note='Held on the sounds of this run.')

p('C14','Extraction stays inside its directory with one file per asset','''
Whatever the names and paths stored in a table, extracting it creates files only inside the chosen directory, every image, sound, font and game item gets its own file (no file is written twice), and names that differ only by case or by
characters a file system cannot hold still get different files.''',
['inputs'],'every table, with hostile names: separators, drive letters, parent references, reserved characters, duplicates, case variants, names that look deduplicated',
'Tests use well-behaved names.',
['src/vpx/expanded/images.rs','src/vpx/expanded/sounds.rs','src/vpx/expanded/fonts.rs','src/vpx/expanded/gameitems.rs','src/vpx/expanded/primitives.rs','src/vpx/expanded/util.rs'],
[('sanitize_filename and dedup counters','src/vpx/expanded/util.rs')],['every path passed to a recording FileSystem, none of which is touched on disk'],
tech='runtime monitor: recording stand-in file system; containment and write-once oracles',note='Destructive effects never reach the disk: a recording file system receives every call.')

p('C15','The same table always gives the same output','''
Writing, extracting or exporting the same table always produces the same files with the same bytes (up to the creation times the .vpx container stores in its directory): repeated in one process, in different processes and with any number of worker threads.''',
['inputs','schedules','configurations'],'every table; 1 to 16 worker threads; separate processes (different hash seeds)',
'Tests run once in one process.',
['src/vpx/mod.rs','src/vpx/expanded/*.rs','src/vpx/export/*.rs','src/vpx/jsonmodel.rs'],[('rayon parallel item writing','src/vpx/expanded/gameitems.rs'),('ordered maps','src/vpx/jsonmodel.rs')],['hashes of every output from child processes'],
tech='runtime monitor: cross-process, cross-thread-count output hashing',note='Held on the tables and schedules of this run.')

p('C16','The in-memory file system behaves like the real one','''
Over every history of operations on files in existing directories, the in-memory file system gives the results the real one gives: contents, existence, errors for missing files, overwriting, deletion, listing, and files written through
an open writer, once flushed or closed. With any number of threads, each operation takes effect at one moment between its call and its return, each file is seen whole or not at all, and none is lost; tables extracted to memory are the same files as on disk, and listing a table names exactly the files extracting it creates.''',
['histories','schedules'],'every sequence of operations; concurrent histories on few paths',
'Tests write and read one file.',
['src/filesystem.rs','src/vpx/expanded/mod.rs'],[('RwLock-protected maps','src/filesystem.rs')],['results of the same history on both implementations; concurrent history against a sequential model'],
tech='runtime monitor: differential histories against the disk and a model; linearizability checker over recorded concurrent histories',note='Held on the histories and interleavings of this run.')

p('C17','Every field keeps its place and encoding in the file','''
Every field of every item type, the game data, materials, collections and drag points is stored in a .vpx file under the record tag and in the encoding that Visual Pinball uses for it,
changing one field changes only its own record, and reading a record with that tag sets that field and no other.''',
['inputs'],'every field of every struct; every value of it',
'Round-trip tests cannot notice a tag, encoding or swap that the reader and the writer share; only interoperability with Visual Pinball shows it.',
['src/vpx/gamedata.rs','src/vpx/gameitem/*.rs','src/vpx/material.rs','src/vpx/collection.rs'],[('tag constants and write_tagged_* calls','src/vpx/**')],['records of each written struct, parsed independently, against the committed schema'],
tech='runtime monitor: single-field perturbation against a committed field/tag/encoding schema',note='The schema was recorded once from the pinned tree and cross-checked with the tags in the source documentation; it is the trusted reference for Visual Pinball compatibility.')

p('C18','Exported models are well-formed files','''
Every glTF, GLB and OBJ file exported from any table is well-formed according to its format: JSON and binary chunks consistent, every index, accessor, buffer view, material, texture and node reference in range, accessor bounds correct,
alignment respected, all numbers finite and every face index valid.''',
['inputs','configurations'],'every table (all item types, meshes, images, materials, lights, cameras), all export options',
'Tests export a few simple tables and look at a few fields.',
['src/vpx/export/gltf_export.rs','src/vpx/export/obj_export.rs','src/vpx/export/camera.rs','src/vpx/mesh/*.rs'],[('GLB writer','src/vpx/export/gltf_export.rs'),('OBJ writer','src/vpx/export/obj_export.rs')],['the exported bytes, through independent glTF and OBJ validators'],
tech='runtime monitor: independent glTF/OBJ validators over exported tables',note='Held on the tables of this run, with moderately sized coordinates.')

p('C19','Generated meshes are valid geometry','''
The mesh built for any item of a table has only indices inside its vertex list, whole triangles, finite positions, normals and texture coordinates, and non-degenerate normals, and stays within the extent the item's parameters define;
asking for an invisible or empty item yields no mesh rather than a broken one.''',
['inputs'],'every wall, ramp, rubber, flasher, flipper, bumper, gate, kicker, light, plunger, spinner, trigger, target, primitive with in-range parameters',
'Tests check a few shapes by vertex count.',
['src/vpx/mesh/*.rs'],[('mesh builders','src/vpx/mesh/*.rs')],['the meshes in exported files'],
tech='runtime monitor: geometric invariant monitors on built meshes',note='Held on the items of this run, parameters inside the ranges the editor allows.')

p('C20','Mesh files keep every vertex and face bit for bit','''
A primitive mesh (animation frames included) extracted as OBJ, GLB or glTF and read back has the same vertices, normals, texture coordinates and faces bit for bit and in the same order, with 16-bit and 32-bit indices, however unusual the values;
mesh files written by other tools within the documented form are read with the values they state.''',
['inputs','configurations'],'every mesh, sizes on both sides of the 65535-vertex limit, special float values, animation frames, three formats',
'Tests use one cube-like mesh.',
['src/vpx/obj.rs','src/vpx/gltf.rs','src/vpx/expanded/primitives.rs'],[('OBJ reader/writer','src/vpx/obj.rs'),('GLB/glTF reader/writer','src/vpx/gltf.rs')],['decoded vertex and index buffers; files checked by an independent parser'],
tech='runtime monitor: bit-exact mesh round trips with independent OBJ/GLB parsers',note='Held on the meshes of this run.')

p('C21','Number, colour, unit and version conversions are exact inverses','''
Quantisation keeps every 8-bit value through a round trip, is monotone and clamps; colours survive every conversion between their representations; unit conversions are inverse within rounding and linear;
versions keep their number and parse and print consistently; matrix and vector operations agree with their definitions.''',
['inputs'],'every 8-bit value, every 24/32-bit colour, every version number, floats of all magnitudes',
'Tests pick a few values.',
['src/vpx/math/*.rs','src/vpx/color.rs','src/vpx/units.rs','src/vpx/version.rs'],[('conversion functions','src/vpx/math, src/vpx/color.rs, src/vpx/units.rs, src/vpx/version.rs')],['results against reference formulas'],
tech='runtime monitor: exhaustive and random evaluation against reference formulas',note='8-bit domains and version numbers exhaustively; the rest sampled.')

p('C22','Group order validation accepts exactly the loadable orders','''
The validation of item order reports a problem for exactly those items that refer to a group which no earlier entry of the item list defines (names compared exactly), in list order, and each report names the item, its type, its position and the group.''',
['inputs'],'every list of items with groups, nesting, unknown references, case variants and duplicates',
'Tests check a few lists.',
['src/vpx/gameitem.rs','src/vpx/mod.rs'],[('validate_part_group_order','src/vpx/gameitem.rs')],['result against a reference definition'],
tech='runtime monitor: random item lists against a reference definition',note='Held on the lists of this run.')

p('C23','Tables built and edited through the API stay consistent','''
Over every history of edits through the API (adding items, setting the script, adding or replacing images and so on), the table holds exactly what the history put there, its stored counters equal the number of things it holds,
names are matched the way Visual Pinball matches them, and the file written from it reads back equal with all streams the counters promise.''',
['histories'],'every sequence of API operations from any starting table',
'Tests add one item or image.',
['src/vpx/mod.rs'],[('add_game_item, set_script, add_or_replace_image','src/vpx/mod.rs'),('counters written with the game data','src/vpx/mod.rs')],['model after each operation; file after write'],
tech='runtime monitor: API histories against a reference model',note='Held on the histories of this run.')

p('C24','Material records agree with their legacy form','''
Converting materials between the current record and the legacy physics/visual records keeps every value the legacy form can hold, quantises the others as the format defines, and a table with either or both forms reads, writes and extracts with the materials it had.''',
['inputs'],'every material value, names at the length limit, every mix of forms',
'Tests convert one material.',
['src/vpx/material.rs','src/vpx/expanded/materials.rs','src/vpx/gamedata.rs'],[('From conversions, SaveMaterial encoding','src/vpx/material.rs')],['struct values and record bytes against reference formulas'],
tech='runtime monitor: conversions against reference formulas',note='Held on the materials of this run.')

p('C25','A failed write is always reported','''
When any file operation fails while a table is written, extracted, assembled or edited (no space, no permission, missing file), the operation returns an error: it never reports success for an output that is not complete, never panics and never hangs.''',
['fault_sequences'],'every operation of the library that writes, with a failure at every file-system call',
'Tests never inject a failure.',
['src/vpx/mod.rs','src/vpx/expanded/*.rs','src/vpx/export/*.rs','src/filesystem.rs'],[('io::Result propagation','src/vpx/**')],['result of each operation with the n-th call failing; output read back'],
tech='runtime monitor: fault injection through an instrumented file system and at the system calls of a traced child process; complete-output oracle',note='Call indices are sampled in the quick run (first and last ones always), and short runs are covered call by call.')

p('C26','Exported geometry matches the table','''
The geometry exported from a table is the geometry of the table: primitive vertices appear transformed as the item's position, size, rotation and object transform define, each visible item has its mesh once, hidden ones have none unless asked for, and units and axis conventions
are applied the same way to everything; the OBJ and glTF exports agree on the geometry of what both contain.''',
['inputs','configurations'],'every table with primitives and built-in shapes; export options',
'Tests look at single values of single items.',
['src/vpx/export/gltf_export.rs','src/vpx/export/obj_export.rs','src/vpx/mesh/*.rs'],[('transform composition','src/vpx/export/*.rs, src/vpx/math/matrix.rs')],['world-space vertices decoded from the exported files against a reference transform'],
tech='runtime monitor: independent geometry oracle on exported files',note='Held on the tables of this run, within float tolerance.')

p('C28','Exported materials, textures and lights are those of the table','''
Every part in an exported glTF or OBJ file looks as its item says: it has the colour, opacity, roughness and metalness of the material the item names (or the colour of the item itself), the pixels of the image it names and no other texture,
lets light through as the item says, and sits in the layer and under the data of its item; the lights exported are those of the table and of its general illumination, with their colour, place, reach and intensity.''',
['inputs','configurations'],'every table with visible items, every combination of materials, images and names, every export option',
'Tests look at the material of one or two parts; sharing of materials and textures between parts is a matter of combinations.',
['src/vpx/export/gltf_export.rs','src/vpx/export/obj_export.rs','src/vpx/material.rs','src/vpx/image.rs'],[('choice of the material of a mesh, shared texture materials','src/vpx/export/gltf_export.rs build_combined_gltf_payload'),('newmtl/usemtl pairs','src/vpx/export/obj_export.rs emit_mtl_block'),('point lights of the table','src/vpx/export/gltf_export.rs')],['materials, textures, lights and node tree decoded from the exported files against the items of the table'],
tech='runtime monitor: exported files decoded and compared with the look each item asks for',note='Held on the tables of this run; parts whose colours the exporter chooses itself are not compared.')

p('C27','The WebAssembly interface gives the results of the library','''
Extracting and assembling a table through the WebAssembly interface gives the same files and bytes as the native interface.''',
['inputs'],'every table','Tests do not run WebAssembly.',
['src/wasm.rs'],[('extract/assemble bindings','src/wasm.rs')],[],tech='')

NOT_APPLICABLE={'C27':'No WebAssembly runtime target is installed (no wasm32 std, no wasm-bindgen runner) and the bindings cannot run natively (JsValue panics off wasm), so no execution can be observed; the code it calls (expanded::write_fs/read_fs on a MemoryFileSystem, to_bytes/from_bytes) is monitored by C01, C03 and C16.'}
main=open(os.path.join(ROOT,'harness/src/main.rs')).read()
IMPL=set(re.findall(r'\("(C\d\d)", "',main))
with open(os.path.join(ROOT,'properties.jsonl'),'w') as f:
    for x in P:
        if x['id'] not in IMPL and x['id'] not in NOT_APPLICABLE: NOT_APPLICABLE[x['id']]='Its check is not built yet.'
        a={'files':x['files'],'mechanism':[{'name':n,'where':w} for n,w in x['mech']]}
        if x['observe']: a['observe_at']=x['observe']
        a['hook_needed']=x['hook']
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps({'id':x['id'],'title':x['title'],'statement':x['statement'],'quantifier':{'over':x['over'],'text':x['qtext']},'why_tests_cant':' '.join(x['why'].split()),'anchors':a},ensure_ascii=False)+'\n')
m={'version':1,'setup_cmd':'bash build.sh','hooks':{'guard':'none','enable':'no hook is needed: every monitor observes the public interface and the files it produces','source_commits':[]},'checks':[]}
for x in P:
    if x['id'] in NOT_APPLICABLE: continue
    m['checks'].append({'property':x['id'],'quick_cmd':'VERIF_TIER=quick bash check.sh '+x['id'],'thorough_cmd':'VERIF_TIER=thorough bash check.sh '+x['id'],'evidence_file':'evidence/%s.json'%x['id'],'technique':x['tech'],'level':x['level'],'level_note':x['note']})
m['not_applicable']=[{'property':k,'reason':v} for k,v in sorted(NOT_APPLICABLE.items())]
json.dump(m,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
open(os.path.join(ROOT,'MANIFEST.json'),'a').write('\n')
