import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
NOT="The 18 existing tests only cover FGD/colour string formatting; "
p("M01","A map is accepted exactly when its lines nest and its faces are well formed",
"Processing a map file succeeds exactly when every significant line occurs where it may (an opening brace at file level starts an entity and inside an entity starts a brush, a closing brace closes the innermost open scope, key/value lines occur only directly inside an entity, face lines only inside a brush), every face line is well formed, every entity has a classname, and exactly one entity is the worldspawn. Otherwise the whole call returns an error and yields no scene, however much of the file was good. A file that simply ends inside an open entity or brush is treated as if it were closed there.",
["inputs","histories"],"every sequence of map lines of any length, including every prefix of a valid map",
NOT+"no test parses a single map, and acceptance is a property of every line history, not of sample files.",
["src/map/quake/parser.rs","src/map/quake/tokenizer.rs","src/map/quake/types/brush_plane.rs","src/lib.rs","src/layer_filter/mod.rs"],
[("scope state machine","src/map/quake/parser.rs::run"),("line classification by first character","src/map/quake/tokenizer.rs::run"),("face line parser","src/map/quake/types/brush_plane.rs::BrushPlane::new")],
["quarchitect::run result (Ok/Err)"],[("scope","innermost open brace: file, entity or brush","src/map/quake/parser.rs")])
p("M02","Accepted maps are read faithfully, line by line",
"For an accepted map, the entities, their key/value pairs, their brushes and each brush's faces seen by every later stage are exactly those written in the file, in file order, with nothing lost, duplicated, merged or attached to the wrong entity or brush; a key repeated within one entity takes its last value. Comment lines (starting with '/'), blank lines, lines starting with any other unrecognised character, key/value lines whose quoted key is not followed by an opening quote for the value, and LF versus CRLF line endings have no influence. Keys and values are kept verbatim, including case and inner spaces; texture names are lower-cased.",
["inputs","histories"],"every accepted map text: any number and order of entities, keys, brushes, faces, comments and line endings",
NOT+"nothing checks what is read from a map; faithfulness quantifies over all texts and all interleavings of significant and ignored lines.",
["src/map/quake/parser.rs","src/map/quake/tokenizer.rs","src/map/quake/types/entity.rs","src/map/quake/types/brush_plane.rs"],
[("appends to the last entity/brush","src/map/quake/parser.rs::run"),("line split and quote split","src/map/quake/tokenizer.rs::run")],
["actors, properties, collision shapes and surfaces in the returned scene"])
p("M03","No file content can crash or hang processing",
"For every content of the map file (malformed or truncated lines, non-UTF-8 bytes, missing or repeated worldspawn, entities without classname, non-numeric ids, degenerate faces, repeated or cyclic group references) processing either returns a scene or returns an error. It never panics, aborts, overflows the stack or fails to terminate. A missing or unreadable file is an error too.",
["inputs","fault_sequences"],"every byte sequence as map file, with up to 64 levels of group nesting",
NOT+"no test feeds a map at all, and totality is a statement about all inputs, mostly malformed ones.",
["src/lib.rs","src/map/quake/tokenizer.rs","src/map/quake/parser.rs","src/map/quake/types/brush_plane.rs","src/geo_builder","src/layer_filter/mod.rs","src/scene_tree/mod.rs"],
[("error returns","src/lib.rs::run"),("recursion over groups","src/scene_tree/mod.rs::build_entity")],
["quarchitect::run outcome: scene, error, panic, abort, timeout"])
p("M04","Every supported face-line format is read, and only those",
"A face line consists of three parenthesised points, a texture name, texture placement in either the standard form (two offsets) or the Valve form (two bracketed axes with offsets), rotation, two scales, and then 0, 1, 3 or 6 extra numbers (plain, Hexen 2, Quake 2, Daikatana). Every such line is accepted whatever whitespace separates its fields and whatever decimal notation its numbers use, each field keeps its own meaning, and only the 6-number form contributes a colour (its last three numbers) to the face's vertices. Any other number of extras, a missing field or an unparsable number makes the map an error.",
["inputs"],"all face lines: both placement forms, all extra-data forms, all decimal notations, and their malformed variants",
NOT+"no test parses a face line; the format has eight variants and a per-field error path.",
["src/map/quake/types/brush_plane.rs","src/map/types/uv.rs"],
[("positional field parser","src/map/quake/types/brush_plane.rs::BrushPlane::new"),("extra data arity dispatch","src/map/quake/types/brush_plane.rs::ExtraData")],
["Ok/Err of quarchitect::run; positions, uvs and colours of mesh surfaces"])
p("G01","A brush's vertices are exactly the corners of its half-space intersection",
"For every brush whose faces bound a convex solid (coordinates within +-4096, corners and faces not closer than the 0.001 tolerance), the vertices produced for each face are exactly the corners of the solid that lie on that face's plane, each once, up to floating-point rounding. This does not depend on the order of the faces, on which three points of a plane were used to write it, or on the brush's position; faces that only touch or miss the solid add no area.",
["inputs"],"all convex brushes: any number of faces, any face order, any choice of plane points, corners where more than three faces meet, redundant faces, no two faces in one plane",
NOT+"no test builds geometry; hull correctness quantifies over all plane arrangements.",
["src/geo_builder/brush_plane/vertices.rs","src/geo_builder/brush_plane/mod.rs","src/map/quake/types/brush_plane.rs"],
[("three-plane intersection","src/geo_builder/brush_plane/vertices.rs::intersect_brush_planes"),("hull membership","src/geo_builder/brush_plane/vertices.rs::vertex_in_hull"),("corner de-duplication","src/geo_builder/brush_plane/mod.rs::build")],
["vertices of mesh surfaces, points of convex collision shapes"])
p("G02","The triangles of a brush form its closed, consistently wound surface",
"For every such brush the triangles of each face cover that face's convex polygon exactly once (n-2 triangles for n corners) and every triangle is wound clockwise seen from outside the solid. Taken over all faces, every edge of the solid is used exactly once in each direction, so the surface is closed without holes or overlaps.",
["inputs"],"all convex brushes as in G01, for faces with any number of corners",
NOT+"triangulation and winding are global properties of the generated index buffers, which no test looks at.",
["src/geo_builder/brush_plane/mod.rs"],
[("angular sort about the face centre","src/geo_builder/brush_plane/mod.rs::build"),("triangle fan","src/geo_builder/brush_plane/mod.rs::build")],
["indices and vertices of mesh surfaces and concave collision"])
p("G03","Texture coordinates follow the face's own projection",
"Every vertex of a textured face carries the texture coordinate its position has under that face's placement: standard placement projects along the axis closest to the face normal (z first, then y, then x on ties), rotates by the face's rotation, divides by texture size and scale and adds the offset divided by texture size; Valve placement projects on the two written axes, divides by texture size and scale and adds the offset divided by texture size. The texture's own width and height are used, per face, and untextured surfaces carry no coordinates.",
["inputs"],"all face orientations, rotations, scales (non-zero, either sign), offsets and texture sizes, in both placement forms",
NOT+"no test computes a texture coordinate.",
["src/geo_builder/brush_plane/uvs.rs","src/geo_builder/brush_plane/mod.rs"],
[("standard projection","src/geo_builder/brush_plane/uvs.rs::standard_uv"),("Valve projection","src/geo_builder/brush_plane/uvs.rs::valve_uv")],
["uvs of mesh surfaces"])
p("G04","Vertex normals: flat by default, smoothed within the phong angle",
"Without '_phong' '1' on the entity every vertex of a face has the face's outward unit normal. With it, each vertex has the normalised sum of its own face's normal and the normals of all other faces of its brush meeting it there, restricted, when '_phong_angle' is a number, to faces whose normal deviates from its own face by at most that angle (0.01 degree slack). Smoothing is controlled per entity and never crosses brushes.",
["inputs","configurations"],"all brushes without two faces in one plane, with any number of faces meeting at a corner, all phong settings, several entities with different settings in one map",
NOT+"no test looks at a normal.",
["src/geo_builder/brush_plane/normals.rs","src/geo_builder/brush_plane/mod.rs"],
[("phong normal","src/geo_builder/brush_plane/normals.rs::phong_normal")],
["normals of mesh surfaces"])
p("G05","Tangents follow the face's texture placement",
"Every vertex of a Valve-placed face has the written u axis as tangent, and handedness opposite in sign to the triple product of normal, u axis and v axis. Every vertex of a standard-placed face has as tangent the projection's base axis (x for z- and y-facing faces, y for x-facing ones) turned about the normal by minus the rotation times the facing sign (sign of n.z, minus sign of n.y, sign of n.x), and as handedness that facing sign times the sign of the vertical scale.",
["inputs"],"all face orientations, rotations and scale signs, both placement forms",
NOT+"no test looks at a tangent.",
["src/geo_builder/brush_plane/tangents.rs"],
[("standard tangent","src/geo_builder/brush_plane/tangents.rs::standard_tangent"),("Valve tangent","src/geo_builder/brush_plane/tangents.rs::valve_tangent")],
["tangents of mesh surfaces"])
p("G06","A degenerate face never poisons the scene",
"A face whose three points do not span a plane contributes nothing: the other faces of its brush, other brushes and other entities get exactly the geometry, origins and collision they would have without that face. With finite, in-range input (and non-zero scales and texture sizes), every position, normal, tangent, texture coordinate, origin and collision point in the scene is finite.",
["inputs"],"all maps with any number of degenerate faces (repeated, collinear points) at any place",
NOT+"no test builds geometry, degenerate or not.",
["src/geo_builder/brush_plane/vertices.rs","src/geo_builder/brush_plane/mod.rs","src/geo_builder/brush/mod.rs","src/map/quake/types/brush_plane.rs"],
[("determinant guard","src/geo_builder/brush_plane/vertices.rs::intersect_brush_planes")],
["all numbers in the returned scene"])
p("G07","Entity origins come from the origin key or the mean of brush centres",
"An entity with an 'origin' key is centred at its three space-separated numbers (a missing or unparsable component counts as 0). Any other entity is centred at the mean of its brushes' centres, where a brush's centre is the mean of the centres of its faces that have corners and a face's centre is the mean of its corners; when no brush has a corner the centre is zero. Every visual or concave collision geometry node of an entity has that centre as its origin (zero for worldspawn layers). Brushes moved out to a worldspawn layer still count for the worldspawn's own centre.",
["inputs"],"all entities: with and without origin key, with any number of brushes and faces",
NOT+"no test computes a centre.",
["src/geo_builder/entity/mod.rs","src/geo_builder/brush/mod.rs","src/geo_builder/brush_plane/mod.rs"],
[("entity centre","src/geo_builder/entity/mod.rs::build"),("brush centre","src/geo_builder/brush/mod.rs::build")],
["origins of scene nodes, centres of collision shapes"])
p("L01","Every worldspawn brush lands in exactly one place: worldspawn or one layer",
"A worldspawn brush belongs to the '*water0' or '*slime0' layer exactly when every one of its faces carries that texture and the texture's size is known; every other brush of the map stays with its own entity, and brushes of entities other than the worldspawn are never moved. A layer appears in the scene, right after the worldspawn, with the name, type, component, visual and collision geometry of its definition, exactly when the game data holds one definition for that texture and the layer has geometry to show. No brush is counted in both places.",
["inputs","configurations"],"all mixtures of layered, partly layered and ordinary brushes, all layer definitions (none, one, several), texture known or unknown",
NOT+"no test runs the layer filter.",
["src/layer_filter/mod.rs","src/scene_tree/mod.rs"],
[("successive partition by texture","src/layer_filter/mod.rs::run"),("layer actor","src/scene_tree/mod.rs::build_worldspawn_layer")],
["surfaces and collision of worldspawn and layer actors in the scene"])
p("S01","The scene tree mirrors the map's groups, each entity exactly once",
"Every entity that names no group is a top-level node, the worldspawn always being one; every entity that names a group ('_tb_group') is a child of the first entity (worldspawn first, then file order) whose group id ('_tb_id') equals it, to any nesting depth. Each entity whose chain of groups ends at a top-level entity appears exactly once, all others not at all. A node's origin is relative to its parent entity, so that summing origins from the root gives the entity's own centre.",
["inputs","histories"],"all group graphs: nested, forward and backward references, dangling, repeated ids and cycles",
NOT+"no test builds a scene tree; the statement is about all reference graphs.",
["src/scene_tree/mod.rs"],
[("recursive child collection","src/scene_tree/mod.rs::build_entity"),("top-level filter","src/scene_tree/mod.rs::run")],
["actor nodes of the returned scene, their nesting and origins"],
[("_tb_id/_tb_group","group declaration and membership","entity properties")])
p("S02","Top level and siblings keep a fixed order",
"The first node of the scene is the worldspawn, wherever it stands in the file; then come the worldspawn layers ('*slime0' before '*water0'), then the remaining top-level entities in file order. The children of an entity are its visual geometry, then its collision geometry, then its group members in file order.",
["inputs"],"all maps: any number and order of entities, groups and layers",
NOT+"no test builds a scene tree.",
["src/scene_tree/mod.rs","src/layer_filter/mod.rs"],
[("chained iterators","src/scene_tree/mod.rs::run"),("worldspawn moved to the front","src/layer_filter/mod.rs::run")],
["order of nodes in the returned scene"])
p("S03","Nodes get exactly what the first matching entity definition says",
"Each entity's node is named by its classname and takes its type, component and property application mode from the first game-data definition with that exact classname; an entity without definition is a placeholder without component, with plain property application and without geometry. Visual geometry is attached only to brush definitions that ask for a mesh, collision geometry only in the form (convex or concave) the definition asks for, and neither is attached when there is nothing to show.",
["inputs","configurations"],"all game-data configurations (definitions missing, repeated, point or brush, all combinations of settings) and all entities",
NOT+"no test looks up a definition.",
["src/scene_tree/mod.rs","src/game_data/types"],
[("definition lookups","src/scene_tree/mod.rs::get_entity_type, get_entity_component_class, get_entity_property_application_type, get_entity_visual_geometry, get_entity_collision_geometry")],
["name, type, component, application mode and child kinds of actors"])
p("S04","Entity properties are typed by the FGD definition, with defaults",
"An entity whose classname has an FGD definition (the first one with that name) gets exactly one property per defined property, of the defined kind (integer, float, vector, string, colour, choices, flags, target source, target destination): the map's value parsed as that kind, or the definition's default when the key is missing or does not parse. In addition it gets its group bookkeeping keys when present ('_tb_id', '_tb_group' as integers when they are integers, '_tb_type', '_tb_name' as strings) and nothing else; an entity without FGD definition gets no properties.",
["inputs","configurations"],"all FGD definitions and all raw values, parsable or not, for each of the nine property kinds",
NOT+"they cover how definitions are printed, not how map values are typed by them.",
["src/scene_tree/mod.rs","src/game_data/types/properties.rs","src/game_data/forge/property.rs"],
[("property conversion","src/scene_tree/mod.rs::get_entity_properties")],
["Actor.properties in the scene"])
p("S05","Visible faces are split by texture, and blacklisted ones never show",
"The visual geometry of a mesh entity has one surface per distinct known texture of its shown faces plus at most one untextured surface for faces whose texture size is unknown, and each surface contains exactly the shown faces with its texture. A face is not shown when its texture is on the face blacklist, or when all faces of its brush have textures on the brush blacklist; every other face with corners is shown exactly once. Blacklists do not affect collision geometry or worldspawn layers.",
["inputs","configurations"],"all assignments of textures to faces, all blacklists, all texture-size tables",
NOT+"no test builds a surface.",
["src/scene_tree/mod.rs","src/scene_tree/predicates","src/types/texture.rs"],
[("texture collection","src/scene_tree/mod.rs::get_brush_entity_visual_geometry"),("predicates","src/scene_tree/predicates")],
["surfaces of visual geometry"])
p("S06","Merging duplicate vertices loses nothing",
"In every surface all per-vertex arrays (positions, normals, tangents, and coordinates and colours when present) have the same length, indices come in triples and are in range, and dereferencing the triangles gives every triangle of every contained face with that face's own position, normal, tangent, texture coordinate and colour at each corner. A surface has colours exactly when every contained face has one, and coordinates exactly when its texture's size is known. Within a brush no two vertices of a surface agree in all attributes (a face's own colour counts even when the surface has none).",
["inputs"],"all sets of faces sharing positions and partly or fully equal attributes, e.g. smoothed brushes, coplanar or repeated faces, several brushes per entity",
NOT+"no test looks at an index buffer; the failure needs particular coincidences of attributes.",
["src/scene_tree/mod.rs","src/scene_tree/predicates/vertex.rs"],
[("vertex filter and index remap","src/scene_tree/mod.rs::filter_vertices"),("index offsets","src/scene_tree/mod.rs::gather_brush_geometry, gather_entity_geometry")],
["vertices, attributes and indices of mesh surfaces"])
p("S07","Convex collision has one shape per brush with that brush's corners",
"For an entity or layer with convex collision the collision geometry consists of one shape per brush that belongs to it, in order, each with the brush's centre and exactly the set of the brush's corner positions without exact repetition. All brushes count, whatever their textures or blacklists; without brushes there is no collision geometry.",
["inputs"],"all entities and layers with any brushes",
NOT+"no test builds collision geometry.",
["src/scene_tree/mod.rs"],[("convex collision","src/scene_tree/mod.rs::get_entity_convex_collision")],
["CollisionGeometry::Convex nodes"])
p("S08","Concave collision is the complete triangle surface of the entity",
"For an entity or layer with concave collision the collision geometry is a single shape centred at the entity (the world origin for layers) whose triangles are exactly those of all faces of all its brushes, each once and with the same winding, expressed with valid indices and without two equal positions within one brush. All brushes and faces count, whatever their textures or blacklists; without corners there is no collision geometry.",
["inputs"],"all entities and layers with any brushes",
NOT+"no test builds collision geometry.",
["src/scene_tree/mod.rs","src/scene_tree/predicates/vertex.rs"],
[("concave collision","src/scene_tree/mod.rs::get_entity_concave_collision"),("vertex filter and index remap","src/scene_tree/mod.rs::filter_vertices")],
["CollisionGeometry::Concave nodes"])
p("S09","The same input always gives the same scene",
"Processing the same map file with the same configuration gives the same scene every time, in the same and in different processes: same nodes in the same order with bit-identical numbers (property tables compared as tables). Adding an entity, brush or layer does not change the nodes of unrelated entities.",
["inputs","schedules","histories"],"all inputs, repeated runs and processes (each with its own hash seeds)",
NOT+"run-to-run variation only shows when the same input is run repeatedly, which no test does.",
["src/lib.rs","src/scene_tree/mod.rs","src/layer_filter/mod.rs"],
[("ordered containers on the output path","src/layer_filter/mod.rs::run, src/scene_tree/mod.rs::run")],
["the returned scene, compared across runs"])
p("W01","WAD textures are read completely, in directory order, each with its own data",
"Reading a well-formed WAD2 or WAD3 file returns exactly one texture per directory entry of texture type ('C' or 'D') whose directory name is on the whitelist (all of them without whitelist), in directory order. Each has the lower-cased name and size of its own texture header, exactly the requested number of mip levels, the pixel data of each level as stored in the file one after the other from the first level's offset, and for WAD3 its own 256-colour palette (stored two bytes after the last level); WAD2 textures carry no palette.",
["inputs","configurations"],"all well-formed WAD files (any number, order, size and placement of textures and other lumps), all whitelists, 1 to 4 mip levels",
NOT+"no test reads a WAD.",
["src/wad/mod.rs","src/wad/header.rs","src/wad/entry.rs","src/wad/mip_texture.rs","src/wad/mip_level.rs","src/wad/palette.rs"],
[("directory scan","src/wad/mod.rs::read_directory"),("mip slices and palette","src/wad/mod.rs::read_mip_data"),("order-preserving parallel collect","src/wad/mod.rs::read_mip_data")],
["quarchitect::wad::read_textures"])
p("W02","Parallel WAD reading gives the sequential result under every schedule",
"However the parallel readers of a WAD file are scheduled and however the operating system splits their reads, the result is the same as reading the textures one after the other: same textures, same order, same pixels and palettes. One reader's position in the file never affects another's.",
["schedules","fault_sequences"],"all interleavings of reader steps, any number of worker threads, reads delivered in pieces of any size or interrupted",
NOT+"no test reads a WAD, and schedule-dependence does not show in a single run.",
["src/wad/mod.rs"],
[("one file handle per reader","src/wad/mod.rs::read_mip_data"),("exact reads","src/wad/mod.rs")],
["quarchitect::wad::read_textures under perturbed schedules"],
[("file position","per-reader offset into the WAD","src/wad/mod.rs::read_mip_data")])
p("W03","Damaged WAD and palette files give an error, never a crash or wrong data",
"For every byte content of a WAD or palette file, reading returns an error or exactly the data that the bytes at the recorded places hold: a missing file, unknown signature, truncated header, directory, texture header, pixel or palette data, or an offset or size that leads outside the file is an error. It never panics, aborts, hangs, allocates room for data the file does not contain, or returns textures with missing or made-up pixels.",
["inputs","fault_sequences"],"all byte sequences: every truncation point, corrupted counts, offsets and sizes up to 2^32-1, read errors",
NOT+"no test reads a WAD, damaged or not.",
["src/wad/mod.rs","src/wad/header.rs","src/wad/entry.rs","src/wad/mip_texture.rs","src/wad/palette.rs"],
[("error returns","src/wad/mod.rs"),("offset arithmetic","src/wad/mod.rs::read_directory, read_mip_data")],
["result of read_textures and read_palette"])
p("W04","RGB conversion maps every pixel through the right palette",
"Converting an indexed texture to RGB keeps name, size and number of mip levels and turns every pixel of every level into the palette colour of its index, in order. A texture with its own palette always uses that palette, even when another is supplied; a texture without one uses the supplied palette and without any the conversion is an error.",
["inputs","configurations"],"all textures, palettes and combinations of own and supplied palette",
NOT+"no test converts a texture.",
["src/wad/mod.rs","src/wad/mip_data.rs","src/wad/palette.rs","src/wad/color.rs"],
[("palette choice","src/wad/mod.rs::TextureIndexed::into_rgb"),("lookup","src/wad/mip_data.rs::MipDataRGB::from_indexed")],
["TextureIndexed::into_rgb, read_palette"])
p("F01","FGD output states exactly the given definitions",
"The FGD text of a set of definitions contains, in order, the name comment, one include line per include and one block per entity class with its class keyword, all metadata (base classes, colour as 0-255 integers with fractions dropped, size bounds), class name, description and one entry per property in order with name, type keyword, description and default (flags have no description, choices no long description); choices list every choice in order with the selected default, and flags list every flag in order with bit value 2^i and 1 exactly when the default includes that bit. Saving writes exactly that text.",
["inputs"],"all definition sets with texts free of quotes and line breaks, choice defaults that index a choice, and at most 31 flags",
"The existing tests compare one example per construct; combinations, counts, order, negative and fractional numbers and flag masks are unbounded.",
["src/game_data/forge/game_data.rs","src/game_data/forge/entity.rs","src/game_data/forge/metadata.rs","src/game_data/forge/property.rs","src/game_data/forge/choice.rs","src/types/color.rs"],
[("string rendering","src/game_data/forge/*.rs ToString")],
["forge::GameData::to_string, save"])
p("F02","Numeric codes of the game-data enums are stable and round-trip",
"The numeric codes exchanged with engines are fixed: class type base/point/solid = 0/1/2, collision none/convex/concave = 0/1/2, visual none/mesh = 0/1, component none/script = 0/1, entity type placeholder/class/prefab = 0/1/2, metadata base/colour/size = 0/1/2. Where a code can be converted back, the conversion returns the same value, and two different values never share a code.",
["inputs"],"all enum values and all valid codes",
NOT+"no test converts an enum.",
["src/game_data/types/collision_type.rs","src/game_data/types/visual_type.rs","src/game_data/types/component_type.rs","src/game_data/types/entity_type.rs","src/game_data/forge/entity.rs","src/game_data/forge/metadata.rs"],
[("Into/From implementations","src/game_data")],
["Into<i64>, From<i64>, i32::from(Metadata)"])
p("D01","The map diff is a minimal edit script",
"Diffing two map files reports as removed a subsequence of the first file's lines and as added a subsequence of the second file's (lines that tokenise alike count as equal), such that removing the one and inserting the other turns the first file into the second. The script is minimal: together they are as few lines as any such script, so identical files give an empty diff, repeated lines are counted with multiplicity, and first, last and empty positions count like any other. If one of the files is missing or not text, the comparison ends with an error instead of a script.",
["inputs"],"all pairs of files, including empty ones and files with repeated lines",
NOT+"no test calls the diff; minimality is a statement about all pairs of sequences.",
["src/lib.rs","src/map/quake/tokenizer.rs"],
[("longest common subsequence table and walk back","src/map/quake/tokenizer.rs::diff_tokens")],
["text printed by quarchitect::run_diff"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    if len(x['title'])>80: print('long',x['id'])
    n=x['statement'].count('. ')+1
    if n>3: print('sent',x['id'],n)
print(len(P))
