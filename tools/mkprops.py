"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
# ------------------------------------------------------------------ protocol
prop("C01", "Every protocol call is recorded exactly once, in order, with its arguments",
 "While recording is on, every protocol call (object creation, method call or render) appends exactly one command to the active queue, in call order and with strictly increasing command ids; a constructor that delegates to its parent's constructor still counts as one call, and a call that itself makes further protocol calls (transform arithmetic, chaining or copying, which create objects) has those recorded like any other. The command names the method (the documented protocol name, e.g. visual.Segments for a Segments visual, whichever package the class comes from) and the id of the object it was called on. Its parameters hold every argument, positional, keyword or left to its default, under the parameter's name: plain values as given, objects by their id and under that name only.",
 ["inputs", "histories"], "all sequences of protocol calls on protocol and backend classes and on user classes using the command decorator, with any mix of positional, keyword and defaulted arguments",
 "The tests record three integer constructors and look only at how many commands there are; argument binding, defaults, keyword objects, nesting and method naming are never read back.",
 ["gsp/io/command.py", "gsp/core/*.py", "gsp/visual/*.py", "gsp/transform/*.py", "gsp_matplotlib/core/*.py", "gsp_matplotlib/visual/*.py"],
 [("command decorator", "gsp/io/command.py: command"), ("Command", "gsp/io/command.py: Command.__init__")],
 ["CommandQueue contents after each call"])
prop("C02", "Recording can be switched off, and replay never records",
 "A protocol call made while recording is off, or while the active queue is read-only, leaves every queue unchanged, and in every recording mode the call itself returns the same result and has the same effect. Switching recording back on, or read-only off, resumes recording exactly there. Running a queue adds no command to any queue and leaves its read-only flag as it was, also when one of its commands fails half way.",
 ["histories", "fault_sequences"], "all interleavings of protocol calls, record(True/False), read-only switches, queue runs and commands that raise during a run",
 "One test sets read-only before three calls; switching in the middle, global recording off, and failing replays are not exercised.",
 ["gsp/io/command.py"], [("record flag", "gsp/io/command.py: record, command.inner"), ("read-only guard", "gsp/io/command.py: CommandQueue.push, CommandQueue.run")],
 ["all queues before/after every step"])
prop("C03", "A queue name always denotes the same queue and queues are isolated",
 "Asking for a queue by name always returns the same queue for the same name and different queues for different names, whatever was asked before; \"active\" (or no name given as None) returns the most recently created queue without creating or switching anything. Protocol calls are appended to the active queue only. Emptying a queue or making it read-only affects that queue alone, and length, indexing and iteration reflect exactly the commands it holds, in order.",
 ["histories"], "all histories of creating, re-requesting, emptying, write-protecting and recording into several named queues, from a fresh interpreter on",
 "The tests only ever use one or two queues and never compare identities or contents between queues.",
 ["gsp/io/command.py"], [("named instances", "gsp/io/command.py: NamedSingleton"), ("active queue", "gsp/io/command.py: CommandQueue.__init__")],
 ["queue identity and contents after each step"])
prop("C04", "Arguments are type-checked and converted only when needed",
 "A protocol call whose argument, not itself a protocol object, is neither of (a subclass of) one of the documented types of that parameter, nor None, nor convertible by a registered converter is refused with ValueError and records nothing. An argument already of a documented type is recorded unchanged even if a converter to another documented type exists; otherwise what is recorded resolves, when the command is dumped or run, to the result of a registered converter from the argument's type (or else its closest base that has one) to a documented type.",
 ["inputs", "configurations"], "all combinations of documented parameter types (single, union), argument types (including subclasses) and registered converters",
 "One test checks one refusal and one float-to-int conversion.",
 ["gsp/io/command.py", "gsp/io/convert.py"], [("check loop", "gsp/io/command.py: command.inner"), ("delayed conversion", "gsp/io/convert.py: Converter")],
 ["exception type, recorded parameters, resolved values"])
prop("C05", "Converter registry: lookups follow registrations exactly",
 "After any sequence of registrations and removals, a value converts to a named type exactly when a converter is registered for its type, for a wildcard source or for one of its base types, preferring the value's own type; the conversion returns that function's result on the value. Registering a second converter for the same pair raises TypeError and keeps the first; removing one makes only that pair unavailable; asking for an unavailable conversion raises ValueError. (A text that names a type with a converter to the destination also stands for that type.)",
 ["histories", "inputs"], "all histories of register/unregister with single or tuple sources, all lookups by value or type, name or class",
 "The tests register and unregister a single pair.",
 ["gsp/io/convert.py"], [("converters table", "gsp/io/convert.py: register, unregister, is_registered, get_converter, convert")],
 ["conversion results and exceptions against a model table"])
prop("C06", "A data type's textual form round-trips",
 "The textual description of a scalar, fixed-size sub-array (of two items or more) or packed structured (one- or multi-field, with scalar or one-dimensional sub-array fields of two items or more) data type converts back to a data type with the same field names (any without the text's own separators, comma and colon) in the same order, kinds, byte order, counts and item size, so that reading the same bytes through it yields the same values.",
 ["inputs"], "all numpy scalar types and byte orders, sub-array sizes and field lists",
 "No test covers the dtype converters.",
 ["gsp/io/convert.py"], [("dtype converters", "gsp/io/convert.py: numpy_dtype_to_str, numpy_str_to_dtype")],
 ["converted dtype, bytes reinterpreted through both"])
prop("C07", "A JSON dump states exactly the queue it was asked for",
 "Dumping a queue to JSON yields one entry per command, in order, with its method, id, timestamp and every parameter: numbers, text, colours and None as themselves, referenced objects by id under a name ending in (id), binary data as base64 of exactly its bytes, matrices as their 16 values row by row, data types as text that converts back. It dumps the given queue even if that queue is empty or not the active one, gives the same content as text and as file, and leaves every queue, and the dumped values, unchanged. Objects that only come into existence through a conversion appear with the command creating them before the command that uses them.",
 ["inputs", "histories"], "all queues of commands over all parameter kinds, dumped in any state of the active queue",
 "One test dumps one command with one integer.",
 ["gsp/io/json.py", "gsp/io/convert.py", "gsp/__init__.py"], [("encoder", "gsp/io/json.py: default, dump_command, dump")],
 ["decoded JSON against the recorded history"])
prop("C08", "Saving and loading a queue loses nothing",
 "Loading a saved file yields a queue with the same commands in the same order, each with the same class, method, object id and parameters as stored in the file, whatever queue is saved (active or not) and whatever queue is loaded into; the target's previous content is replaced and no other queue changes. The one-call save and load take the format from the file extension unless one is given, refuse unknown formats with ValueError, and load starts from an empty object registry and returns the active queue.",
 ["inputs", "histories"], "all recorded queues, any target queue, any file name and format argument",
 "No test loads a file and checks what came back; the examples discard the result.",
 ["gsp/io/json.py", "gsp/__init__.py"], [("save/load", "gsp/io/json.py: save, load; gsp/__init__.py: save, load")],
 ["loaded commands against saved ones, all queues"])
prop("C09", "Replaying a queue rebuilds every object under its recorded id",
 "Running a recorded queue against a backend recreates each recorded object under its recorded id, and applies the recorded calls in order with references resolved to the recreated objects, so that its state equals the state the original reached. This holds when run directly (arrays then being seen with their present values), after saving and loading, in the same process or a fresh one, and when run again. Objects created after a replay never get or take over the id of a replayed object.",
 ["histories", "programs"], "all recorded programs over objects with references, updates and defaults, replayed in every way",
 "The stable tests replay no reference between objects and no module-qualified command; the replay tests in the suite fail at baseline for an unrelated signature reason.",
 ["gsp/io/command.py", "gsp/object.py", "gsp/io/json.py"], [("execute", "gsp/io/command.py: Command.execute"), ("ids", "gsp/object.py: Object.id")],
 ["registry and object state after replay against the original program"])
prop("C10", "A recorded scene replays to the same picture",
 "A scene recorded with the protocol classes, saved to JSON, loaded and run with the matplotlib backend draws the same thing as the same scene built directly with the backend: the same shapes at the same places with the same colours, widths and sizes in the same painting order. This covers canvases, viewports, all visuals, plain and tracked arrays, per-item and uniform attributes, transforms and model, view and projection matrices.",
 ["programs", "inputs"], "all scenes over the supported visuals, attribute forms, transforms and matrices",
 "The examples record scenes but nothing replays them; several of them fail to record at baseline.",
 ["gsp/io/command.py", "gsp/io/json.py", "gsp_matplotlib/core/buffer.py", "gsp_matplotlib/visual/*.py", "gsp/core/types.py"],
 [("record/replay pipeline", "gsp/io/command.py, gsp/io/json.py"), ("buffer reconstruction", "gsp_matplotlib/core/buffer.py: Buffer")],
 ["paint log of the replayed figure against the directly built one"])
prop("C11", "Object ids are unique and the registry follows them",
 "Every object gets an id that no other object has, had or was given, and, unless object registration is switched off, can be found under it in the object registry. Giving an object another, unused id moves its registry entry (the old id no longer resolves to it) and changes nothing else. Two objects are equal exactly when they have the same type and equal attributes other than the id.",
 ["histories"], "all histories of creations, registry resets, registration switches and id reassignments",
 "A test counts three registered objects.",
 ["gsp/object.py"], [("counter", "gsp/object.py: OID"), ("registry", "gsp/object.py: Object.__init__, id setter, __eq__")],
 ["registry and ids after each step against a model"])
prop("C12", "Text and ANSI dumps list every command and parameter",
 "The plain-text and the ANSI dump of a queue list every command of that queue once, in order, with its method, command id, object id, timestamp and each parameter's name and value (object references by id), for recorded and for loaded queues; written to a file they contain the same text. Removing the escape sequences from the ANSI dump gives the information of the text dump.",
 ["inputs"], "all queues",
 "No test calls these dumps; the plain-text one raises at baseline.",
 ["gsp/io/text.py", "gsp/io/ansi.py"], [("dump", "gsp/io/text.py: dump_command, dump; gsp/io/ansi.py: dump_command, dump")],
 ["parsed dumps against the queue"])
# ---------------------------------------------------------------- transforms
prop("C13", "Transform arithmetic is element-wise arithmetic",
 "An expression built from transforms and numbers (or, as right operand, arrays) with + - * / and negation, in either operand order, evaluates to the same values as the same expression on the operands' evaluated arrays. Building, copying or evaluating an expression changes none of its operands, an operand may be shared by several expressions, and changing it later does not change them. An expression is bound exactly when every transform in it is, and binding it again raises ValueError.",
 ["programs", "inputs"], "all expression trees over accessors, outputs and scalars",
 "The tests build four one-level expressions and evaluate none.",
 ["gsp/transform/operator.py", "gsp/transform/transform.py"], [("operators", "gsp/transform/operator.py"), ("operator overloads", "gsp/transform/transform.py")],
 ["evaluate() against numpy on the same tree"])
prop("C14", "Chaining and binding transforms never modify them",
 "Applying a transform to another returns a new transform that evaluates the inner one first, and applying it to a value binds a new transform at the end of the chain; the transforms it was made from keep their binding, chain, parameters and value. Binding an already bound transform raises ValueError. A copy evaluates like the original, derives from the same base (that of the base, if this is itself derived), and later changes to the one do not show in the other.",
 ["programs"], "all programs of chain, bind, copy and parameter-setting steps over accessors, measures, colormaps and outputs",
 "One test chains two empty transforms once.",
 ["gsp/transform/transform.py", "gsp/transform/accessor.py", "gsp/transform/colormap.py", "gsp/transform/measure.py", "gsp/transform/out.py"],
 [("copy-on-compose", "gsp/transform/transform.py: copy, __call__")], ["evaluate(), bound, base of every transform after each step"])
prop("C15", "Measures convert units exactly, for any dpi, size and aspect",
 "One inch equals dpi pixels, 72 points, 2.54 centimetres and 25.4 millimetres, a metre is 100 centimetres and a kilometre 1000 metres, for every resolution. Relative to a viewport, adding k units to a position moves it by that many pixels on screen along x and by the same along y, whatever the viewport's size and aspect, never changing z; relative to a canvas the result is the fraction of its size; with only a resolution given it is a number of pixels.",
 ["inputs", "configurations"], "all units, values (scalars and vectors), resolutions, canvas and viewport sizes, including after a resize",
 "The tests only construct the units; examples use pixels on one square viewport.",
 ["gsp/transform/measure.py", "gsp_matplotlib/core/viewport.py", "gsp_matplotlib/core/canvas.py"], [("scaling", "gsp/transform/measure.py")],
 ["evaluate() mapped to pixels through the real viewport"])
prop("C16", "Accessors and outputs select exactly the named components",
 "The x, y, z, w and r, g, b, a accessors and accessors with a field name evaluate to exactly that component or field of every item of the array they are bound to or of the transform they are chained on. An output transform evaluates to the named variable, or to the requested components of it in the requested order, and an unknown variable, key or component is an error, never another component.",
 ["inputs"], "all arrays (plain, structured, 2 to 4 components, any dtype), all keys and component strings including repeats and permutations",
 "The tests only construct accessors.",
 ["gsp/transform/accessor.py", "gsp/transform/out.py"], [("selection", "gsp/transform/accessor.py: evaluate; gsp/transform/out.py: evaluate")],
 ["evaluate() against direct indexing"])
prop("C17", "Colormaps map the stated range linearly onto the named colormap",
 "A colormap transform gives each value the colour of the named colormap at its relative position between the minimum and the maximum, the stated bounds (including 0) if given and the data's own otherwise, clamping values outside. Changing the colormap's name takes effect, and copies and chained uses keep name and bounds.",
 ["inputs"], "all value arrays, bounds, colormap names, and chains",
 "Examples use one colormap without checking colours.",
 ["gsp/transform/colormap.py"], [("normalisation", "gsp/transform/colormap.py: evaluate")], ["evaluate() against an independent lookup"])
# -------------------------------------------------------------------- memory
prop("C18", "A tracker's mirror always equals the tracked array",
 "A mirror maintained only from the notifications (offset and bytes) a tracked array or its views send is byte-for-byte equal to the array after every item, slice, strided, component or in-place arithmetic assignment, made through the array itself or through any view of it. Every notification carries the array's current bytes at its offset and stays inside the array.",
 ["histories", "inputs"], "all sequences of writes through arrays and nested views, all shapes and dtypes",
 "The tracked tests import a module that does not exist and never run.",
 ["gsp_matplotlib/glm/ndarray/tracked.py", "gsp_matplotlib/__init__.py"], [("set_data notifications", "gsp_matplotlib/glm/ndarray/tracked.py: __setitem__")],
 ["mirror fed by the tracker interface against the array"])
prop("C19", "The dirty region covers every modified byte",
 "Without a tracker, the dirty region of a tracked array always contains every byte modified since the last clear, through the array or any view of it, lies within the array, and is empty right after a clear; reads never extend it. For a single write after a clear, through basic indexing of a contiguous array, it is exactly the smallest contiguous block holding the written items.",
 ["histories", "inputs"], "all sequences of writes, reads and clears through arrays and nested views",
 "The tracked tests never run.",
 ["gsp_matplotlib/glm/ndarray/tracked.py"], [("extents", "gsp_matplotlib/glm/ndarray/tracked.py: _compute_extents, _update")],
 ["dirty against a byte-level diff"])
prop("C20", "Component swizzles read and write exactly the named components",
 "On vector arrays, v.xyzw and v.rgba style names (any selection, order or repetition of the components the vector has) read as those components in that order; several components read together are an array of their own. Assigning through such a name, with a scalar, one value per vector, one value or sequence per component or one row per vector (for vectors in a grid, a scalar or rows; where these forms are distinguishable by their sizes), changes exactly those components of every vector, as the corresponding explicit indexing would with the value as it was before the assignment, and leaves all others alone.",
 ["inputs", "histories"], "all vector types and sizes, component names, and value forms",
 "The swizzle tests import a module that does not exist and never run.",
 ["gsp_matplotlib/glm/ndarray/swizzle.py", "gsp_matplotlib/glm/ndarray/vectors.py"], [("attribute mapping", "gsp_matplotlib/glm/ndarray/swizzle.py")],
 ["array contents against explicit indexing"])
prop("C21", "Lists of variable-size items partition their data exactly",
 "A list built from nested sequences, from data plus a common size or from data plus individual sizes (data not empty) has as many items as stated, item i being exactly its share of consecutive data; the items together are the data, in order. Sizes that do not add up are refused with ValueError. Reading or assigning an item, a slice of items or several items by index touches exactly those items' data. Read as an array, of its own or another element type, a list is its data, and an array asked as a copy shares no memory with it.",
 ["inputs", "histories"], "all data arrays, partitions, and item accesses including negative indices and slices",
 "The vlist tests import a module that does not exist and never run.",
 ["gsp_matplotlib/glm/ndarray/ragged.py", "gsp_matplotlib/glm/vlist.py"], [("item table", "gsp_matplotlib/glm/ndarray/ragged.py")],
 ["items against a list-of-lists model"])
prop("C22", "Vector and matrix constructors and conversions keep shape, type and convention",
 "Vector and matrix constructors return arrays of the stated count, component count and element type, and single items when no count is given. Converting to 2, 3 or 4 components keeps the components in order, adds z=0 and w=1 when missing, divides by w when dropping it, groups flat data consecutively, honours a requested element type, and never modifies or aliases its input, while viewing as a vector shares memory with its input when no type change is asked.",
 ["inputs"], "all constructors, inputs of 1 to 4 components in all numeric dtypes and layouts",
 "The vec234 tests import a module that does not exist and never run.",
 ["gsp_matplotlib/glm/vec234.py", "gsp_matplotlib/glm/mat234.py", "gsp_matplotlib/glm/ndarray/vectors.py", "gsp_matplotlib/glm/ndarray/matrices.py"],
 [("conversions", "gsp_matplotlib/glm/vec234.py: to_vec2/3/4, as_vec2/3/4")], ["results against the stated convention"])
prop("C23", "A buffer is a faithful view of the data it was given",
 "A backend buffer built from raw bytes, a memory view or base64 text exposes an array with the stated element type and number of items holding exactly those bytes, and its length is the stated count. Updating it at a byte offset, within its size, changes exactly those bytes and nothing of the memory it was built from; an array asked as a copy of the buffer shares no memory with it. An array used where a buffer is expected becomes a buffer with the same number of items, element type and bytes as the array at that time.",
 ["inputs", "histories"], "all element types, item shapes, counts, byte offsets and update sequences",
 "No test reads a buffer's content.",
 ["gsp_matplotlib/core/buffer.py", "gsp_matplotlib/__init__.py", "gsp/core/buffer.py"], [("array view", "gsp_matplotlib/core/buffer.py: Buffer.__array__, set_data")],
 ["np.asanyarray(buffer) against a byte model"])
# ---------------------------------------------------------------------- math
prop("C24", "Affine matrices are exactly the transformations they are named for",
 "Translation, scaling and rotation matrices move every homogeneous point as defined: rotations are right-handed by the given degrees about the given axis, keep lengths and the axis fixed, and the axis-specific forms agree with the general one. Aligning two directions gives a rotation taking the first onto the second for every pair of non-zero vectors, including parallel and opposite ones. The transpose and element type options give the transposed matrix and the requested type.",
 ["inputs"], "all angles, axes, vectors, dtypes and the transpose flag",
 "No stable test touches these functions.",
 ["gsp_matplotlib/glm/glm.py"], [("matrices", "gsp_matplotlib/glm/glm.py: translate, scale, xrotate, yrotate, zrotate, rotate, align")],
 ["images of random points against the geometric definition"])
prop("C25", "Projection, viewport and viewing matrices map their volumes as specified",
 "Frustum and orthographic matrices map the eight corners of any (also off-centre) view volume onto the corners of the normalised cube, near to -1 and far to +1; perspective is the symmetric frustum of that field of view and aspect; the viewport matrix maps the normalised cube onto the given pixel rectangle and depth. The viewing matrix is a rigid motion putting the eye at the origin, the centre on the negative z axis and the up vector in the upper half of the yz plane. The transpose option transposes all of them, and the ready-made camera combines them into a finite projection that puts the origin of the scene at the centre of the view.",
 ["inputs"], "all volumes, eye/centre/up configurations, dtypes and the transpose flag",
 "Examples use only symmetric volumes and never look-at.",
 ["gsp_matplotlib/glm/glm.py"], [("matrices", "gsp_matplotlib/glm/glm.py: frustum, perspective, ortho, viewport, lookat, camera")],
 ["images of the volume corners"])
prop("C26", "The trackball stays a pure rotation and follows the drag",
 "After any history of drags and orientation settings the trackball's matrix is a rotation (orthonormal, determinant one, no translation). A drag rotates by exactly the angle and axis its two points span on the virtual sphere, a zero drag changes nothing, and setting theta and phi gives the product of the rotation about z by phi and the one about x by theta, and reads back the same within a quarter turn.",
 ["histories", "inputs"], "all drag histories (including long ones) and orientation settings",
 "No test uses the trackball.",
 ["gsp_matplotlib/glm/trackball.py"], [("quaternion update", "gsp_matplotlib/glm/trackball.py: drag_to, _rotate"), ("renormalisation", "gsp_matplotlib/glm/trackball.py: drag_to")],
 ["model matrix after each step against an independent quaternion model"])
prop("C27", "Geometry helpers produce valid meshes and fits",
 "The sphere has all vertices at the given radius and a watertight surface of the stated subdivision, the cube and the platonic solids have their documented numbers of vertices and of triangles (the dodecahedron's twelve pentagons being cut into triangles) with equal edges (the tetrahedron excepted), and every face index refers to a vertex. Fitting and centring vertices, normalising vectors, clamping, separating front (counter-clockwise) from back faces and reading a mesh file of triangles do what they say for every input, without changing it.",
 ["inputs"], "all radii and subdivisions, vertex sets, triangles and mesh files",
 "No stable test covers them; two of them raise at baseline.",
 ["gsp_matplotlib/glm/shapes.py", "gsp_matplotlib/glm/glm.py"], [("shapes", "gsp_matplotlib/glm/shapes.py"), ("fit/center/normalize/clamp/frontback/mesh", "gsp_matplotlib/glm/glm.py")],
 ["mesh invariants and direct recomputation"])
prop("C28", "SVG path data is parsed as the SVG specification says",
 "For path data made of move, line, horizontal, vertical, cubic, smooth cubic, quadratic, smooth quadratic, arc and close commands, absolute or relative, with implicit repetition and any separators, the parsed path visits the points, control points and arcs the SVG specification defines, up to one uniform scaling, shift and vertical flip that fits it in the unit square around the origin.",
 ["inputs"], "all well-formed path strings over these commands",
 "The parser is only fed the twelve built-in marker shapes.",
 ["gsp/core/svg.py", "gsp/core/types.py"], [("parser", "gsp/core/svg.py: _parse_path, arc_path")], ["parsed outline against an independent evaluator"])
# ------------------------------------------------------------------- backend
prop("C29", "A canvas renders at its exact pixel size and reaches its target",
 "Rendering a canvas without target returns a height by width array of RGBA pixels, for every size (pixels or a measure) and resolution; with a target it writes an image of that size showing the same picture. Pixels no viewport covers are fully transparent, the reported size is the requested one (that of the window once this is resized), and rendering again gives the same pixels.",
 ["inputs", "configurations"], "all canvas sizes, resolutions, targets and contents",
 "Examples render one 512x512 canvas and do not look at the pixels.",
 ["gsp_matplotlib/core/canvas.py"], [("render", "gsp_matplotlib/core/canvas.py: render, size")], ["pixel arrays, decoded image files"])
prop("C30", "A viewport covers exactly its rectangle of the canvas",
 "A viewport at x, y with a width and height, each in integer pixels, fractions of the canvas or a measure, covers exactly that rectangle (from the bottom left) with its background colour and nothing outside, and its contents are clipped to it; it reports its size in pixels. The view spans -1 to +1 along the shorter side and proportionally more along the longer, so that equal lengths are drawn equal along x and y, and all of this holds again after the canvas is resized.",
 ["inputs", "configurations", "histories"], "all rectangles in all unit forms, several viewports per canvas, resize sequences",
 "Examples use two fixed layouts and check no pixel.",
 ["gsp_matplotlib/core/viewport.py"], [("layout", "gsp_matplotlib/core/viewport.py: _update, size, xlim, ylim")], ["drawn background rectangles, clip, limits before/after resize"])
prop("C31", "Each item is drawn once, where it projects, with its own attributes",
 "Rendering a visual draws each of its pixels, points, markers or segments exactly once, at the viewport position its coordinates project to under projection times view times model (with the perspective division), with the colours, widths and size given for that very item, or the common ones (segments with the line cap given for all). Depth ordering never exchanges attributes between items.",
 ["inputs", "configurations"], "all item counts, positions (2 or 3 components), matrices, and per-item, uniform or computed attributes",
 "Examples draw fixed scenes and compare nothing.",
 ["gsp_matplotlib/visual/pixels.py", "gsp_matplotlib/visual/points.py", "gsp_matplotlib/visual/markers.py", "gsp_matplotlib/visual/segments.py"],
 [("permutation of attributes", "gsp_matplotlib/visual/*.py: render")], ["paint log joined with the input by unique colours"])
prop("C32", "Nearer items are painted over farther ones",
 "Within a visual, items are painted from the farthest to the nearest depth after projection, so that where they overlap the nearer one shows; a path, polygon or segment is placed by the mean depth of its vertices (items of equal depth in any order). This holds for every visual, viewport and matrix combination.",
 ["inputs"], "all visuals, positions and matrices with distinct depths",
 "No test looks at overlap.",
 ["gsp_matplotlib/visual/*.py"], [("sort", "gsp_matplotlib/visual/*.py: render")], ["order of the paint log against projected depths"])
prop("C33", "Rendering is repeatable, current and free of side effects",
 "Rendering a visual again, on the same or on other viewports, draws the same picture once per viewport; it uses the data, attributes and matrices of the latest call (the last ones given for that viewport when omitted after a first render there) and leaves what it drew on other viewports alone. It modifies neither the positions, attributes and matrices it is given nor other visuals, and after a canvas resize the picture is again what rendering afresh gives.",
 ["histories"], "all sequences of render calls, data changes, matrix changes and resizes over several visuals and viewports",
 "Examples render each visual once.",
 ["gsp_matplotlib/visual/*.py", "gsp/visual/visual.py"], [("per-viewport collections", "gsp_matplotlib/visual/*.py: render"), ("stored matrices", "gsp/visual/visual.py: render")], ["paint log after each step, byte snapshots of inputs"])
prop("C34", "Paths and polygons follow their partition, in every form of it",
 "The same partition given as a common size, as individual sizes or as lists of indices draws the same paths or polygons: item i joins exactly its own vertices in order, with the line colour, width and (polygons) fill given for item i or common to all, and paths with the line cap they were given. Vertices that are in no item, such as those left over by a common size, show nothing. Each is drawn once, and index lists may reuse or reorder vertices.",
 ["inputs"], "all partitions of all vertex sets, in all three forms, with per-item and uniform attributes",
 "Examples draw regular paths only.",
 ["gsp_matplotlib/visual/paths.py", "gsp_matplotlib/visual/polygons.py", "gsp/visual/paths.py", "gsp/visual/polygons.py"],
 [("partition", "gsp_matplotlib/visual/paths.py, polygons.py: render")], ["paint log against the expected polylines"])
prop("C35", "Attributes computed from rendering outputs see the current projection",
 "During and after rendering, the output variable for screen positions holds, in item order, the projected coordinates of the current render (x and y in view coordinates; for points and markers the depth inverted so that larger is nearer), for paths and polygons also the mean of each item, and for segments the inverted mean depth of each, so that an attribute given as a transform expression of it (colour mapped, scaled or offset) is drawn with the values that expression has on those coordinates, item by item, and follows every matrix change.",
 ["inputs", "histories"], "all expressions over output variables, all matrices, repeated renders",
 "Examples use one such expression and compare nothing.",
 ["gsp/visual/visual.py", "gsp/transform/out.py", "gsp_matplotlib/visual/*.py"], [("variables", "gsp/visual/visual.py: set_variable, eval_variable")], ["drawn attributes against the expression evaluated on independently projected positions"])
prop("C36", "Markers show their own shape, rotation and size",
 "Every marker is drawn with the outline of its own type, rotated counter-clockwise by its own angle in degrees about its position and scaled with its own size, in uniform or per-item form; without an axis it faces the viewer whatever the matrices are.",
 ["inputs"], "all marker types, angles, sizes, uniform or per item, any matrices",
 "One example draws fixed markers and compares nothing.",
 ["gsp_matplotlib/visual/markers.py", "gsp/core/types.py"], [("marker outlines", "gsp_matplotlib/visual/markers.py: generate_markers")], ["drawn outlines against independently transformed shapes"])
prop("C37", "Rendering leaves recording and array tracking as they were",
 "A render call on a backend visual records exactly one command (a failing one at most one), whatever arrays it creates internally, rendering a canvas records none, and array tracking works afterwards exactly as before, also when the render fails; array tracking notifications continue to reach their buffers.",
 ["histories", "fault_sequences"], "all sequences of successful and failing render calls mixed with tracked array creation and writes",
 "No test looks at the command queue or tracking after rendering.",
 ["gsp_matplotlib/visual/*.py", "gsp_matplotlib/__init__.py"], [("tracking switch", "gsp_matplotlib/visual/*.py: render")], ["queue contents and tracker activity after each step"])
prop("C38", "The example recorder shows its own block and exactly the commands of it",
 "The documentation example recorder, used as a context manager on one line of a source file, prints the title and, unless told otherwise, three tabs: the Python code, which is the block under that line with its indentation removed, blank lines kept, and nothing before or after the block; the ANSI dump; and the JSON dump of the active queue. Earlier commands and registered objects are discarded when the block starts and numbering restarts, so that the dumps state exactly the commands the block issued, with command and object ids counted from 1. Only the requested formats are printed, and an error in the block comes through.",
 ["programs"], "all blocks (indentation, blank lines, comments, nesting), positions in the file, titles and choices of formats",
 "No test uses it; the documentation is built by hand from it.",
 ["gsp/io/mkdocs.py"], [("block extraction", "gsp/io/mkdocs.py: __exit__"), ("fresh state", "gsp/io/mkdocs.py: __enter__"), ("printing", "gsp/io/mkdocs.py: dump")], ["printed tabs against the written block and the queue"])
prop("C39", "Printing queues, commands and transforms states what they are",
 "The text of a queue states its name, whether it is active and whether it is read-only, its number of commands and, in order, one line per command with its number, class, object id and, unless it creates the object, its method; dumping a command to the console adds one line per parameter with its name and type. The text of a transform states its class, its id, the id of the transform it derives from and what it is chained to (by id) or bound to, and that of an expression both operands. A command needs an object id and refers to objects given to it by their ids, and printing changes, creates and records nothing.",
 ["inputs"], "all recorded, loaded and hand-made commands, queues in any state, and transforms",
 "No test prints them.",
 ["gsp/io/command.py", "gsp/transform/transform.py", "gsp/transform/operator.py", "gsp/io/text.py", "gsp/io/ansi.py"], [("queue and command text", "gsp/io/command.py: CommandQueue.__str__, Command.__init__, __str__, dump"), ("transform text", "gsp/transform/transform.py, gsp/transform/operator.py: __repr__")], ["printed text against the objects' state"])
prop("C40", "The interactive camera shows the scene as the mouse moved it",
 "Connected to a viewport, a perspective camera's model matrix is the rotation it was created with followed by a trackball drag for every motion of the mouse within the viewport since a button was pressed there, in the viewport's data coordinates, and nothing else; an orthographic camera never turns. A scroll within the viewport multiplies the zoom by 0.9 or 1.1 within its bounds and the viewport shows that range with its proportions. Each function connected for an event is called exactly once per such event, with the viewport and the current matrices, and a disconnected camera no longer reacts.",
 ["histories"], "all histories of mouse events inside and outside of the viewport, in both modes, connected for any events",
 "No test sends mouse events.",
 ["examples/common/camera.py", "gsp_matplotlib/glm/trackball.py"], [("camera", "examples/common/camera.py: Camera")], ["matrices, limits and calls against composed rotations"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
