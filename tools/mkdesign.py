"""Writes DESIGN.md from tools/design_head.md, the checks, the notes below and the record of planted bugs."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (what is observed, oracle, bounds and what is left out)
NOTES = {
 "C01": ("the active queue after every call", "a reference log: one entry per call, built from the call as made (signature binding done by the harness with its own table of documented names)", "arguments that objects of the protocol accept; no concurrent calls"),
 "C02": ("contents, order and flags of all queues after every step; results and object states of the same script in each recording mode", "a model of queues and flags", "failures injected as raising commands and unknown classes or methods"),
 "C03": ("identity, contents, length, indexing and iteration of all queues", "a dictionary of lists; fresh interpreters for the very first request", "names are texts"),
 "C04": ("exception or recorded parameter, and what it resolves to", "the type relation plus the table of registered converters", "arguments that are protocol objects themselves are recorded by id unchecked (not claimed); defaults are checked like arguments"),
 "C05": ("result, exception and the function used", "a table updated by the same registrations", "wildcard against base priority is left open (only the own type comes first)"),
 "C06": ("the data type read back, and the same random bytes read through both", "numpy on the original type", "packed structures, one-dimensional sub-arrays of two items or more"),
 "C07": ("the decoded dump (text and file), all queues and values before and after", "an independent reader that follows creations, references and buffer contents", "JSON numbers: finite and non-finite floats as Python's json writes them"),
 "C08": ("the file, every loaded command, all queues, a second save", "the stored JSON itself and the recorded commands", "one process; save to writable places"),
 "C09": ("every object found under its recorded id after the replay", "a twin built directly with the same calls", "later updates of tracked arrays are seen by a direct run (their present values)"),
 "C10": ("every path painted when the replayed figure is drawn (and pixels in part)", "the log of the same scene built directly with the backend", "matplotlib's Agg renderer; no vertex colours (refused by the backend)"),
 "C11": ("ids, registry and equality after every step", "a set of all ids seen and a dictionary of registered objects", "unused ids are assigned; hashes are not claimed"),
 "C12": ("the dumps parsed line by line, files, queues before and after", "the commands themselves", "layout is only used to split commands and parameters"),
 "C13": ("the value of every expression after each step, operands before and after", "numpy on the operands' values", "number operands; arrays as right operands; division by values away from zero"),
 "C14": ("binding, chain, base, value and parameters of every transform after every step", "functional values composed in the harness", "acyclic chains; plain Operator objects cannot be copied"),
 "C15": ("evaluated values; offsets on screen in the paths the renderer receives", "the definition of the unit with dpi, size and aspect", "viewports at least a few pixels wide"),
 "C16": ("evaluated arrays or the error", "direct indexing of the plain array", "single components of an output are columns"),
 "C17": ("evaluated and drawn colours", "the table of the named matplotlib colormap at the relative position", "non-constant data unless bounds are given; within one entry of the table at the borders"),
 "C18": ("every notification on arrival, the mirror after every write", "byte equality with the array", "writes through assignment and in-place operators"),
 "C19": ("`dirty` after every step", "byte difference to a snapshot; the bytes the same write touches in a plain array", "exactness for basic indexing of contiguous arrays"),
 "C20": ("arrays read and written, and the original after a read array was overwritten", "explicit indexing of a plain array", "value forms that sizes tell apart"),
 "C21": ("every item, the whole data, errors", "a list of lists", "assignments keep sizes; data not empty"),
 "C22": ("shape, type, class, values, memory sharing", "the stated convention in double precision", "1 to 7 rows, all numeric types"),
 "C23": ("array, length and bytes after each update, and the source", "a byte array updated at the same offsets", "updates inside the buffer"),
 "C24": ("images of points", "Rodrigues' formula in double precision", "single-precision tolerance"),
 "C25": ("images of corners, interior points and the eye frame", "the definition of the volume", "non-degenerate volumes; up not along the line of sight"),
 "C26": ("the model matrix after every step", "rotation matrices composed in double precision", "angles within a quarter turn; 400 steps"),
 "C27": ("vertices, faces, edges; results of the helpers", "mesh invariants and direct recomputation", "triangle meshes with positive indices"),
 "C28": ("the parsed outline, segment by segment", "an independent evaluator written from the SVG specification", "well-formed data"),
 "C29": ("arrays, decoded files, directory, sizes", "the requested size and the first picture", "up to 700 pixels a side, png, svg and jpg"),
 "C30": ("background outlines, pixels, limits, clipping, drawn positions, after each resize", "rectangles computed from the arguments", "non-empty rectangles"),
 "C31": ("every path the renderer receives", "projection of every item by the definition, joined with its own attributes", "w > 0; distinct depths when order matters"),
 "C32": ("order of the painted paths; colours seen in stacks", "order of depths computed from the matrices", "distinct depths"),
 "C33": ("everything shown by every viewport after every step; bytes of everything given", "what the latest calls have to show, kept by a model", "two canvases, three visuals, a dozen steps"),
 "C34": ("every path the renderer receives", "polylines of the stated vertices; the forms against each other", "up to 20 items, also of one or two vertices"),
 "C35": ("drawn attributes, output variables read back", "the expression evaluated by the harness on independently projected positions", "positive sizes"),
 "C36": ("each outline moved, turned and scaled back", "the corners, symmetries and tips of the icons written down in the check", "sizes of half a pixel to some hundred"),
 "C38": ("the text printed, tab by tab, and the queue", "the generated block and the commands it issues by construction", "blocks of generated statements, on one `with` line; blocks holding text lines left of their indentation are outside the claim"),
 "C39": ("the text of queues, commands and transforms, and their state before and after", "the attributes of the objects printed", "a command written with a stream other than the one given is outside the claim"),
 "C40": ("matrices, zoom, limits and the calls of the update functions after every event sent through matplotlib's dispatch", "drags composed in double precision, scroll factors", "events two pixels or more away from the viewport's border; the example code is not a target of planted bugs, so it was tried by hand"),
 "C37": ("queue, active tracker, trackers of new arrays, bytes their buffers receive, after every step", "a model of recording and tracking", "failures: unknown variables, refused attributes, indices out of range, wrong viewports and matrices"),
}


def constant(path, name):
    for node in ast.parse(open(path, encoding="utf-8").read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            return ast.literal_eval(node.value)
    return None


with open(os.path.join(ROOT, "tools", "design_head.md"), encoding="utf-8") as stream:
    out = [stream.read().rstrip(), "", "## Property by property", ""]
with open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") as stream:
    properties = [json.loads(line) for line in stream]
for p in properties:
    path = os.path.join(ROOT, "gspv", p["id"].lower() + ".py")
    observed, oracle, bounds = NOTES[p["id"]]
    out += [f"### {p['id']} — {p['title']}", "",
            f"*Workload and coverage rule:* {constant(path, 'RULE')}.", "",
            f"*Observed:* {observed}. *Oracle:* {oracle}. *Bounds:* {bounds}.", "",
            f"*Beyond the tests:* {p['why_tests_cant']}", ""]

out += ["## Planted bugs", "",
        "Every change below breaks the property it is filed under, passes the stable tests, and has a demonstration",
        "(`seeded/<id>/demo.sh`). The last column lists the checks that report it in their quick run (the property's own",
        "check was always run; others where tried).", "",
        "| bug | needs | caught by |", "| --- | --- | --- |"]
record = {}
path = os.path.join(ROOT, "tools", "seeded.json")
if os.path.exists(path):
    with open(path, encoding="utf-8") as stream:
        record = json.load(stream)
for folder in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    name = os.path.basename(folder)
    with open(os.path.join(folder, "meta.json"), encoding="utf-8") as stream:
        meta = json.load(stream)
    out.append(f"| {name} | {meta['needs']} | {', '.join(record.get(name, ['not caught']))} |")
out += ["", open(os.path.join(ROOT, "tools", "design_tail.md"), encoding="utf-8").read().rstrip(), ""]
with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as stream:
    stream.write("\n".join(out))
