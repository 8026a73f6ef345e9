#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from one table.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

prop("C01", "Equal requests give the same symbol under every schedule",
  "Building a QR code for the same text and the same effective options always has the same outcome: the same refusal or exactly the same modules, whatever the interleaving of the library's own background work, the number of processors, other callers working at the same time, or what the process built before. Options which are repeated, reordered or out of range and therefore ignored do not change the outcome, and neither does passing the text as a string, bytes or a type derived from them. Every later look at a delivered symbol shows the same symbol.",
  ["schedules", "histories", "inputs"],
  "all interleavings of the goroutines which evaluate the eight masks and of up to six clients, for requests of every mode, level, version and option combination, in cold and warm processes",
  "The masks are evaluated by eight goroutines whose order decides ties and first results; the tests run each text once under whatever order the Go scheduler picks.",
  ["qrcode.go", "mask.go", "mask_evaluation.go", "encoder.go", "encoder_option.go", "version.go"],
  [("mask goroutines and the collection of their results", "qrcode.go:masking"), ("option application", "encoder_option.go"), ("cached version tables", "version.go:analyzeVersion, version_cfg.go")],
  ["Matrix handed to a Writer by Save", "error of New/NewWith"])

prop("C02", "Delivered symbols conform to the standard and read back as the given text",
  "Whenever a QR code is delivered, its modules form a symbol of ISO/IEC 18004 Model 2 - finder, timing and alignment patterns, format and version information, block structure, error correction, terminator and padding - which a reader decodes without any correction to exactly the bytes of the given text. It has the requested error correction level, mode and version; without a requested version it is the smallest one that holds the text, but not below a requested minimum, and the automatic mode is the most compact of numeric, alphanumeric, kanji (for ideographs) and byte that covers the text. Texts which the documentation says can be encoded are accepted. The matrix a writer gets shows this symbol the same in every view - bitmap, iterations by row and by column, single rows and columns, copies - and gives each module the type of the part of the symbol it belongs to; modules which differ in type or value print differently.",
  ["inputs", "schedules", "configurations"],
  "all texts up to the capacity of every version (1-40), level (L, M, Q, H) and mode, including texts exactly at and just below each capacity, under seeded interleavings",
  "Unit tests encode a few short strings and compare with nothing but themselves; 160 version/level tables and four mode encoders meet at capacity edges nobody samples.",
  ["qrcode.go", "encoder.go", "chardet.go", "version.go", "version_cfg.go", "matrix.go", "matrix_type.go", "mask.go"],
  [("bit stream construction", "encoder.go:Encode"), ("character analysis", "chardet.go"), ("block interleaving and error correction", "qrcode.go:dataEncoding/arrangeBits"), ("placement of function patterns", "qrcode.go:prefillMatrix"), ("version choice", "version.go")],
  ["Matrix handed to a Writer by Save"])

prop("C03", "Damage within the correction capacity of the level never loses the text",
  "For every version and error correction level, a delivered symbol can be damaged in as many codewords per block as the level can correct according to the standard - bursts, scattered modules, whole codewords, with data and check codewords hit alike - and up to three bits in each copy of the format and version information or one of their two copies as a whole, and still reads as the given text. ",
  ["inputs", "fault_sequences", "configurations"],
  "all 160 version/level combinations, all modes, seeded damage patterns up to the correction limit of every block",
  "No existing test damages a symbol; a wrong generator polynomial, block split or interleaving produces symbols that look right and decode only while undamaged.",
  ["qrcode.go", "version_cfg.go", "version.go", "matrix.go"],
  [("error correction per block", "qrcode.go (go-reedsolomon), version_cfg.go"), ("format and version information", "version.go:formatInfo/verInfo")],
  ["Matrix handed to a Writer by Save"])

prop("C04", "The chosen mask has the lowest penalty of the eight",
  "The mask of a delivered symbol is one whose penalty score by the four rules of the standard is not higher than that of any of the other seven masks on the same data. ",
  ["inputs", "schedules"],
  "all requests, whatever the order in which the eight candidates are evaluated",
  "The tests compare single penalty functions on tiny matrices; the choice among eight concurrently evaluated candidates over real symbols is never compared with a reference.",
  ["mask.go", "mask_evaluation.go", "kmp_variant.go", "qrcode.go"],
  [("penalty rules 1-4", "mask_evaluation.go:evaluation"), ("candidate selection", "qrcode.go:masking")],
  ["format information of the delivered symbol"])

prop("C05", "Concurrent use is free of data races and equals sequential use",
  "Any number of goroutines may build symbols, save shared symbols through writers of their own, share option values and read matrices at the same time, also while the process is cold or debugging is on: no two of these accesses race, nothing deadlocks or panics, and every result equals the one the same requests give one after another. ",
  ["schedules", "histories"],
  "all interleavings, preempted between statements, of two to five clients over shared symbols, options and first-use initialisation",
  "The tests are sequential; races on shared tables, caches, option values or matrices need particular interleavings and do not show in single-threaded runs.",
  ["qrcode.go", "mask.go", "version.go", "debug.go", "matrix.go", "writer/standard/writer.go", "writer/standard/image_option.go", "writer/standard/image_option_api.go"],
  [("goroutines per mask joined before return", "qrcode.go:masking"), ("option values applied to a private copy", "writer/standard/image_option.go, writer.go"), ("lazily built tables and once-only initialisation", "version.go, debug.go")],
  ["race detector under the simulated schedule", "results of every operation"])

prop("C06", "Save reports success exactly when every byte was accepted",
  "Saving through any of the writers returns nil if and only if the destination accepted every byte of the output: an encoder that fails, a destination that refuses or takes only part of a write, a file that cannot be created or a full disk is reported as an error and never as a panic. The error of a custom writer reaches the caller, and a save whose destination behaved does not fail. ",
  ["fault_sequences", "schedules", "inputs"],
  "refusals at any byte and any write, permanent or passing, short writes, failing opens, full disks and failing encoders, for every writer and option combination",
  "The tests write to working files only; no test makes a write fail, let alone at each possible place.",
  ["qrcode.go", "writer.go", "writer/standard/writer.go", "writer/standard/image_format.go", "writer/compressed/writer.go", "writer/file/writer.go"],
  [("error propagation from Writer.Write through Save", "qrcode.go:Save"), ("image encoding", "writer/standard/image_format.go, writer/standard/writer.go:drawTo"), ("paletted PNG output", "writer/compressed/writer.go"), ("text output", "writer/file/writer.go")],
  ["return value of Save", "bytes at the destination"])

prop("C07", "A saved picture shows the symbol, as the options describe it",
  "The output of a successful save is a complete picture of the requested format and of the documented size in which every module of the symbol appears at its place with the documented colour - foreground for dark, or the gradient's colour at that place along its angle, background or transparent for light - for every block width, border, colour, shape, encoder, halftone picture and logo with its size limit and safe zone; outside the symbol there is only background and, where it fits, the logo, unchanged and centred, with what is below it showing where it is translucent. The circle and the ready-made shapes fill their part of each dark module, in the size or ratio asked for, and join it to its dark neighbours as they describe. Custom shapes are asked to draw each module exactly once with its true neighbours, and the writer's reported dimensions equal the real ones. The compressed, text-file and terminal writers show the same symbol.",
  ["inputs", "configurations", "schedules"],
  "all combinations of options of the writers and symbols of all versions, under seeded interleavings and map orders",
  "The tests draw a handful of pictures and look at none of them; options interact (transparency, halftone, shapes, logo, safe zone, borders) in combinations no test opens.",
  ["writer/standard/writer.go", "writer/standard/image_option.go", "writer/standard/image_option_api.go", "writer/standard/image_qr_shape.go", "writer/standard/gradient.go", "writer/standard/shapes/blocks.go", "writer/standard/shapes/finders.go", "writer/standard/imgkit/process.go", "writer/compressed/writer.go", "writer/file/writer.go"],
  [("drawing", "writer/standard/writer.go:draw"), ("option application", "writer/standard/image_option_api.go"), ("shapes and neighbours", "writer/standard/image_qr_shape.go, writer/standard/shapes"), ("dimensions", "writer/standard/writer.go:Attribute")],
  ["bytes written", "calls to custom shapes"])

prop("C08", "A writer is closed exactly once, after its last write, on every path",
  "Whenever Save is called with a writer, that writer and the destination below it are closed exactly once, after the last write and before Save returns, whether saving succeeds, fails at any point or a writer, encoder, shape or destination panics; a panic passes on to the caller as it is. No file a writer opened stays open, a file the caller lent to the text writer is not closed by it, and an error of the closing (other than that it was closed before) is reported at least in the log and does not undo the result of the writing. ",
  ["fault_sequences", "schedules", "histories"],
  "success, failure at any byte, refusal to close and panics at seeded places, in histories of saves by several clients through every kind of writer",
  "No test observes Close at all, none makes a write, an encoder or a Close fail or panic.",
  ["qrcode.go", "writer.go", "writer/standard/writer.go", "writer/compressed/writer.go", "writer/file/writer.go"],
  [("deferred close in Save", "qrcode.go:Save"), ("Close of the writers", "writer/standard/writer.go, writer/compressed/writer.go, writer/file/writer.go")],
  ["calls received by recording writers and sinks", "open handles of the simulated file system"])

prop("C09", "Saving never changes symbols, options or later results",
  "Saving leaves no trace: the same symbol saved again - through a fresh or a reused writer, with shared or separate option values, after saves that failed or panicked, beside other saves, by writers which scribble over what they were given - gives exactly the same output as the first time. Saving changes neither the symbol nor the option values, pictures, colour lists and other inputs of the caller. ",
  ["histories", "schedules", "fault_sequences"],
  "seeded histories of saves by one to three clients over shared symbols, writers and options, interspersed with failing and hostile writers",
  "Tests save once and end; state kept in options, writers, matrices or package variables only shows in the second and later saves of one process.",
  ["qrcode.go", "matrix.go", "writer/standard/writer.go", "writer/standard/image_option.go", "writer/standard/image_option_api.go", "writer/compressed/writer.go"],
  [("writers receive a copy of the matrix", "qrcode.go:Save, matrix.go:Copy"), ("drawing reads options without changing them", "writer/standard/writer.go:draw")],
  ["bytes written by equal saves", "inputs of the caller before and after"])

prop("C10", "A file saved by path holds exactly the output, and no other file changes",
  "After a successful save to a path the file there holds exactly the bytes of the output - nothing of an older, longer file remains - and nothing else in the file system was created, changed or removed, whatever failed or was killed before. A path that cannot be opened is an error and leaves what was there untouched; after disk faults end, or the process was killed in the middle of a save and started again, saving to the same path gives the full output. ",
  ["crash_points", "fault_sequences", "histories"],
  "open, write and close errors, full disk and process kills at seeded places, over missing, shorter and longer old files, with several clients and relative, absolute and unusual paths",
  "The tests create fresh files in a healthy directory; old longer content, failing disks and killed processes never occur in them.",
  ["writer/standard/writer.go", "writer/compressed/writer.go", "qrcode.go"],
  [("file creation", "writer/standard/writer.go:New"), ("file creation", "writer/compressed/writer.go:New"), ("close on every path", "qrcode.go:Save")],
  ["simulated file system before and after"])

prop("C11", "Pictures read from files are used as they are, or left out as a whole",
  "A logo or halftone picture given by file name has exactly the effect of handing over the same picture decoded, and if the file is missing, unreadable, damaged, cut short, of another format than the option names, or fails while it is read, exactly the effect of not giving it: saving succeeds, shows the symbol and never panics. The files are read when the option is made, closed again on every path and never changed. ",
  ["fault_sequences", "inputs", "schedules"],
  "seeded damage (truncation, bit flips, other formats, empty and missing files, directories) and open and read errors at any offset, in files which change between saves",
  "The tests use two intact sample files; no test damages one or makes reading fail.",
  ["writer/standard/image_option_api.go", "writer/standard/imgkit/io.go", "writer/standard/imgkit/process.go", "writer/standard/writer.go"],
  [("reading logo files", "writer/standard/image_option_api.go:WithLogoImageFilePNG/JPEG"), ("reading the halftone picture", "writer/standard/image_option_api.go:WithHalftone, imgkit/io.go:Read")],
  ["bytes written", "open handles"])

prop("C12", "The terminal shows the symbol, waits for a key and is always restored",
  "Saving to a terminal shows the symbol with a light border as far as the screen reaches, keeps it until a key is pressed - other events such as resizes, mouse or interrupts do not end it - and then restores the terminal. A terminal that cannot be opened or that refuses to show the picture makes Save fail, without waiting for a key and without panic, and a terminal that was opened is closed exactly once and not used afterwards. ",
  ["histories", "fault_sequences", "schedules"],
  "seeded sequences of terminal events of all kinds, screen sizes, failing initialisation and refresh, one or several saves, and nobody pressing a key",
  "There is no test of the terminal writer; it needs a screen and somebody pressing keys.",
  ["writer/terminal/writer.go", "qrcode.go"],
  [("event loop", "writer/terminal/writer.go:Write"), ("closing", "writer/terminal/writer.go:Close, qrcode.go:Save")],
  ["cells shown by the modelled terminal", "order of terminal calls"])

prop("C13", "Every call returns and leaves nothing running",
  "Every call of the library - building, saving, reading, drawing, the terminal once a key is pressed, the WebAssembly function - returns in a bounded number of steps under every interleaving and fault, and when all calls have returned no goroutine the library started is left behind. ",
  ["schedules", "fault_sequences", "histories"],
  "all operations mixed by up to three clients, and crowds of seventy, with failing disks, sinks, terminals, damaged pictures, invalid requests, panicking writers, and destinations which call the library or wait for other clients, under seeded schedules, up to the largest version",
  "A lost result, a blocked send or an unjoined goroutine needs a particular order of the mask goroutines and of errors; the tests neither control the order nor look for goroutines left behind.",
  ["qrcode.go", "mask.go", "debug.go", "writer/terminal/writer.go", "writer/standard/writer.go", "cmd/wasm/main.go"],
  [("mask goroutines and their channel", "qrcode.go:masking"), ("loops over versions", "version.go"), ("event loop", "writer/terminal/writer.go")],
  ["scheduler: tasks, blocked operations and steps"])

prop("C14", "Debugging never changes results or the user's files",
  "Switching debugging on, by call or by environment, changes no symbol, no output and no result, and a disk that refuses the debugging drafts - no directory, no space, open, write or close errors - makes no call fail or panic. The drafts are the only files it touches, all are closed, on a disk which takes them they are complete pictures of which the one of the chosen mask shows the symbol, and without debugging (including environment values which do not switch it on) nothing is written or logged as debugging output. ",
  ["configurations", "fault_sequences", "schedules"],
  "debugging by call, by each environment value, late and off, with every kind of disk fault at seeded places, by one to three clients",
  "The tests never switch debugging on with a disk that fails; in them the draft files are simply written.",
  ["debug.go", "qrcode.go", "mask.go", "utilities.go"],
  [("debug switch", "debug.go:debugEnabled/SetDebugMode"), ("drafts", "debug.go:debugDraw")],
  ["results of all operations", "simulated file system and log"])

prop("C15", "The command ends with status 0 exactly when it did what was asked",
  "The command line tool writes the symbol of its argument to the named output as the flags describe it (format by file extension, block width, borders, circle, transparency, halftone), or shows it on the terminal, and only then ends with status 0. Invalid flags or values, a text that cannot be encoded, an output that cannot be created or written and a failing terminal end it with a non-zero status and a message, without panic or hang, and no other file is touched. ",
  ["inputs", "fault_sequences", "crash_points"],
  "seeded command lines (all flags, spellings, values, good and bad), old output files, disk and terminal faults and kills of the process",
  "The command has no tests at all; exit status, messages and files are only visible from outside the process.",
  ["cmd/qrcode/main.go", "cmd/qrcode/app.go"],
  [("flags and action", "cmd/qrcode/app.go"), ("exit status", "cmd/qrcode/main.go")],
  ["exit status, standard streams and simulated file system"])

prop("C16", "The WebAssembly function answers every call with a well-formed result",
  "Every call of the JavaScript function, with whatever arguments - missing, of wrong types, partial, out of range, objects whose properties throw - returns an object that says whether it succeeded, with either an error text or a base64 picture; content which is no string, or a width outside of 0 to 255, gets an error; no call ends the program or disturbs later calls. A successful result is a picture of the symbol of the given text as the given options describe it. ",
  ["inputs", "histories", "schedules"],
  "seeded histories of calls with good, bad, partial and hostile arguments in one running program",
  "The tests cover the option types only, outside a JavaScript host; a panic in a callback ends the program for all later calls, which no test observes.",
  ["cmd/wasm/main.go", "cmd/wasm/types.go"],
  [("argument decoding", "cmd/wasm/types.go"), ("result construction and callback", "cmd/wasm/main.go")],
  ["values returned to the modelled JavaScript host"])

prop("C17", "What cannot be encoded is refused with an error and disturbs nothing",
  "A request whose text is too long for every allowed version, has characters outside the requested mode, or names a mode that does not exist is refused with an error - never a panic, a hang, an empty or a truncated symbol - for every combination of option values, and at exactly the capacity limit of every version the text is still accepted. Refused requests do not disturb others before, after or at the same time. ",
  ["inputs", "schedules", "histories"],
  "texts just above capacity in every mode and level, invalid characters, arbitrary option values, mixed with good requests by up to four clients",
  "Tests check a few refusals one by one; boundaries of all versions and refusals beside concurrent good requests are never exercised.",
  ["qrcode.go", "encoder.go", "encoder_option.go", "version.go", "chardet.go"],
  [("capacity analysis", "version.go"), ("character validation", "chardet.go, encoder.go"), ("error results", "qrcode.go:New/NewWith")],
  ["error of New/NewWith"])

prop("C18", "Gradients run through their stops in proportion",
  "The colour of a gradient at a point is the linear interpolation of the two neighbouring stops by the position of the point's projection on the gradient's direction, and equals a stop's colour at its position. ",
  ["inputs"],
  "all stops, directions and points",
  "One gradient is drawn by an example; the arithmetic between stops is not compared with anything.",
  ["writer/standard/gradient.go"],
  [("interpolation", "writer/standard/gradient.go")])

prop("C19", "Pictures turn grey, black and white, or other sizes without losing anything",
  "The picture helpers turn a picture into grey (each pixel by the standard grey model), into black and white (white exactly where the grey is above the threshold), and into another size (by the given scaler, bilinear by default) without moving, losing or inventing content, wherever the bounds of the picture lie and whatever kind of picture it is. The result is a picture of its own with the bounds of the source or the requested ones: the source is not changed, a delivered result stays as it is whatever is processed later, and any number of goroutines may process the same picture at the same time. A panic of the caller's scaler reaches the caller. ",
  ["inputs", "schedules", "histories"],
  "chains of grey, black and white and scaling over shared, partial, offset, file and caller-made pictures by one to four clients, with disk faults and a failing scaler, under seeded schedules",
  "The tests of the helpers are skipped (they need a human); none looks at a pixel, at a source afterwards, or at two users of one picture.",
  ["writer/standard/imgkit/process.go"],
  [("pixel loops", "writer/standard/imgkit/process.go:Gray,Binaryzation"), ("scaling", "writer/standard/imgkit/process.go:Scale")],
  ["pictures returned", "sources and results at the end of the run"])

prop("C20", "The picture file helpers save and read whole pictures, or fail",
  "imgkit.Save returns nil exactly when the named file holds the complete picture afterwards, in the format its extension names (.png without loss, .jpg and .jpeg), with nothing of an older file left. A file that cannot be created, written or closed is an error, and an extension it does not support is an error that leaves the file system as it was. imgkit.Read returns the picture a readable PNG or JPEG file holds and otherwise an error, never part of one. Neither panics, changes the caller's picture or any other file, or leaves a file open, and after faults end saving again succeeds. ",
  ["fault_sequences", "crash_points", "inputs", "histories"],
  "pictures of all kinds and bounds over missing, shorter, longer and damaged old files, supported and unsupported extensions, unusable paths, open, read, write and close errors at any offset, kills of the process, by one to three clients",
  "The test of the helpers reads one sample and writes two files on a working disk; nothing fails in it and nothing is read back.",
  ["writer/standard/imgkit/io.go"],
  [("saving", "writer/standard/imgkit/io.go:Save"), ("reading", "writer/standard/imgkit/io.go:Read")],
  ["results of the calls", "simulated file system before and after", "open handles"])

NA = {
 "C18": "a pure function of the option and a point: no schedule, clock, I/O, randomness or other party takes part, so a simulator has nothing to control; what of it meets those (gradients in saved pictures, shared between savers) is judged inside C05, C07 and C09 (every dark pixel of a picture is compared with the gradient at its place, equal saves give equal bytes)",
}

EXPLORE = "seeded search: each run is one exactly repeatable execution of the real code under a simulated scheduler and a simulated world; a clean check is evidence over the runs it made, not a proof. "
NOTE = {
 "C01": "Compares outcomes of equal requests across seeded interleavings of clients and of the library's goroutines; no oracle is trusted but equality.",
 "C02": "Trusts the reference reader in harness/refqr, written from the standard and independent of the library; covers every version and level at capacity edges in each run.",
 "C03": "Trusts the reference reader's Reed-Solomon and BCH decoders; damage is drawn up to the exact correction limit of each block.",
 "C04": "Trusts the reference penalty rules; where the standard leaves room (multiples of exactly 5 %) both readings are accepted.",
 "C05": "Go race detector over seeded interleavings preempted between statements, with happens-before edges only where the program makes them; sync.Pool is replaced by a race-transparent one.",
 "C06": "Faults are decided by the simulated sinks, encoders and file system, which also know whether a byte was refused.",
 "C07": "Trusts the picture oracle; JPEG output is judged by nearest colour and only where modules are large enough, PNG output exactly. Colours are opaque; how translucent foregrounds and backgrounds mix is documented nowhere.",
 "C08": "Counts calls at recording writers, sinks and handles.",
 "C09": "Compares bytes of equal saves; the picture oracle judges them as well.",
 "C10": "File system model: a write is visible once it returns, nothing is reordered, a kill keeps what was written.",
 "C11": "The same picture is decoded by the harness and handed over directly; compared byte for byte.",
 "C12": "termbox is a model: cell buffers, resize, events, init and flush errors.",
 "C13": "Deadlock, leaked tasks and step limits are seen by the simulated scheduler.",
 "C14": "Results with debugging are compared with the reference and with the same requests without it.",
 "C15": "One process per run; exit status, streams and files of the simulated world.",
 "C16": "syscall/js is a model of JavaScript values including throwing getters.",
 "C17": "Capacity and character sets from the reference tables.",
 "C19": "Pixels are compared with the standard library's grey model and with golang.org/x/image/draw called directly; rounding of up to 2 of 255 is allowed for scaling.",
 "C20": "Files are judged by decoding them and comparing with the picture; the simulated file system knows whether an operation was refused.",
}

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"./run.sh check {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {p['id']}",
   "technique": "deterministic simulation with fault injection" + (" (race detector under simulated schedules)" if p["id"] == "C05" else ""),
   "level": "exploration",
   "level_note": NOTE[p["id"]] + " " + EXPLORE.strip(),
 } for p in P if p["id"] not in NA],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "No hooks in /repo: the checks build an instrumented copy of /repo's working tree (see DESIGN.md). Replay a violation with ./run.sh replay <file>.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
