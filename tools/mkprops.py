"""Writes properties.jsonl and MANIFEST.json from one list.  python3 tools/mkprops.py"""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P = []


def p(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": ["src/vfbLib/" + f for f in files], "mechanism": [{"name": n, "where": "src/vfbLib/" + w} for n, w in mech],
                 "observe_at": observe, "hook_needed": None},
        technique=technique, note=note))
    assert len(title) <= 80, title


p("C01", "Integers survive the variable-length number encoding, in both directions",
  "Every integer in the 32-bit range that is written in the VFB number encoding is written in the shortest form (or the five-byte form when that is asked for), and reading the bytes back returns the same integer and consumes exactly those bytes. The same holds for fixed-width integers, doubles, strings and lists, in any mix in one stream. Numbers out of range of a field are refused, and undefined or incomplete encodings are never read as a number. The command-line value encoder and decoder give the same results.",
  ["inputs"], "every integer in the signed and unsigned 32-bit range, and every sequence of values in one stream",
  "Tests use a few dozen integers; boundaries between the five encoded forms and neighbouring values in one stream are not enumerated.",
  ["value.py", "parsers/value.py", "compilers/value.py", "parsers/base.py", "compilers/base.py"],
  [("read_value / write_value", "parsers/value.py, compilers/value.py"), ("StreamReader / StreamWriter", "parsers/base.py, compilers/base.py"), ("yuri", "value.py")],
  ["bytes written", "value returned", "stream position", "stdout of yuri"],
  "property-based testing: round trip and differential against a reference encoder, boundary enumeration",
  "All form boundaries are enumerated, everything else is random search over 32-bit integers.")

p("C02", "Font-level entries decompile and compile without loss",
  "For every font-level entry type, decompiling yields the values stored in the binary data, and compiling the decompiled structure yields the same binary data again, whatever the field values, the number of masters, the platform and the stem counts of the file. Compiling does not alter the structure it is given. Each entry number is shown under its fixed human-readable key.",
  ["inputs", "configurations"], "every well-formed structure of each of the about 150 font-level entry types, in every file context",
  "Tests compare one or two literal samples per entry type, most of them taken from one file; many types have none.",
  ["parsers/", "compilers/", "constants.py", "enum.py"],
  [("parser_classes", "constants.py"), ("parser and compiler classes", "parsers/*.py, compilers/*.py")],
  ["decompiled structure", "compiled bytes"],
  "property-based testing: round trip and differential against an independent reference encoder",
  "Structures come from an independent model of each entry type; values are boundary-biased random, not exhaustive.")

p("C03", "The glyph entry decompiles and compiles without loss",
  "A glyph entry with any combination of name, outlines, metrics, PostScript hints, guides, components, kerning, imported binary data and TrueType hinting decompiles to exactly those parts with absolute coordinates per master, and compiles back to the same bytes. The values of one master, node or part never leak into another.",
  ["inputs", "configurations"], "every glyph structure, for 1 to 16 masters",
  "Tests hold a handful of captured glyphs with one or two masters; part combinations and coordinate extremes are not sampled.",
  ["parsers/glyph.py", "compilers/glyph.py", "parsers/guides.py", "compilers/guides.py", "truetype.py"],
  [("GlyphParser", "parsers/glyph.py"), ("GlyphCompiler", "compilers/glyph.py")],
  ["decompiled structure", "compiled bytes"],
  "property-based testing: round trip and differential against an independent reference encoder",
  "Every part is generated alone and in random combination with the others.")

p("C04", "Entries attached to glyphs decompile and compile without loss",
  "For every entry type that follows a glyph (links, masks and their metrics, origin, Unicode values, GDEF data, anchors, images and bitmaps, notes, options, custom data), decompiling yields the stored values and compiling yields the same binary data, for any values, number of masters and platform. Compiling does not alter the structure it is given.",
  ["inputs", "configurations"], "every well-formed structure of each glyph-attached entry type, in every file context",
  "Tests compare one or two literal samples per type.",
  ["parsers/", "compilers/", "constants.py"],
  [("parser and compiler classes", "parsers/*.py, compilers/*.py")],
  ["decompiled structure", "compiled bytes"],
  "property-based testing: round trip and differential against an independent reference encoder",
  "As C02, for the glyph-attached types.")

p("C05", "Run-length bitmaps are decoded and encoded exactly",
  "Decoding a run-length encoded bitmap yields exactly the pixel rows of the image, and encoding any rows yields data that decodes to the same rows, for every image size and pixel content, on both platforms (Windows data is inverted). The textual preview shows exactly the image's pixels.",
  ["inputs"], "every bitmap size and content and every valid run-length spelling of it",
  "Tests decode a few captured bitmaps; run lengths at the 127/128/129 boundaries are rarely hit.",
  ["parsers/bitmap.py", "compilers/bitmap.py"],
  [("rle parser", "parsers/bitmap.py"), ("rle compiler", "compilers/bitmap.py")],
  ["pixel rows", "preview lines", "compiled bytes"],
  "property-based testing: round trip and differential against a reference run-length codec",
  "Runs are biased to the boundaries of the run-length form.")

p("C06", "An unmodified file is written back with every entry intact",
  "Reading a VFB file and writing it again without decompiling keeps the header's version fields, every entry, the order of the entries and every byte of their data, including unknown, empty, duplicate and very large entries; files in canonical form come out byte-identical. Entries excluded on reading are left out and all others are kept. Writing repeatedly, over an existing file, or after reading again into the same object gives the same result.",
  ["inputs", "histories"], "every sequence of entries with arbitrary ids and data, every header variant",
  "Tests round-trip three small fixture files.",
  ["vfb/vfb.py", "vfb/entry.py", "vfb/header.py", "parsers/header.py", "compilers/header.py"],
  [("Vfb.read_stream / write_bytes", "vfb/vfb.py"), ("VfbEntry.read / header", "vfb/entry.py")],
  ["bytes of the written file"],
  "property-based testing: byte-level round trip against a strict independent container reader",
  "Random entry soups around the 64 KB header boundary plus all fixture files.")

p("C07", "A decompiled file is written back with the same content",
  "Decompiling a whole VFB file (all of it, or only some entries) and writing it gives a file with the same content: the canonical bytes where the encoding is unique, and an equal decompiled structure when it is read again. The dictionary form of the file shows exactly the entries' keys and values, and a file assembled from that data is equal to the original. What the same object has read before makes no difference.",
  ["inputs", "configurations"], "every file made of well-formed entries in any order, number and context",
  "Tests do this for three small fixtures; context dependencies between entries (masters, platform, stems) are not varied.",
  ["vfb/vfb.py", "vfb/entry.py", "vfb/header.py", "parsers/", "compilers/"],
  [("Vfb.decompile / compile / as_dict", "vfb/vfb.py"), ("VfbEntry.decompile / compile", "vfb/entry.py")],
  ["bytes of the written file", "decompiled structure after re-reading"],
  "property-based testing: whole-file round trip against the reference model",
  "Files of up to 12 entries plus all fixture files.")

p("C08", "A written file reflects the current content after any editing history",
  "After any sequence of reading, decompiling, compiling, editing entry data in place, assigning new data, adding, removing and reordering entries, and writing, the file that is written contains exactly the current entries with their current content and matching size fields. Reading again starts from a clean state. Querying (dictionary form, glyph access, size, units per em) shows the current content and never changes what is written.",
  ["histories"], "every sequence of operations on a file object",
  "Tests write a freshly read file once; no test edits an entry whose header or data was already used.",
  ["vfb/vfb.py", "vfb/entry.py", "vfb/header.py"],
  [("VfbEntry.data / compile / decompile / header", "vfb/entry.py"), ("Vfb.write_bytes / clear", "vfb/vfb.py")],
  ["bytes of the written file", "entry.size", "entry.header"],
  "stateful property-based testing against a list-of-entries reference model",
  "Random histories of up to 25 operations.")

p("C09", "Text is preserved in the file's encoding",
  "Every character of the Western Windows encoding survives decompiling and compiling in names, strings, notes, OpenType classes, feature code and name records, and length prefixes count encoded bytes. Text in other encodings is decoded as the file's platform or the user's choice says. Stored text bytes are never silently changed by a round trip. Text in a field of fixed size is padded, and refused if it does not fit.",
  ["inputs", "configurations"], "every text in every text-bearing entry, both platforms",
  "Tests use ASCII and a few accented letters.",
  ["parsers/text.py", "compilers/text.py", "parsers/base.py", "compilers/base.py", "vfb/vfb.py"],
  [("encoding selection", "vfb/vfb.py, vfb/entry.py"), ("text parsers", "parsers/text.py")],
  ["decompiled strings", "compiled bytes"],
  "property-based testing: round trip per text-bearing entry type",
  "Windows encoding decided by search; platform and user choice of encoding is a known finding.")

p("C10", "Damaged input fails cleanly and never corrupts other data",
  "For any truncated, extended or corrupted entry data, decompiling terminates quickly without excessive memory and either yields a structure or reports the failure: the file's error flag is set and the entry keeps its original bytes, so the file can still be written with that data unchanged. A truncated or overlong entry is not silently accepted where the format determines its length. A damaged file never affects the entries that are intact.",
  ["inputs", "fault_sequences"], "every byte string as entry or file data, every truncation and corruption of valid data",
  "Tests feed only valid data, with a few exceptions.",
  ["vfb/entry.py", "vfb/vfb.py", "parsers/"],
  [("VfbEntry.decompile error handling", "vfb/entry.py"), ("StreamReader", "parsers/base.py")],
  ["error flag", "entry data after failure", "bytes of the written file", "wall time"],
  "fuzzing: mutation of model-generated entries and files, with crash, hang and preservation oracles",
  "Random mutation and truncation, all entry types; not coverage-guided beyond the structured generators.")

p("C11", "Glyphs are accessible by name like in a dictionary",
  "Glyph access by name finds exactly the glyphs of the file in file order, later duplicates of a name get a numbered suffix so that no glyph is hidden, and the glyph order, keys, items and membership test agree with each other. Each glyph sees its own outlines, links and options, also per master. Access never changes what the file contains.",
  ["inputs", "histories"], "every sequence of glyphs, including duplicate and empty names, and every access order",
  "Tests access one or two glyphs of a fixture.",
  ["vfb/vfb.py", "vfb/glyph.py"],
  [("Vfb dict access", "vfb/vfb.py"), ("VfbGlyph / VfbGlyphMaster", "vfb/glyph.py")],
  ["keys", "items", "glyph_order", "glyph data", "bytes of the written file"],
  "property-based testing against a reference model of the glyph list",
  "Files with up to 8 glyphs.")

p("C12", "Pens receive exactly the glyph's outline",
  "Drawing a glyph onto a segment pen or a point pen, for any master, produces exactly the contours stored in the glyph: every on-curve and off-curve point in order, open and closed paths, cubic and quadratic curves, and every component with its transformation. Drawing changes nothing.",
  ["inputs"], "every well-formed outline of lines, cubic and quadratic curves, open or closed, with components, any master",
  "Tests draw two or three captured glyphs.",
  ["vfb/glyph.py", "ufo/paths.py", "ufo/glyph.py"],
  [("VfbGlyph.draw / drawPoints", "vfb/glyph.py"), ("UfoMasterGlyph", "ufo/paths.py")],
  ["recorded pen calls"],
  "property-based testing: differential against a reference contour interpreter",
  "Contours are compared after normalisation to on-curve segments.")

p("C13", "Drawing into a glyph stores exactly what was drawn",
  "Contours and components drawn into a glyph through its segment pen or point pen become the glyph's outline, so that drawing the glyph back gives the same contours, and the result can be compiled, written and read again. Clearing removes exactly the contours and hints. Other glyphs and other masters are untouched.",
  ["inputs", "histories"], "every sequence of pen calls that forms valid contours",
  "Tests draw one or two contours.",
  ["vfb/pens.py", "vfb/glyph.py"],
  [("VfbGlyphPointPen", "vfb/pens.py")],
  ["decompiled structure", "recorded pen calls after drawing back"],
  "property-based testing: round trip through the pens",
  "Contours of lines, cubic and quadratic curves.")

p("C14", "UFO glyphs carry the glyph data of the exported master",
  "For every master, each glyph of the exported UFO has exactly the source glyph's name, advance width and height, Unicode values, contours, components with their base glyph names and transformations, anchors, mark colour and note. The UFO's glyph set and glyph order are those of the file. No value of another master or glyph appears. UFO folders are written in normalized form unless that is switched off.",
  ["inputs", "configurations"], "every font of outline glyphs and components, with any number of masters",
  "Tests compare a handful of exported glyph files for fixed fonts.",
  ["ufo/builder.py", "ufo/glyph.py", "ufo/paths.py"],
  [("VfbToUfoBuilder", "ufo/builder.py"), ("UfoMasterGlyph", "ufo/paths.py")],
  ["UFO read back with ufoLib"],
  "property-based testing: export of model-generated fonts, read back with fontTools.ufoLib and compared with the model",
  "Fonts of up to 6 glyphs and 4 masters.")

p("C15", "UFO kerning and groups express the VFB kerning and classes",
  "For every master, looking up any pair of glyphs in the exported kerning and groups gives the value the VFB stores for that pair, be it directly or through the kerning classes. Groups hold exactly the member glyphs of the classes in order (of two classes with the same name, the first one counts), key glyph and side flags are honoured, and no glyph is in two kerning groups of the same side.",
  ["inputs", "configurations"], "every set of classes and kerning pairs, any number of masters",
  "Tests cover single hand-written classes.",
  ["ufo/kerning.py", "ufo/groups.py", "ufo/builder.py", "ufo/features.py"],
  [("UfoKerning", "ufo/kerning.py"), ("UfoGroups / transform_groups", "ufo/groups.py")],
  ["groups.plist", "kerning.plist"],
  "property-based testing: pair lookup in the export against the model",
  "Fonts of up to 8 glyphs and 4 classes.")

p("C16", "UFO font info carries the font's naming, metrics and PostScript data",
  "Every font-level value with a UFO counterpart (naming, legal and vendor texts, versions, dimensions, underline, style bits, OS/2, head and hhea values, PostScript alignment zones and stems of each master, gasp, PANOSE, Unicode and codepage ranges, name records) appears in the exported font info of each master with the stored value. Values the UFO format cannot hold (invalid ranges or bits, control characters) never make the export fail or the UFO invalid. Attributes that no entry of the file sets are the same as for a font without any font info.",
  ["inputs", "configurations"], "every combination of font-level values, any number of masters",
  "Tests compare three fixture files.",
  ["ufo/info.py", "ufo/builder.py"],
  [("VfbToUfoInfo", "ufo/info.py")],
  ["fontinfo.plist read back with ufoLib"],
  "property-based testing: export compared with a reference mapping",
  "One mapping table written from the UFO specification.")

p("C17", "PostScript hints are exported for the outlines they belong to",
  "Every stem hint, ghost hint, link and hint replacement of a glyph is exported to the UFO hint data with the positions of the exported master and a non-negative width (-20 and -21 mark ghost hints), attached to the point where the replacement starts, also when that point is merged with the end of the contour, and the glyph objects resolve the same hint sets. Hint sets never reference missing points, links or hints of missing nodes are left out, and each point has at most one set. Hint data never alters the outlines.",
  ["inputs", "configurations"], "every set of hints, links and replacement points, any master",
  "Tests convert a few captured hint sets.",
  ["ufo/pshints.py", "ufo/paths.py", "vfb/glyph.py"],
  [("build_ps_glyph_hints", "ufo/pshints.py")],
  ["glyph lib hint data"],
  "property-based testing: export compared with a reference hint model",
  "v1/v2 hint data read back from the UFO glyph lib.")

p("C18", "TrueType hinting is exported completely with matching references",
  "Every TrueType hinting command, stem, zone, zone delta, ppm limit and rounding setting of the file appears in the UFO export and in the output of the hinting exporter (JSON, TOML, YAML) with its values, and every point (also in nested composites, and the side bearings), stem and zone a command refers to resolves to the same item in the export, whatever the names of stems and zones. Control values, font and glyph programs are exported as assembly that assembles to the stored bytecode, with the maxp values, and glyph programs carry the hash of the exported outline. Fonts with missing or incomplete hinting entries are exported too; references to missing zones are left out, missing points are never taken for other points, and missing stems are replaced by the first one as announced.",
  ["inputs", "configurations"], "every set of commands, stems, zones and deltas, with any optional entry missing",
  "Tests convert a few captured fonts.",
  ["tth.py", "ufo/tth.py", "ufo/builder.py"],
  [("vfb2tth", "tth.py"), ("TTH lib", "ufo/tth.py")],
  ["YAML/JSON hinting export", "UFO lib"],
  "property-based testing: export compared with the model",
  "Model-generated hinting data.")

p("C19", "Multiple-master fonts export a consistent designspace and masters",
  "A font with n axes and their masters exports one UFO per master and a designspace whose axes (names, mappings, range, labels), sources (names, locations) and instances (names, locations) match the file's axes, mappings, master locations and primary instances, and single-master fonts export exactly one UFO and no designspace. The designspace refers to the UFO files that were written, wherever the output folder is, also after that folder is moved. All masters have the same glyphs, groups, features and point-compatible outlines, and asking for the designspace again gives the same document.",
  ["inputs", "configurations"], "every axis setup from one to four axes",
  "Tests export one MM fixture.",
  ["ufo/designspace.py", "ufo/builder.py", "ufo/vfb2ufo.py"],
  [("get_ds_master_location / build designspace", "ufo/designspace.py, ufo/builder.py")],
  ["designspace document", "UFO files"],
  "property-based testing: export compared with the model",
  "Axis mappings and locations generated.")

p("C20", "Feature code is preserved and assembled in full",
  "OpenType feature code is read, written and split into features without losing, adding or changing lines (more than two consecutive blank lines are reduced to two). The exported feature code consists of the class definitions requested by the options, each once and in order and in agreement with the exported groups, followed by every line of the source in order, where only references to kerning classes in pair positioning statements are renamed to their exported group names, whatever the spacing, spelling or comment of the statement. To a feature compiler it means the same as the source.",
  ["inputs", "configurations"], "every feature text and class list",
  "Tests use literal snippets.",
  ["parsers/text.py", "compilers/text.py", "ufo/features.py", "ufo/builder.py"],
  [("OpenTypeStringParser", "parsers/text.py"), ("feature assembly", "ufo/features.py")],
  ["features.fea"],
  "property-based testing: round trip and containment oracles",
  "Feature text generated line by line; the export is also parsed with fontTools.feaLib.")

p("C21", "Timestamps convert exactly between FontLab, Unix and UFO form",
  "Every timestamp stored in a font converts to the corresponding UFO date string in UTC and back without change, for the whole range of the stored value.",
  ["inputs"], "every 32-bit timestamp",
  "Tests convert one or two dates.",
  ["ufo/time.py", "ufo/info.py"], [("convert timestamp", "ufo/time.py")],
  ["date string"],
  "property-based testing: differential against Python's datetime",
  "Full range of the stored value is sampled with boundaries.")

p("C22", "The JSON export is complete and the diff shows every difference",
  "The JSON export of a file is valid JSON and contains the header and every entry with its key and its full decompiled content (or, if requested, all its bytes as hexadecimal text), in file order; the header-only, binary, round-trip and minimal modes never show anything that is not in the file. Two files with the same content produce no difference in a diff, any difference in content produces one, and the text diff turns the content of the first file into that of the second. The HTML diff shows every line that differs.",
  ["inputs"], "every file made of well-formed entries, and every pair of such files",
  "Tests export the fixture files only.",
  ["json.py", "diff.py", "cmdline.py", "vfb/entry.py"],
  [("save_vfb_json", "json.py"), ("diffvfb", "diff.py")],
  ["JSON text", "diff output"],
  "property-based testing: JSON read back and compared with the model; diff as a metamorphic relation",
  "Files of up to 12 entries.")

p("C23", "Curve conversion keeps outlines within tolerance and compatible",
  "Converting a font's cubic outlines to quadratic curves keeps every contour of every master within the requested tolerance of the original (plus rounding to integers), keeps start and on-curve points, lines, existing quadratic curves and open ends (in reversed direction), and leaves no cubic curve and no PostScript hints of the old outlines. Advance widths, components and all other data and entries except links are unchanged, and the converted file can be read and written again. A font without outlines is not modified, and the input file never is.",
  ["inputs", "configurations"], "every cubic outline, any number of masters",
  "Tests convert one fixture.",
  ["cu2qu.py", "vfb/pens.py", "vfb/glyph.py"],
  [("vfb2qu", "cu2qu.py")],
  ["outlines after conversion"],
  "property-based testing: geometric distance oracle and structural invariants",
  "Curve distance is sampled.")

p("C24", "Command-line tools write where they are told and protect existing files",
  "Each command-line tool writes exactly its expected output files, named after the input, at the given output file or in the given folder (or beside the input), with the content the library functions give for those options, and changes no other file, never its input. The UFO exporter (including its JSON output) and the quadratic converter refuse to run, leaving everything as it was, when any output exists and overwriting is not forced; a forced run leaves nothing of the old output. Missing or damaged inputs and unknown formats are reported as errors, and silent mode prints nothing.",
  ["inputs", "configurations"], "every combination of options, file names and pre-existing files",
  "No test runs the command-line tools end to end.",
  ["cmdline.py", "cu2qu.py", "diff.py", "value.py", "ufo/vfb2ufo.py", "json.py", "tth.py"],
  [("argument handling", "cmdline.py, ufo/vfb2ufo.py")],
  ["directory tree before and after"],
  "property-based testing: directory snapshots before and after each run",
  "Runs in scratch directories.")

p("C25", "Conversions are deterministic and leave their source unchanged",
  "Exporting the same file twice gives identical results, independent of what was exported before from the same object or in the same process and of the environment (hash seed, locale, time zone, folder), and exporting never changes the file object: writing it afterwards gives the same bytes as writing it before. The masters are independent of each other, of the source and of the builder: editing one of them leaves the rest as it is.",
  ["histories", "inputs"], "every file and every sequence of exports",
  "Tests export each fixture once.",
  ["ufo/builder.py", "tth.py", "json.py", "cu2qu.py"],
  [("VfbToUfoBuilder", "ufo/builder.py")],
  ["exported trees", "bytes of the written file"],
  "property-based testing: metamorphic (repeat, reorder) and non-mutation oracles",
  "Exports to UFO, JSON and TrueType hinting data.")


NA: dict[str, str] = {}


def main():
    built = {f.stem.upper() for f in (V / "pbt/checks").glob("c[0-9]*.py")}
    with open(V / "properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps({k: v for k, v in x.items() if k not in ("technique", "note")}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for x in P:
        if x["id"] in built and x["id"] not in NA:
            m["checks"].append({
                "property": x["id"], "quick_cmd": f"bash run.sh {x['id']} quick", "thorough_cmd": f"bash run.sh {x['id']} thorough",
                "evidence_file": f"evidence/{x['id']}.json", "technique": x["technique"], "level": "exploration", "level_note": x["note"]})
        else:
            m["not_applicable"].append({"property": x["id"], "reason": NA.get(x["id"], "no check built yet")})
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])


main()
