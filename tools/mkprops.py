#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept together so that they stay in step)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, level_note=level_note, technique=technique, state=state or []))

EX = "exhaustive enumeration of executions of the real code (stateless explorer), "

prop("C01", "Loading any bytes yields an animation or an error, never a crash or a hang",
 "Loading any sequence of bytes returns either an animation or an error. It never panics, aborts, overflows the stack or runs forever, and the animation or error it returns can be inspected, displayed and written without any of these.",
 ["inputs"], "every byte sequence, of any length, nesting depth and content",
 "The tests load well-formed documents and a handful of malformed ones; a crash hides in the one malformed shape nobody wrote down (a brace too many, a misplaced keyword, a huge count).",
 ["src/parse.rs", "src/lib.rs", "src/errors.rs"],
 [("line by line parser with a mode and a stack-less joint list", "src/parse.rs: Bvh::read_joints"), ("motion parser", "src/parse.rs: Bvh::read_motion")],
 ["Bvh::from_bytes", "LoadError Display/Debug/line"],
 "Every document of the enumerated spaces (line sequences up to 3/4 over 35 lines from 18 contexts, structure sequences up to 7/9, all single-byte damage, token damage, rearranged lines, raw short strings, repeated constructs up to 20000) is loaded in a watched process; documents outside those spaces are not covered.",
 EX + "documents as decision sequences, under a supervisor that detects aborts and hangs")

prop("C02", "Whatever is loaded is consistent and survives being written and loaded again",
 "Every animation that the loader returns is consistent: the joints form one tree with the root first, channel numbers are consecutive, every frame has one value per channel, and all ways to look at it agree. Written with the default options and loaded again it has the same skeleton and motion, up to the one canonical form of names and frame times.",
 ["inputs"], "every byte sequence which is accepted",
 "Tests look at the result of a few documents; an inconsistency shows only for documents with an odd but accepted structure.",
 ["src/parse.rs", "src/joint.rs", "src/write.rs"],
 [("parent, depth and channel index bookkeeping while reading", "src/parse.rs: Bvh::read_joints"), ("frames as chunks of one vector", "src/frame_iter.rs")],
 ["Bvh::joints", "Bvh::frames", "Bvh::write_to"],
 "Checked on every accepted document of the same enumerated spaces as C01 (damaged and rearranged documents, structure sequences, all trees of 4/5 joints).",
 EX + "with a consistency monitor on every accepted document")

prop("C03", "Loading recovers exactly the skeleton and the motion the document states",
 "Loading a well-formed document yields exactly the joints it states, in order, with their names, parents, offsets, end sites and channels, and exactly its frame time and motion values, each in its place.",
 ["inputs"], "every well-formed document: any tree, names, channel lists, numbers of frames and values",
 "The tests compare a few fixed skeletons; a parent, channel index or value that is attributed wrongly only for some tree shape, position or size is not seen.",
 ["src/parse.rs", "src/joint.rs"],
 [("parent lookup by depth", "src/parse.rs: get_parent_index"), ("running channel index", "src/parse.rs: read_joints")],
 ["Joint accessors", "Bvh::frames", "Bvh::frame_time"],
 "All trees up to 8/10 joints, all combinations of channels/end sites up to 4/5 joints, all channel lists up to 5/7, all names up to 4/5 bytes of 11, one-dimensional sweeps to 140/600; values are distinct so that any exchange is seen.",
 EX + "compared with an abstract document the text was rendered from")

prop("C04", "Layout, line ends and unknown lines do not change what is loaded",
 "Indentation, the amount and kind of blanks between words, blank lines, either line end, a missing last line end, unknown lines in the hierarchy, and the way the motion values are broken into lines do not change what is loaded.",
 ["inputs"], "every well-formed document in every such layout, and mixtures of layouts within one document",
 "Tests use one layout per document; the layouts of exporters differ and combine freely.",
 ["src/parse.rs"], [("tokenizing by fields of a trimmed line", "src/parse.rs")], ["Bvh::from_bytes"],
 "All combinations of uniform layouts of 4 documents, every set of up to 2/3 local layout deviations in 3 documents, every way to break motion values into lines, runs of blanks to 300/9000.",
 EX + "with bounded deviations from the conventional layout")

prop("C05", "Writing an animation and loading the text gives the same animation back",
 "An animation written with any options which keep full precision, and loaded again, is the animation that was written, also after edits to its frames and frame time (which is exact to the nanosecond below 2^22 seconds). Writing what was loaded again produces the same bytes.",
 ["inputs", "configurations"], "every animation, every indentation, line end and (full) precision; every finite value",
 "Tests round-trip one or two skeletons with default options; bracing, precision or separators can be wrong only for some tree shape, value or option.",
 ["src/write.rs", "src/parse.rs"], [("recursive-free joint writer which closes braces by depth", "src/write.rs"), ("shortest round-trip number formatting", "src/write.rs")],
 ["WriteOptions::write", "Bvh::from_bytes"],
 "All skeletons up to 4/5 joints with all combinations of channels and end sites, trees up to 7/9, values of every sign and exponent, sweeps in each dimension, names of every byte and every short string, edited animations, frame times of every magnitude below 2^22 s; under enumerated options.",
 EX + "write-load-write histories")

prop("C06", "The written text is exactly the conventional text under the given options",
 "The text which is written is line by line the conventional text of the animation: header, joints in order with one brace pair each, indentation by depth, the requested line ends and numbers of decimals, and one line per frame; trailing blanks aside.",
 ["inputs", "configurations"], "every animation and every combination of writing options",
 "Tests compare a few written files; other options, depths, and skeletons are never written in the tests.",
 ["src/write.rs"], [("options applied at each write", "src/write.rs: WriteOptions")], ["WriteOptions::write_to_string"],
 "All combinations of 7 indentations, 2 line ends and 9 precisions per kind of value on 3 animations, all trees up to 7/9 joints, every number of spaces and depth up to 20/60, up to 60/400 decimals, compared byte for byte (modulo trailing blanks) with an independent writer.",
 EX + "compared with an independently written reference writer")

prop("C07", "Writing to an unreliable sink writes everything or reports the failure",
 "Whatever a sink does - accept any number of bytes at a time, ask to be retried, fail, or stop accepting - what has reached it is a prefix of the complete text, and success is returned if and only if all of the text has reached it. Any failure of the sink is returned to the caller, unchanged.",
 ["fault_sequences"], "every sequence of answers of the sink (short writes, interruptions, errors, zero) at every write",
 "The tests only write to vectors, which accept everything at once and never fail.",
 ["src/write.rs", "src/lib.rs"], [("write_all at each piece of the text", "src/write.rs")], ["Bvh::write_to", "WriteOptions::write"],
 "A sink whose every answer is a decision: up to a bounded number of deviations over all writes, every capacity, every pace, direct and through a buffered writer.",
 "fault enumeration: every bounded sequence of sink answers on the real writer")

prop("C08", "Loading from a reader depends only on the bytes it delivers",
 "Loading from a reader gives the result of loading the same bytes from memory, however the bytes are cut into pieces and however often reads are interrupted. When the reader fails, loading reports that failure and never returns an animation.",
 ["fault_sequences", "inputs"], "every way to cut the bytes into pieces, every sequence of interruptions, a failure at every position",
 "The tests read from slices, which deliver everything at once.",
 ["src/parse.rs", "src/lib.rs"], [("line iterator over a buffered reader", "src/parse.rs: CachedLines/EnumeratedLines")], ["Bvh::from_reader"],
 "Every pair/set of up to 2/3 cuts, all interruption patterns within the deviation bound, every pace, and an error of several kinds at every byte, for valid and invalid documents.",
 "fault enumeration: every bounded sequence of reader answers on the real loader")

prop("C09", "Frame editing behaves like a cursor in a list of frames",
 "Every history of cursor operations - moving, peeking, inserting, batch inserting, removing, changing values - has the effect of the same operations on a plain list of frames with a position between frames. An operation which is refused (a frame of the wrong length, nothing to remove) changes nothing, or for a batch only adds the frames before the refused one, and reports what was wrong.",
 ["histories"], "every sequence of operations of any length, on any number of frames and channels",
 "Tests run a few scripted edits on one size of animation; errors hide in particular sequences (insert in the middle, remove at the end, insert after remove all).",
 ["src/frame_cursor.rs", "src/frame_iter.rs"], [("cursor position and splicing of the motion vector", "src/frame_cursor.rs")], ["FrameCursor methods", "Bvh::frames"],
 "All histories of up to 4/5 operations out of 20 on 13 animations, every word of up to 2/3 operations repeated 24 times, two operations at every position of animations of up to 9/24 frames and at 6 positions of animations of up to 5000/70000 frames, all batches with wrong-length frames; the whole observable state is compared after each operation.",
 EX + "operation histories against a list-with-cursor model", [dict(name="cursor", meaning="position between frames", where="src/frame_cursor.rs")])

prop("C10", "Iterating frames and addressing cells reaches each value exactly once",
 "Every mixture of steps from the front and the back through the frames, read-only or mutable, yields each frame once and in order with a correct remaining count. In a frame, each channel addresses its own value and no other, by index or by channel, for reading and writing; an index out of range is refused and changes nothing.",
 ["histories", "inputs"], "every sequence of iterator steps, every channel, joint and frame",
 "The tests iterate forward over one animation.",
 ["src/frame_iter.rs"], [("chunks of num_channels values", "src/frame_iter.rs")], ["Frames", "FramesMut", "Frame", "FrameMut"],
 "All interleavings of next/next_back/nth/... to a bounded depth over 0..n frames, every cell of all small skeletons by every way of addressing, foreign channels, comparison with a list of lists.",
 EX + "iterator histories against a list model")

prop("C11", "Navigating the skeleton agrees with the tree of the document",
 "Walking the joints - all of them, the root, parents, children, and by name - agrees with the tree the document states: children are exactly the joints with that parent and in order, names find the first joint with that name, and end sites belong to their joint.",
 ["inputs"], "every tree of joints, with any names, repeated or not, and any end sites",
 "Tests look at one or two trees, and children were never listed by a test.",
 ["src/joint.rs"], [("parent indices and depth", "src/joint.rs: Joints, Joint")], ["Joint::children", "Joint::parent", "Joints::find_by_name"],
 "All trees up to 8/10 joints, all assignments of repeated names up to a bound, all subsets of end sites, sweeps of large trees.",
 EX + "all trees, compared with the abstract tree")

prop("C12", "An animation literal equals the animation loaded from the same text",
 "Every animation written as a literal in a program compiles, and is equal to the animation loaded from the same text. A literal whose motion values disagree with the number of frames or channels is refused, as the text is.",
 ["programs"], "every literal: any tree, 0 to 9 channels per joint, any names which are identifiers, numbers, frame times and frames",
 "Tests expand two or three literals; which arm of the macro is used depends on the number of channels, and most were never expanded.",
 ["src/macros.rs"], [("recursive macro which drives a builder", "src/macros.rs: bvh!, parse_joints_internal!")], ["bvh!"],
 "Enumerates 416/2389 programs (all trees up to 3/4 joints with all channel counts of 0,1,3 and end sites; every channel count and type; names; depths), compiles all of them against the tree and compares each with the loader.",
 EX + "one compiled program per literal, compared with the loader")

prop("C13", "Malformed documents are rejected with the right diagnosis on the right line",
 "A document is rejected exactly if it violates the grammar, and the error names the first violation: its kind, the line it is on, counted from zero over all lines, and the offending value where there is one.",
 ["inputs"], "every document over the vocabulary of the format, well-formed or not",
 "Tests check a few errors; the diagnosis depends on the state the parser is in and on the lines before.",
 ["src/parse.rs", "src/errors.rs"], [("parse mode per joint body", "src/parse.rs"), ("line counting", "src/parse.rs")], ["LoadError::kind", "LoadError::line"],
 "A specification automaton, written from the documented errors, predicts acceptance or kind/line of the error on every document of: line sequences up to 3/4 from 18 contexts over 35 lines, structure sequences 7/9, faults at every line with filler lines, byte, token and line damage.",
 "explicit specification automaton explored exhaustively; every trace replayed on the real loader")

prop("C14", "A torn file is never mistaken for the whole",
 "If a file was cut off at any byte, loading it fails, unless what is missing is only the end of the last number or blanks; then everything except that last number is exact. A file which lost whole frames is never accepted.",
 ["crash_points", "inputs"], "every written animation, cut at every byte offset",
 "No test loads a truncated file.",
 ["src/parse.rs"], [("comparison of the number of values with the declared number of frames", "src/parse.rs: read_motion")], ["Bvh::from_bytes"],
 "Every byte offset of the written form of 8 skeletons with every number of frames up to 4/12, with both line ends.",
 "crash point enumeration: every torn prefix of every written file")

prop("C15", "A declared frame count that disagrees with the motion values is rejected",
 "A document is accepted only if the number of its motion values is the declared number of frames times the number of channels, and otherwise the error states both numbers. This holds for every declared number, also one whose product with the number of channels exceeds the range of integers.",
 ["inputs"], "every declared number of frames, number of channels, and number of values present",
 "Tests have one document with too few values; overflowing declarations were not tried.",
 ["src/parse.rs"], [("checked comparison after reading all values", "src/parse.rs: read_motion")], ["LoadError"],
 "All combinations of channels, declared frames and values present up to 6/12 in 3 skeletons and 3 line arrangements; declarations around every power of two and wrap-around quotient; large documents off by up to 4.",
 EX + "all counts within a bound, and all boundary declarations")

prop("C16", "Numbers are read and written exactly",
 "Every numeral which is read gives the number nearest to it, and every finite number which is written is read back as the same number, wherever in a document it appears. What is not a numeral is rejected.",
 ["inputs"], "every numeral in offsets, end sites, motion values, frame times and counts; every finite single precision number",
 "Tests use a few short decimals.",
 ["src/parse.rs", "src/write.rs"], [("lexical number parsing", "src/parse.rs"), ("number formatting", "src/write.rs")], ["Bvh::from_bytes", "WriteOptions"],
 "All strings up to 5/6 of 13 characters in each place, 27 kinds of numerals of every length up to 330/1100 digits and of chosen lengths up to 100000, every place of documents of up to 70000 values, all midpoints between adjacent numbers for each exponent, and every sign and exponent with structured mantissas (quick) or all 2^32 bit patterns (thorough); compared with the standard library's correctly rounded conversion.",
 EX + "all short numerals and (thorough) all bit patterns")

prop("C17", "Channel names, kinds and axes correspond one to one",
 "Exactly the six documented names (and no other byte string) are channel names; each is read and written as its own channel, and its kind, axis and direction are those the name says. A string which is not a channel name is handed back unchanged in the error. Two channels of an animation are equal exactly if they are of the same kind and address the same value.",
 ["inputs"], "every byte string, every channel",
 "Tests cover the six names and hardly any near-misses.",
 ["src/lib.rs", "src/errors.rs"], [("ChannelType::from_bytes, as_str, axis", "src/lib.rs")], ["ChannelType", "Axis"],
 "All byte strings within 2 edits of a channel name, all strings of up to 2/3 bytes, all concatenations of 3 parts of names, all names with runs of a byte of up to 140/1200 at every place, the table of all 6 channels, and all pairs of channels of skeletons of up to 9/24 channels.",
 EX + "all strings within an edit distance")

prop("C18", "All the ways to load, write and configure agree with each other",
 "All entry points for loading give the same animation or the same error for the same input, all entry points for writing give the same bytes for the same options, and options can be set in any order with each setting affecting only its own option. Options are equal exactly if all of them are equal.",
 ["inputs", "configurations"], "every document, every entry point, every order of setting options",
 "Each test uses one entry point.",
 ["src/lib.rs", "src/write.rs"], [("thin wrappers over one loader and one writer", "src/lib.rs, src/write.rs")], ["from_bytes, from_str, from_reader, parse, try_from, write_to, to_string, WriteOptions"],
 "Every entry point on every document of the enumerated spaces; all setter histories up to 4/5 out of 15.",
 EX + "differential over all entry points")

prop("C19", "Memory used by loading and editing is bounded by the size of what is there",
 "The memory used to load a document is bounded by a constant times its length, whatever counts it declares; the memory used to insert frames is bounded by what is inserted, whatever the iterator promises. No declared number makes the process abort for lack of memory.",
 ["inputs"], "every document and every iterator",
 "No test measures memory; a declared count of 2^60 appears in none.",
 ["src/parse.rs", "src/frame_cursor.rs"], [("no preallocation from declared counts", "src/parse.rs"), ("size hint is only a hint", "src/frame_cursor.rs: try_insert_frames")], ["allocator"],
 "Counts around every power of two as declared frames and channels, size hints likewise, large documents in each dimension, and damaged tokens; measured with a counting allocator against a linear bound.",
 EX + "with an allocation monitor")

prop("C20", "Animations stay consistent and independent through whole histories of use",
 "Through every history of loading, editing frames, changing the frame time, taking the frames out, copying, writing and reloading, every animation is exactly what its history says. Changing one copy never affects another.",
 ["histories"], "every sequence of operations on an animation and its copies",
 "Tests do one thing to one animation.",
 ["src/lib.rs", "src/frame_cursor.rs"], [("owned values", "src/lib.rs: Bvh")], ["Bvh methods, Clone"],
 "All histories of up to 5/6 operations out of 13 on an original and a copy of 5 animations, with values which include zeros of both signs, infinities and what is no number, all sequences of up to 4/5 frame times out of 13, extreme frame times, and animations of up to some hundred frames, compared with the model after each operation.",
 EX + "operation histories with an aliasing monitor")

prop("C21", "Two animations are equal exactly when their contents are equal",
 "Two animations compare as equal if and only if they have the same joints, offsets, end sites, channels, frame time and frames. In particular a single difference anywhere makes them differ, and a copy is equal to its original. Views of single frames are equal if and only if their values are; views of joints which show anything different are not equal, while the views of the same joint of equal animations are.",
 ["inputs"], "every pair of animations",
 "Tests compare equal animations only.",
 ["src/lib.rs", "src/joint.rs"], [("derived comparison", "src/lib.rs: Bvh, src/joint.rs: JointData")], ["PartialEq for Bvh, Joint, Frame, FrameMut"],
 "All pairs of variants of an animation which differ in at most a single place (or none), the least difference at every place of 7 larger animations, generated pairs, and all pairs of views of joints and frames of these.",
 EX + "all pairs out of a set of single-difference variants")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            anchors["state"] = p["state"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=anchors)) + "\n")
TRUST = " Trusts the explorer, the reference models in /verif/mc and the standard library; nothing is claimed outside the bounds."
m = dict(version=1, setup_cmd="./check.sh build",
         checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="model_checking",
                      level_note=p["level_note"] + TRUST) for p in P],
         not_applicable=[],
         notes="No hooks are needed: everything is observed through the public interface. Repaired defects are in known-findings.txt.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
